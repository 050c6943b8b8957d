import numpy as np


def shuffle(*arrays, random_state=None):
    p = np.random.permutation(len(arrays[0]))
    out = [np.asarray(a)[p] for a in arrays]
    return out[0] if len(out) == 1 else out
