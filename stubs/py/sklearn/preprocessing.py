import numpy as np


class MinMaxScaler:
    def __init__(self, feature_range=(0, 1)):
        self.feature_range = feature_range

    def fit(self, X):
        X = np.asarray(X, float)
        lo, hi = self.feature_range
        if lo >= hi:
            raise ValueError("Minimum of desired feature range must be smaller than maximum.")
        mn, mx = X.min(axis=0), X.max(axis=0)
        d = mx - mn
        d = np.where(d == 0, 1.0, d)
        self.scale_ = (hi - lo) / d
        self.min_ = lo - mn * self.scale_
        return self

    def transform(self, X):
        return np.asarray(X, float) * self.scale_ + self.min_

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)
