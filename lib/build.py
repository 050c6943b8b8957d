"""Builds the bridges (thin programs around /repo's sources) from /repo's current working tree.

Objects are cached in /verif/build under the hash of everything that goes into them, so a change
anywhere in /repo's sources or headers is always rebuilt.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NNLS = os.path.join(REPO, "nnls-chroma-1.1")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS"]
# (libFuzzer is clang's)
FUZZ = ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,alignment,function", "-fno-sanitize-recover=undefined",
        "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
BASE = ["-O1", "-g1", "-w"]


def srcs(*names):
    return [os.path.join(REPO, "src", n) for n in names]


def all_src(exclude):
    """Every library source of the detector (a refactoring may add files)."""
    return sorted(f for f in glob.glob(os.path.join(REPO, "src", "*.cc"))
                  if os.path.basename(f) not in exclude)


NNLS_KNOWN = {"Chordino.cpp", "NNLSBase.cpp", "NNLSChroma.cpp", "Tuning.cpp", "chordextract.cpp", "chromaextract.cpp",
              "chromamethods.cpp", "nnls.c", "plugins.cpp", "viterbi.cpp"}


def nnls_srcs(*extra):
    n = ["NNLSChroma.cpp", "NNLSBase.cpp", "chromamethods.cpp", "nnls.c"] + list(extra)
    # (a refactoring may add files)
    n += sorted(os.path.basename(f) for e in ("*.cpp", "*.cc", "*.c") for f in glob.glob(os.path.join(NNLS, e))
                if os.path.basename(f) not in NNLS_KNOWN)
    return [os.path.join(NNLS, x) for x in n]


DIRTY = [(os.path.join(VERIF, "stubs", "dirty.cc"), [])]


JK_FLAGS = ["-std=c++11", "-I" + os.path.join(REPO, "include"), "-I" + NNLS,
            "-I" + os.path.join(VERIF, "stubs")]
HOSTNS = ["-D_VAMP_PLUGIN_IN_HOST_NAMESPACE"]
LIBS = ["-lsndfile", "-lvamp-hostsdk", "-ldl"]


def units(component):
    """(source, flags) pairs and link flags of a component."""
    b = os.path.join(VERIF, "bridge")
    not_core = {"justkeydding.cc", "ViterbiSTL.cc", "chromagram.cc", "midi.cc"}
    core = [(f, JK_FLAGS) for f in all_src(not_core)]
    chroma = [(f, JK_FLAGS + HOSTNS) for f in srcs("chromagram.cc")] + \
             [(f, []) for f in nnls_srcs()]
    if component == "core":
        return core + [(b + "/core.cc", JK_FLAGS)], []
    if component == "chroma":
        return core + chroma + [(b + "/chroma.cc", JK_FLAGS + HOSTNS)], LIBS
    if component == "midi":
        return core + [(f, JK_FLAGS) for f in srcs("midi.cc")] + \
            [(b + "/midibridge.cc", JK_FLAGS)], []
    if component == "app":
        return core + chroma + [(f, JK_FLAGS) for f in srcs("midi.cc")] + \
            [(f, JK_FLAGS) for f in srcs("justkeydding.cc")] + DIRTY, LIBS
    if component == "nnls":
        return [(f, HOSTNS) for f in nnls_srcs("Chordino.cpp", "Tuning.cpp", "viterbi.cpp")] + \
            [(b + "/nnlsbridge.cc", HOSTNS + ["-std=c++11", "-I" + NNLS])], LIBS
    if component in ("chordextract", "chromaextract"):
        n = ["Chordino.cpp", "viterbi.cpp"] if component == "chordextract" else []
        return [(f, HOSTNS) for f in nnls_srcs(*n)] + [(os.path.join(NNLS, component + ".cpp"), HOSTNS)] + DIRTY, LIBS
    if component == "fakekd":
        return [(os.path.join(VERIF, "stubs", "fakekd.cc"), ["-std=c++11"])], []
    if component == "viterbistl":
        # (the source is included, so its hash goes into the flags)
        return [(b + "/viterbistl.cc", ["-std=c++11", "-I" + os.path.join(REPO, "src"),
                                        "-DINCLUDED_" + _digest(srcs("ViterbiSTL.cc"))])], []
    if component == "vamplib":
        return [(f, []) for f in nnls_srcs("Chordino.cpp", "Tuning.cpp", "viterbi.cpp", "plugins.cpp")] + \
            [(b + "/vamplib.cc", ["-std=c++11"])], ["-lvamp-sdk"]
    if component == "fuzz_csv":
        return core + chroma + [(b + "/fuzz_csv.cc", JK_FLAGS + HOSTNS)], LIBS
    if component == "fuzz_dict":
        return [(f, []) for f in nnls_srcs()] + [(b + "/fuzz_dict.cc", ["-std=c++11", "-I" + NNLS])], ["-lvamp-sdk"]
    raise KeyError(component)


ALL = ["core", "core!fast", "chroma", "chroma!fast", "midi", "app", "app!fast", "nnls", "nnls!fast",
       "chordextract!fast", "chromaextract!fast", "fakekd!fast",
       "viterbistl", "vamplib", "vamplib!fast", "fuzz_csv", "fuzz_dict"]


def _digest(paths, extra=""):
    h = hashlib.sha1(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _headers():
    hs = []
    for d in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), NNLS,
              os.path.join(VERIF, "stubs"), os.path.join(VERIF, "bridge")):
        for root, _, files in os.walk(d):
            hs += [os.path.join(root, f) for f in files
                   if f.endswith((".h", ".hh", ".hpp", ".inc"))]
    return sorted(hs)


def _compile(src, flags, hdr_digest, san):
    cmd = ["clang++" if san == "fuzz" else "g++"] + BASE + (FUZZ if san == "fuzz" else SAN if san else FAST) + flags + ["-c", src]
    d = _digest([src], hdr_digest + " ".join(cmd))
    obj = os.path.join(BUILD, "obj", d + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("compiling %s failed:\n%s" % (
                src, p.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, obj)
    return obj


def ensure(component):
    """Path of the component's program, rebuilt from the current tree when anything changed.
    "X!fast" is component X without sanitizers, optimised (for compute-heavy searches)."""
    san = "fuzz" if component.startswith("fuzz_") else not component.endswith("!fast")
    component = component.split("!")[0]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    us, libs = units(component)
    hd = _digest(_headers())
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda u: _compile(u[0], u[1], hd, san), us))
        key = hashlib.sha1((" ".join(objs) + " ".join(libs) + str(san)).encode()).hexdigest()
        exe = os.path.join(BUILD, "%s-%s" % (component + ("" if san else "-fast"), key[:16]))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            link = ["clang++", "-fsanitize=fuzzer,address,undefined"] if san == "fuzz" else ["g++"] + (SAN[:3] if san else [])
            p = subprocess.run(link + objs + libs + ["-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise RuntimeError("linking %s failed:\n%s" % (
                    component, p.stdout.decode(errors="replace")[-4000:]))
            os.rename(tmp, exe)
    return exe


_known = {}


def ensure_cached(component):
    """ensure(), once per process (the tree does not change while a check runs)."""
    if component not in _known:
        _known[component] = ensure(component)
    return _known[component]


if __name__ == "__main__":
    for c in (sys.argv[1:] or ALL):
        print(c, ensure(c))
