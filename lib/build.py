"""Builds the monitored binaries from the working tree of /repo.

Everything is compiled from /repo/src as it is now; outputs live in /verif/.build/<flavour>-<hash>
where the hash covers every source, every harness file and the flags, so a stale binary is
never used.  Headers that the project's CMake generates are generated here independently.
"""
import glob, hashlib, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


SAN = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COMMON = ["-std=c++11", "-msse4.2", "-DCACHELOT_PLATFORM_BITS=64", "-DHAVE_CONFIG_H=1", "-DBOOST_ALL_NO_LIB", "-Wno-everything"]
FLAVOURS = {
    # name: (compiler, flags, wrap the arena allocation)
    "asan": ("clang++", SAN, True),                              # arena mode, ASan + UBSan
    "dbg": ("clang++", SAN + ["-DDEBUG=1"], True),               # arena mode, plus the project's own assertions
    "mal": ("clang++", SAN + ["-DADDRESS_SANITIZER=1"], True),   # items on the host heap: every item has ASan redzones
    "nov": ("clang++", SAN + ["-fno-sanitize=vptr"], True),      # for runs out of descriptors: the vptr check itself needs some
    "plain": ("clang++", ["-O2", "-g1", "-DNDEBUG"], True),      # uninstrumented: huge arenas
    "vg": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer"], True),                              # for valgrind's memcheck
    "vgm": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-DADDRESS_SANITIZER=1"], True),    # the same, items on the host heap
}
GEN_CONFIG = "#ifndef CACHELOT_CONFIG_H_INCLUDED\n#define CACHELOT_CONFIG_H_INCLUDED\n#define HAVE_ALIGNED_ALLOC 1\n#define HAVE_POSIX_MEMALIGN 1\n#endif\n"


def _gen_version():
    text = open(os.path.join(SRC, "cachelot", "version.h.in")).read()
    for k, v in {"major": "0", "minor": "8", "patch": "3", "extra": "verif", "hash": "XXX"}.items():
        text = text.replace("@cachelot_version_%s@" % k, v)
    return text.replace("@cachelot_os_name@", "Linux")


def tree_files():
    out = []
    for d, dirs, files in os.walk(SRC):
        dirs.sort()
        if os.path.basename(d) in ("unit_test", "benchmark", "cachelot_dylib"):
            continue
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cpp", ".c", ".inl", ".in")) and not (f in ("config.h", "version.h") and d.endswith("/cachelot")):
                out.append(os.path.join(d, f))
    return out


def digest(extra):
    h = hashlib.sha256()
    for f in tree_files() + sorted(glob.glob(os.path.join(HARNESS, "*"))):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def lib_sources():
    return sorted(glob.glob(os.path.join(SRC, "cachelot", "*.cpp")))


def server_sources():
    return sorted(glob.glob(os.path.join(SRC, "server", "*.cpp")) + glob.glob(os.path.join(SRC, "server", "*", "*.cpp")))


# target: (flavour, main harness or None for the server, uses vh.cpp, extra flags, extra libs)
TARGETS = {
    "cache": ("asan", "h_cache.cpp"), "cache_dbg": ("dbg", "h_cache.cpp"), "cache_mal": ("mal", "h_cache.cpp"),
    "dict": ("asan", "h_dict.cpp"), "dict_plain": ("plain", "h_dict.cpp"),
    "alloc": ("asan", "h_alloc.cpp"), "alloc_dbg": ("dbg", "h_alloc.cpp"), "alloc_plain": ("plain", "h_alloc.cpp"),
    "cache_plain": ("plain", "h_cache.cpp"),
    "util": ("asan", "h_util.cpp"),
    "capi": ("asan", "h_capi.cpp"), "capi_mal": ("mal", "h_capi.cpp"),
    "fault": ("asan", "h_fault.cpp"),
    "server": ("asan", None), "server_mal": ("mal", None), "server_dbg": ("dbg", None), "server_plain": ("plain", None), "server_nov": ("nov", None),
    "server_vg": ("vg", None), "server_vgm": ("vgm", None), "cache_vg": ("vg", "h_cache.cpp"), "cache_vgm": ("vgm", "h_cache.cpp"), "capi_vgm": ("vgm", "h_capi.cpp"),
    "util_vg": ("vg", "h_util.cpp"), "dict_vg": ("vg", "h_dict.cpp"), "alloc_vg": ("vg", "h_alloc.cpp"),
}


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-6000:]))


def build(names):
    """returns {name: path}; compiles what is missing, in parallel"""
    os.makedirs(BUILD, exist_ok=True)
    key = digest((sorted(FLAVOURS.items()), COMMON))
    root = os.path.join(BUILD, key)
    out = {n: os.path.join(root, n) for n in names}
    missing = [n for n in names if not os.path.exists(out[n])]
    if not missing:
        return out
    os.makedirs(root, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-", dir=root)
    try:
        gen = os.path.join(work, "gen", "cachelot")
        os.makedirs(gen)
        open(os.path.join(gen, "config.h"), "w").write(GEN_CONFIG)
        open(os.path.join(gen, "version.h"), "w").write(_gen_version())
        jobs, links = {}, []
        for n in missing:
            flavour, main = TARGETS[n]
            cxx, flags, wrap = FLAVOURS[flavour]
            srcs = list(lib_sources())
            if main is None:
                srcs += server_sources() + [os.path.join(HARNESS, "vclock.cpp")]
            else:
                srcs += [os.path.join(HARNESS, main), os.path.join(HARNESS, "vh.cpp")]
            objs = []
            for s in srcs:
                vhdef = ["-Daligned_alloc=vh_aligned_alloc"] if (wrap and main is not None) else []
                okey = (flavour, main is not None, s)
                if okey not in jobs:
                    o = os.path.join(work, "o%d.o" % len(jobs))
                    jobs[okey] = (o, [cxx] + COMMON + flags + vhdef + ["-I", os.path.join(work, "gen"), "-I", SRC, "-I", HARNESS, "-c", s, "-o", o])
                objs.append(jobs[okey][0])
            libs = ["-lpthread"]
            if main is None:
                libs += ["-lboost_program_options"]
            links.append((n, [cxx] + flags + objs + ["-o", os.path.join(work, n)] + libs))
        # the slowest first
        order = sorted(jobs.values(), key=lambda j: 0 if ("/h_" in j[1][-3] or "main.cpp" in j[1][-3]) else 1)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(lambda j: _run(j[1]), order))
            list(ex.map(lambda l: _run(l[1]), links))
        for n, _ in links:
            os.replace(os.path.join(work, n), out[n])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # forget the binaries of other trees
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and d != root), key=os.path.getmtime)
    for d in olds[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    try:
        have = [n for n, (f, m) in TARGETS.items() if m is None or os.path.exists(os.path.join(HARNESS, m))]
        build([n for n in (sys.argv[1:] or have)])
    except BuildError as e:
        sys.exit("BUILD-ERROR %s" % e)
