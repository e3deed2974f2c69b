#!/usr/bin/env python3
"""Random operator mutants of the sources, run against the workloads; prints the survivors.
usage: sweep.py SCRATCH SEED COUNT [file substring...]   (run from a copy of /verif, never from /verif itself)"""
import json, os, random, re, shutil, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
TREE = os.path.join(scratch, "t"); os.environ["VERIF_REPO"] = TREE
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, HERE)
import build, checks, run
FILES = ["cachelot/" + f for f in "bits.h cache.h c_api.cpp dict.h hash_table.h intrusive_list.h item.h item.cpp memalloc-inl.h slice.h string_conv.h expiration_clock.h common.cpp hash_fnv1a.h".split()] + \
        ["server/" + f for f in "io_buffer.h socket_stream.h socket_datagram.h main.cpp memcached/proto_ascii.cpp memcached/conversation.h memcached/memcached.cpp memcached/memcached.h".split()]
OPS = [(r"(?<![<>=!\-])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![<>=\-])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+=", "-="), (r"-=", "+="), (r"\bnot ", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\b(\d+)u?\b", lambda m: str(int(m.group(1)) + 1)), (r"\|", "&"), (r"<<", ">>"), (r"std::min", "std::max"), (r"std::max\b(?!\()", "std::min"), (r"\bif \((?!true)", "if (true || ")]


def points(src):
    out = []; debug = 0
    lines = src.split("\n")
    for n, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "*", "/*", "#", "debug_", "static_assert", "template", "typedef", "using", "friend", "namespace", "struct", "class", "throw", "explicit")): continue
        if "debug_assert" in t or "debug_only" in t or "desc.add" in t or "operator" in t or '("' in t: continue
        code = l.split("//")[0]
        for i, (pat, rep) in enumerate(OPS):
            for m in re.finditer(pat, code):
                if "<" in pat and ("template" in code or "cast<" in code[max(0, m.start() - 20):m.end() + 20] or "std::" in code[max(0, m.start() - 30):m.end()] and i < 4): continue
                r = rep(m) if callable(rep) else rep
                out.append((n, code[:m.start()] + r + code[m.end():]))
        if re.match(r"^[\w\.\->:\[\]\* ]+(\(.*\)| [+\-|]?= .*);$", t) and not re.match(r"^(const |auto |return|[\w:<> ]+ [\w]+ = |bool |slice |size_t |uint)", t):
            out.append((n, re.match(r"\s*", l).group(0) + ";"))
    return lines, out


rng = random.Random(seed)
allp = []
for f in FILES:
    if only and not any(o in f for o in only): continue
    lines, pts = points(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:src/" + f], text=True))
    allp += [(f, n, t) for n, t in pts]
rng.shuffle(allp)
print("%d mutation points" % len(allp), flush=True)
LIB = [checks.H("cache", p, 40, 1) for p in "store evict capacity cas expire arith limits hash stats lru hot".split()] + [checks.H("cache", "grow", 2, 1), checks.H("cache_dbg", "evict", 40, 1), checks.H("dict", "", 90, 1), checks.H("alloc", "", 120, 1), checks.H("capi", "", 200, 1), checks.H("fault", "", 200, 1),
      checks.H("util", "conv", 24, 1), checks.H("util", "iobuf", 800, 1), checks.H("util", "misc", 1200, 1)]
SRVS = [checks.S("framing", "server", "", 4, 2, 50), checks.S("framing", "server", "limits", 2, 1, 30), checks.S("hostile", "server", "", 2, 2, 150), checks.S("udp", "server", "", 4, 2, 80), checks.S("stats", "server", "", 4, 1, 50), checks.S("disconnect", "server", "", 6, 2, 60), checks.S("signals", "server", "", 4, 1),
        checks.S("slow", "server", "", 2, 1, 20), checks.S("concurrent", "server", "", 12, 2, 60), checks.S("giant", "server", "", 1, 1, 12), checks.S("config", "server", "", 1, 1, 30), checks.S("exhaust", "server_nov", "", 2, 1)]


def attempt(parts):
    names = []
    for p in parts:
        for t in p.targets():
            if t not in names: names.append(t)
    bins = build.build(names)
    tmp = tempfile.mkdtemp(prefix="sw-")
    os.chmod(tmp, 0o755)
    try:
        jobs = []
        for p in parts: jobs += p.jobs("C00", "quick", 1, bins, tmp, run.Job)
        for j in jobs: j.timeout = 150
        with ThreadPoolExecutor(max_workers=8) as ex:
            futs = list(ex.map(lambda j: j.run(), jobs))
        for j in jobs:
            if j.verdict() != "ok": return "%s %s: %s" % (j.verdict(), j.name, run.first_line(j)[:160])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return None


done = caught = 0
for f, n, t in allp:
    if done >= count: break
    shutil.rmtree(TREE, ignore_errors=True); os.makedirs(TREE)
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C " + TREE, shell=True)
    p = os.path.join(TREE, "src", f)
    lines = open(p).read().split("\n"); old = lines[n]; lines[n] = t
    if old.strip() == t.strip(): continue
    open(p, "w").write("\n".join(lines))
    t0 = time.time()
    tag = "%s:%d  %s  =>  %s" % (f, n + 1, old.strip()[:110], t.strip()[:110])
    try:
        r = None
        for parts in ((SRVS,) if f.startswith("server") and "io_buffer" not in f else (LIB, SRVS)):
            r = attempt(parts)
            if r: break
    except build.BuildError:
        continue
    done += 1
    if r: caught += 1
    print("%s %3.0fs %s%s" % ("caught  " if r else "SURVIVED", time.time() - t0, tag, "   [%s]" % r if r else ""), flush=True)
print("%d of %d caught" % (caught, done))
