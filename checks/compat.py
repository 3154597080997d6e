"""C26: one self-checking program (src/compat) built by several compilers,
standards and levels; every build runs the same histories and must report the
same digests."""
import concurrent.futures as cf
import os, re, sys
import progs

M = sys.modules["__main__"]
SRC = os.path.join(M.HERE, "src", "compat")
# (compiler, flags, digests comparable with the other builds: same sizes of library types)
BUILDS = [
    ("g++", ["-std=c++11", "-O0"], True),
    ("g++", ["-std=c++14", "-O3", "-DNDEBUG", "-march=native"], True),
    ("g++", ["-std=gnu++17", "-Os", "-D_GLIBCXX_DEBUG"], False),
    ("g++", ["-std=c++20", "-O2", "-flto", "-DBOOST_SEGMENTED_TREE_DEBUG"], True),
    ("g++", ["-std=c++23", "-O1", "-fno-rtti", "-funsigned-char"], True),
    ("clang++", ["-std=c++11", "-O2"], True),
    ("clang++", ["-std=c++17", "-O3", "-DNDEBUG"], True),
    ("clang++", ["-std=c++20", "-O0"], True),
    ("clang++", ["-std=c++2b", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], True),
]
MORE = [
    ("g++", ["-std=gnu++11", "-O3", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], True),
    ("g++", ["-std=c++11", "-O2", "-D_GLIBCXX_USE_CXX11_ABI=0"], False),
    ("g++", ["-std=c++14", "-O1", "-D_GLIBCXX_CONCEPT_CHECKS"], True),
    ("clang++", ["-std=c++14", "-O1"], True),
    ("g++", ["-std=c++17", "-O2", "-fno-strict-aliasing"], True),
    ("clang++", ["-std=c++2b", "-O3"], True),
]


def builds(chk):
    env = dict(os.environ, **M.ENV)
    todo = BUILDS + (MORE if chk.tier != "quick" else [])
    seeds = [chk.seed * 1000 + k for k in range(6 if chk.tier == "quick" else 60)]
    objs = {}

    def compile_one(x):
        (b, src) = x
        cxx, flags, _ = todo[b]
        out = os.path.join(chk.tmp, "%d-%s.o" % (b, src))
        name = "%s %s" % (cxx, " ".join(flags))
        if progs.compile_(chk, name, os.path.join(SRC, src + ".cpp"), out, flags[0][5:], cxx, flags[1:] + ["-I" + SRC, "-g0", "-c"]):
            objs[b, src] = out

    with cf.ThreadPoolExecutor(M.JOBS) as pool:
        list(pool.map(compile_one, [(b, s) for b in reversed(range(len(todo))) for s in ("main", "other")]))
    if chk.violations or chk.inconclusive:
        return
    seen = {}

    def drive(b):
        cxx, flags, comparable = todo[b]
        name = "%s %s" % (cxx, " ".join(flags))
        exe = os.path.join(chk.tmp, "compat-%d" % b)
        cmd = [cxx] + flags + [objs[b, "main"], objs[b, "other"], "-o", exe]
        rc, o, e = M.sh(cmd, 300)
        if rc is None or rc < 0:
            rc, o, e = M.sh(cmd, 300)
        if rc != 0:
            if rc is None or rc < 0 or not re.search(r"multiple definition|undefined reference|duplicate symbol", e):
                with chk.lock:
                    chk.inconclusive.append("%s: linking failed: %s" % (name, e[-300:]))
            else:
                chk.violation(progs.P(name), "link", "two translation units that include the header do not link (%s): %s" % (name, e[-300:]), cmd, e)
            return
        progs.count(chk, "builds")
        for s in seeds:
            cmd = [exe, str(s)]
            for _ in range(2):
                rc, o, e = M.sh(cmd, 120, env)
                if rc is not None and "LeakSanitizer has encountered a fatal error" not in e:
                    break
                env["ASAN_OPTIONS"] = M.ENV["ASAN_OPTIONS"] + ":detect_leaks=0"
            last = o.splitlines()[-1] if o.splitlines() else ""
            if rc != 0 or not last.startswith("DONE"):
                m = re.search(r"FAILED .*", o)
                key = "does-not-terminate" if rc is None else "behaviour" if m else "crash"
                return chk.violation(progs.P(name), key, "%s, seed %d: exit status %s, %s" % (name, s, rc, m.group(0) if m else (e[:600] or last)), cmd, e)
            progs.count(chk, "runs")
            progs.count(chk, "operations", int(last.split()[1]))
            for d in re.findall(r"DIGEST (.+) ([0-9a-f]{16})", o):
                progs.count(chk, "digests")
                with chk.lock:
                    chk.hashes.add(int(d[1], 16))
                    if len(chk.samples) < 8 and s == seeds[0]:
                        chk.samples.append("%s: %s seed %d digest %s" % (name, d[0], s, d[1]))
                    if comparable:
                        other = seen.setdefault((s, d[0]), (d[1], name))
                    else:
                        other = (d[1], name)
                if other[0] != d[1]:
                    return chk.violation(progs.P(name), "digest", "the history '%s' of seed %d differs between %s and %s" % (d[0], s, name, other[1]), cmd)

    with cf.ThreadPoolExecutor(M.JOBS) as pool:
        list(pool.map(drive, range(len(todo))))
