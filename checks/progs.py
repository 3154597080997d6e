"""C24: the repository's own programs, its documented example and its headers,
built as they are and observed from outside."""
import concurrent.futures as cf
import os, re, random, sys

M = sys.modules["__main__"]


class P:
    """What a program check looks like to the runner's reports."""
    def __init__(self, name):
        self.name, self.libs, self.src = name, [], ""

    def command(self, out):
        return ["-"]


def compile_(chk, name, src, out, std="c++11", cxx="g++", flags=()):
    cmd = [cxx, "-std=" + std, "-O1", "-I" + M.REPO + "/include", "-I" + M.REPO] + list(flags) + [src, "-o", out]
    rc, o, e = M.sh(cmd, 300)
    if rc is None or rc < 0 or re.search(r"internal compiler error|Killed|virtual memory", e):
        rc, o, e = M.sh(cmd, 300)
    if rc == 0:
        return True
    err = " / ".join([l for l in e.splitlines() if "error" in l][:4]) or e[-400:]
    if rc is None or rc < 0 or re.search(r"internal compiler error|Killed|virtual memory|No space left", e):
        with chk.lock:
            chk.inconclusive.append("%s: the compiler failed: %s" % (name, err))
    else:
        chk.violation(P(name), "compile", "%s does not compile (%s, %s): %s" % (name, cxx, std, err), cmd, e)
    return False


def count(chk, k, n=1):
    with chk.lock:
        chk.counters[k] = chk.counters.get(k, 0) + n


NAMES = ["Insert values"] + ["Accumulate forward" + x for x in ("", " by 1", " by 10", " by 100", " by 1000", " by 10000")] + \
        ["Accumulate backward" + x for x in ("", " by 1", " by 10", " by 100", " by 1000", " by 10000")] + ["Erase values"]


def programs(chk):
    rnd = random.Random(chk.seed)
    tmp = chk.tmp
    exe = {}
    jobs = []
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    for kind in ("single", "range"):
        for w in ("8", "64"):
            jobs.append(("generate_%s_%s" % (kind, w), "common/generate_%s_%s.cpp" % (kind, w), []))
            for c in ("segmented_tree_seq", "vector", "deque"):
                n = "%s_%s_%s" % (kind, c, w)
                jobs.append((n, "bench/%s.cpp" % n, []))
            jobs.append(("%s_segmented_tree_seq_%s+asan" % (kind, w), "bench/%s_segmented_tree_seq_%s.cpp" % (kind, w), san))
    with cf.ThreadPoolExecutor(4) as pool:
        def one(j):
            out = os.path.join(tmp, j[0])
            if compile_(chk, j[0], os.path.join(M.REPO, j[1]), out, flags=j[2]):
                exe[j[0]] = out
        list(pool.map(one, jobs))
    count(chk, "programs_built", len(exe))
    if chk.violations or chk.inconclusive:
        return
    env = dict(os.environ, **M.ENV)

    def bad(name, key, msg, cmd, e=""):
        chk.violation(P(name), key, "%s %s: %s" % (name, " ".join(cmd[1:]), msg), cmd, e)

    def run(cmd):
        for _ in range(2):
            rc, o, e = M.sh(cmd, 120, env)
            if rc is not None and "LeakSanitizer has encountered a fatal error" not in e:
                break
            env["ASAN_OPTIONS"] = M.ENV["ASAN_OPTIONS"] + ":detect_leaks=0"
        return rc, o, e

    reps = 6 if chk.tier == "quick" else 40
    work = []
    for kind in ("single", "range"):
        for w in ("8", "64"):
            for r in range(reps):
                n = [1, 2, 9, 10, 11][r] if r < 3 else rnd.choice([1, 3, rnd.randint(1, 300), rnd.randint(300, 4000)])
                args = [str(n)] + ([str(rnd.choice([1, 2, rnd.randint(1, 40)]))] if kind == "range" else [])
                work.append((kind, w, args))
            # more than 16 bits of each argument
            work.append((kind, w, [str(66000 + rnd.randint(0, 6000))] + (["2"] if kind == "range" else [])))
            if kind == "range":
                work.append((kind, w, [str(rnd.randint(3, 6)), str(66000 + rnd.randint(0, 6000))]))

    def drive(x):
        kind, w, args = x
        g = "generate_%s_%s" % (kind, w)
        cmd = [exe[g]] + args
        rc, o, e = run(cmd)
        m = re.match(r"(\d+) (\d+)\n$", o)
        if rc != 0 or not m:
            return bad(g, "generator", "exit status %s, output %r %r" % (rc, o[:80], e[:200]), cmd, e)
        seed, sum_ = m.group(1), int(m.group(2))
        count(chk, "generator_runs")
        with chk.lock:
            chk.hashes.add(hash((kind, w, tuple(args), seed)) & (2**64 - 1))
            if len(chk.samples) < 8:
                chk.samples.append("%s_%s %s -> seed %s checksum %d, replayed by seq, vector, deque" % (kind, w, " ".join(args), seed, sum_))
        for c in ("segmented_tree_seq", "vector", "deque", "asan"):
            b = "%s_segmented_tree_seq_%s+asan" % (kind, w) if c == "asan" else "%s_%s_%s" % (kind, c, w)
            cmd = [exe[b]] + args + [seed, str(sum_)]
            rc, o, e = run(cmd)
            if rc is None:
                return bad(b, "does-not-terminate", "ran for over 120 s twice", cmd)
            if rc != 0:
                return bad(b, "benchmark", "the generated checksum is refused or the run fails: exit status %s, %s" % (rc, e[-600:]), cmd, e)
            rows = [l.split(",") for l in o.splitlines()]
            if sorted(r[0] for r in rows) != sorted(NAMES) or any(len(r) != 2 or not re.match(r"[0-9.e+-]+$", r[1]) for r in rows):
                return bad(b, "benchmark", "measurements reported: %r" % o[:600], cmd)
            count(chk, "benchmark_runs")
            count(chk, "operations", len(rows))
        n0 = int(args[0])
        for bit in sorted({n0 % 64, (n0 * 7 + 32) % 64, 63 - n0 % 32, n0 % 8}):
            b = "%s_%s_%s" % (kind, ("segmented_tree_seq", "vector", "deque")[(bit + n0) % 3], w)
            cmd = [exe[b]] + args + [seed, str(sum_ ^ (1 << bit))]
            rc, o, e = run(cmd)
            if rc == 0:
                return bad(b, "checksum", "accepts a checksum that is wrong in bit %d" % bit, cmd, e)
            count(chk, "wrong_checksums_refused")

    with cf.ThreadPoolExecutor(4) as pool:
        list(pool.map(drive, work))


HEADERS = [
    ("seq.hpp first", "#include <boost/segmented_tree/seq.hpp>\nstruct X{int a;};template class boost::segmented_tree::seq<int>;\n"
     "int main(){boost::segmented_tree::seq<X> s;s.push_back(X{3});try{(void)s.at(1);}catch(...){return s.size()!=1;}return 2;}\n"),
    ("seq_fwd.hpp alone", "#include <boost/segmented_tree/seq_fwd.hpp>\nboost::segmented_tree::seq<long>* f(boost::segmented_tree::seq<long>* p){return p;}\n"
     "int main(){return f(nullptr)!=nullptr;}\n"),
    ("both headers", "#include <boost/segmented_tree/seq_fwd.hpp>\n#include <boost/segmented_tree/seq.hpp>\n#include <boost/segmented_tree/seq.hpp>\n"
     "int main(){boost::segmented_tree::seq<int>s{1,2};return s.size()!=2;}\n"),
]


def documents(chk):
    tmp = chk.tmp
    qbk = open(os.path.join(M.REPO, "doc/segmented_tree.qbk")).read()
    jobs = []
    m = re.search(r"\[section Example[^\]]*\]\n(.*?)\[endsect\]", qbk, re.S)
    body = "\n".join(l[2:] if l.startswith("  ") else l for l in m.group(1).splitlines()).strip() + "\n" if m else None
    if not body or "int main" not in body:
        with chk.lock:
            chk.notes.append("no example found in doc/segmented_tree.qbk")
    else:
        probe = body.replace("haystack.erase(it);", "haystack.erase(it); std::cout << haystack.size() << (std::find(haystack.begin(), haystack.end(), \"needle\") == haystack.end()) << \"\\n\";")
        jobs.append(("documented example", body, "Found needle at index: 33333\n"))
        jobs.append(("documented example, observed", probe, "Found needle at index: 33333\n" + ("1000001\n" if probe != body else "")))
    for n, t in HEADERS:
        jobs.append((n, t, ""))
    work = []
    for n, t, want in jobs:
        for cxx, std in (("g++", "c++11"), ("clang++", "c++11"), ("g++", "c++17"), ("g++", "c++20"), ("clang++", "c++20")):
            work.append((n, t, want, cxx, std))

    def one(x):
        n, t, want, cxx, std = x
        base = os.path.join(tmp, "doc-%d" % abs(hash(x)))
        with open(base + ".cpp", "w") as f:
            f.write(t)
        if not compile_(chk, n, base + ".cpp", base, std, cxx):
            return
        rc, o, e = M.sh([base], 120)
        if rc is None:
            rc, o, e = M.sh([base], 120)
        if rc != 0 or o != want:
            chk.violation(P(n), "example", "%s (%s, %s) exits with %s and prints %r, expected %r" % (n, cxx, std, rc, o[:200], want), [base], e)
        count(chk, "document_runs")
        count(chk, "operations")

    with cf.ThreadPoolExecutor(4) as pool:
        list(pool.map(one, work))
