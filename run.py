#!/usr/bin/env python3
"""Decide one property: build its monitored harnesses from /repo's working tree,
run them, judge what the monitors observed, write evidence/<id>.json.

  run.py C01                 VERIF_TIER (quick|thorough) and VERIF_SEED are read
  run.py --replay FILE       run the recorded case again
Exit: 0 held on everything explored, 1 violation, 2 no answer."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "checks"))
JOBS = int(os.environ.get("VT_JOBS", "8"))

BASE_FLAGS = ["-std=c++17", "-g1", "-include", "cstdint", "-include", "stdexcept",
              "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(HERE, "src")]
SAN = {
    "none": ["-O2"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "msan": ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fsanitize-memory-track-origins=2"],
    "vg": ["-O1"],
    "cov": ["-O1", "-fsanitize-coverage=trace-pc-guard"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "LC_ALL": "C",
}


class Unit:
    """One program: a source of src/ with its definitions, run in shards."""

    def __init__(self, name, src, defs=None, san="none", shards=1, cxx=None, flags=(), libs=(), args=(),
                 timeout=270, no_pre=False, scale=1, tier=None):
        self.name, self.src, self.defs, self.san = name, src, dict(defs or {}), san
        self.shards, self.flags, self.libs, self.args = shards, list(flags), list(libs), list(args)
        self.cxx = cxx or ("clang++" if san in ("msan", "cov") else "g++")
        self.timeout, self.no_pre, self.scale, self.tier = timeout, no_pre, scale, tier

    def command(self, out):
        f = list(BASE_FLAGS) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "common"),
                                "-I" + os.path.join(REPO, "bench")] + SAN[self.san] + self.flags
        d = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in sorted(self.defs.items())]
        d.append('-DVT_UNIT="%s"' % self.name)
        return [self.cxx] + f + d + [os.path.join(HERE, "src", self.src), "-o", out] + self.libs


def sh(cmd, timeout, env=None, cwd=None, stop=None):
    """Run in its own process group; returns rc, stdout, stderr. rc None: timed out, or stop() said so."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env, cwd=cwd, start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            o, e = p.communicate(timeout=max(0.01, min(2, end - time.time())))
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            if time.time() < end and not (stop and stop()):
                continue
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, e = p.communicate()
            return None, o, e


def repo_hash():
    h = hashlib.sha256()
    for top in ("include", "common", "bench", "doc", "test"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(p.encode() + open(p, "rb").read())
                except OSError:
                    pass
    for d, ds, fs in sorted(os.walk(os.path.join(HERE, "src"))):
        for f in sorted(fs):
            h.update(f.encode() + open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


class Check:
    def __init__(self, pid):
        import props
        self.pid, self.spec = pid, props.PROPS[pid]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rh = repo_hash()
        self.lock = threading.Lock()
        self.counters, self.samples, self.known_seen = {}, [], {}
        self.hashes = set()
        self.first = None
        self.violations, self.inconclusive, self.notes = [], [], []
        self.runs = 0
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vt-")
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.known = load_known(pid)

    # -------------------------------------------------------------- build
    def build(self, u):
        key = hashlib.sha256((self.rh + "\0" + "\0".join(u.command("x"))).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "%s-%s" % (re.sub(r"[^A-Za-z0-9_.-]", "_", u.name), key))
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        rc, o, e = sh(u.command(tmp), 600)
        if rc == 0:
            os.replace(tmp, out)
            return out
        if os.path.exists(tmp):
            os.unlink(tmp)
        # Would the compiler build anything at all with these flags?
        ctl = os.path.join(self.tmp, "ctl-%s.cpp" % key)
        with open(ctl, "w") as f:
            f.write("#include <boost/segmented_tree/seq.hpp>\nint main(){ boost::segmented_tree::seq<int> s; s.push_back(1); return s.size()!=1; }\n")
        cu = u.command(ctl + ".out")
        cu = [c for c in cu if not c.endswith(u.src)]
        cu.insert(-1 if not u.libs else -len(u.libs), ctl)
        crc, _, ce = sh(cu[:1] + [ctl] + [c for c in cu[1:] if c != ctl], 300)
        err = [l for l in e.splitlines() if "error" in l][:6] or e.splitlines()[-6:]
        if rc is not None and rc > 0 and crc == 0 and not re.search(r"internal compiler error|Killed|virtual memory", e):
            self.violation(u, "compile", "a program using only the documented interface no longer compiles: " + " / ".join(err), cmd=u.command("a.out"))
        else:
            with self.lock:
                self.inconclusive.append("%s does not build (rc %s, control %s): %s" % (u.name, rc, crc, " / ".join(err)))
        return None

    # -------------------------------------------------------------- run
    def one_run(self, u, exe, shard):
        hf = os.path.join(self.tmp, "h-%s-%d" % (hashlib.md5(u.name.encode()).hexdigest()[:10], shard))
        env = dict(os.environ, **ENV, VT_HASHES=hf, VT_REPO=REPO, VT_TMP=self.tmp)
        scale = u.scale * (self.spec.get("thorough_scale", 12) if self.tier == "thorough" else 1)
        cmd = [exe, "--seed", str(self.seed), "--shard", str(shard), "--shards", str(u.shards), "--scale", str(scale)]
        if self.known:
            cmd += ["--known", ",".join(sorted(self.known))]
        cmd += u.args
        if u.san == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,possible"] + cmd
        to = u.timeout * (8 if self.tier == "thorough" else 1)
        t = time.time()
        rc, o, e = sh(cmd, to, env, stop=self.settled)
        if os.environ.get("VT_TIMES"):
            print("TIME run %.1f %s %s" % (time.time() - t, u.name, u.src), file=sys.stderr)
        if "LeakSanitizer has encountered a fatal error" in e or "LeakSanitizer does not work" in e:
            env["ASAN_OPTIONS"] += ":detect_leaks=0"
            with self.lock:
                self.notes.append("LeakSanitizer cannot run here: leaks seen by the allocator ledger only")
            rc, o, e = sh(cmd, to, env, stop=self.settled)
        return cmd, rc, o, e, hf

    def settled(self):
        """A violation has been seen a minute ago: what still runs cannot change the answer."""
        return self.tier == "quick" and self.first and time.time() > self.first + 60

    def run(self, u, exe, shard):
        if self.violations and self.tier == "quick":
            return
        cmd, rc, o, e, hf = self.one_run(u, exe, shard)
        viol = re.findall(r"^VIOL (\S+)\t(.*)$", o, re.M)
        if rc is None and self.settled():
            return
        if rc is None or rc == 3 or rc == -9 or rc == -15:
            first = rc
            cmd, rc, o, e, hf = self.one_run(u, exe, shard)
            viol = re.findall(r"^VIOL (\S+)\t(.*)$", o, re.M)
            if rc is None and self.settled():
                return
            if rc is None or rc == 3:
                self.violation(u, "does-not-terminate", (viol[0][1] if viol else "run exceeded its time twice (first %s)" % first), cmd, e)
                return
            if rc in (-9, -15):
                with self.lock:
                    self.inconclusive.append("%s shard %d was killed (%s then %s)" % (u.name, shard, first, rc))
                return
        with self.lock:
            self.runs += 1
            for k, v in re.findall(r"^STAT (\S+) (-?\d+)$", o, re.M):
                v = int(v)
                if k.startswith("max_"):
                    self.counters[k] = max(self.counters.get(k, 0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0) + v
            for s in re.findall(r"^SAMPLE (.*)$", o, re.M):
                if sum(1 for x in self.samples if x.startswith(u.name + ":")) < 2:
                    self.samples.append("%s: %s" % (u.name, s))
            for k, m in re.findall(r"^KNOWN (\S+)\t(.*)$", o, re.M):
                self.known_seen.setdefault(k, m)
            if os.path.exists(hf):
                d = open(hf, "rb").read()
                for v in struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]):
                    self.hashes.add(v)
                os.unlink(hf)
        if viol:
            for k, m in viol:
                if k == "sanitizer-report" or k in ("crash", "abort"):
                    m += " | " + summary(e)
                self.violation(u, k, m, cmd, e)
        elif rc == 2:
            with self.lock:
                self.inconclusive.append("%s: %s" % (u.name, (e or o).strip().splitlines()[-1:] or rc))
        elif rc != 0:
            self.violation(u, "sanitizer-report" if rc == 99 else "crash", "exit status %s: %s" % (rc, summary(e)), cmd, e)

    def violation(self, u, key, msg, cmd=None, err=""):
        with self.lock:
            n = len(self.violations)
            path = os.path.join(EVID, "replay-%s-%d.json" % (self.pid, n))
            case = re.search(r"\bcase=(\d+)", msg)
            rec = {"property": self.pid, "unit": getattr(u, "name", str(u)), "key": key, "message": msg, "seed": self.seed, "tier": self.tier,
                   "case": int(case.group(1)) if case else None, "run": cmd,
                   "build": u.command("a.out") if isinstance(u, Unit) else None, "stderr": (err or "")[-6000:]}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            self.violations.append((key, msg, path))
            self.first = self.first or time.time()

    # -------------------------------------------------------------- all
    def execute(self):
        units = [u for u in self.spec["units"]() if u.tier in (None, self.tier)]
        with cf.ThreadPoolExecutor(JOBS) as pool:
            def start(u):
                exe = self.build(u)
                if exe:
                    return [pool.submit(self.run, u, exe, s) for s in range(u.shards)]
                return []
            bs = [pool.submit(start, u) for u in units]
            extra = [pool.submit(f, self) for f in self.spec.get("programs", [])]
            for b in bs:
                for r in b.result():
                    r.result()
            for x in extra:
                x.result()
        for k, lo in self.spec.get("expect", {}).items():
            if not self.violations and not self.inconclusive and self.counters.get(k, 0) < lo:
                self.inconclusive.append("the monitors saw too little: %s is %d, expected at least %d" % (k, self.counters.get(k, 0), lo))
        return self.finish()

    def finish(self):
        c = self.counters
        ev = self.spec.get("evaluations", "operations")
        evals = c.get(ev, 0)
        distinct = len(self.hashes) if self.hashes else c.get("distinct", 0)
        cov = {"evaluations": int(evals), "distinct_nontrivial": int(distinct), "rule": self.spec["rule"],
               "samples": self.samples[:12] or ["none"], "monitor_counters": dict(sorted(c.items())), "program_runs": self.runs}
        if self.notes:
            cov["notes"] = sorted(set(self.notes))
        cov.update(self.spec.get("coverage", {}))
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.spec.get("level", "exploration"), "coverage": cov,
               "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(rec, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in sorted(self.known_seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known.get(k, k)))
        for k, m, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  [%s] %s" % (k, m[:1500]))
        if self.violations:
            return 1
        if self.inconclusive:
            for m in self.inconclusive:
                print("no answer: " + m[:1500])
            return 2
        print("%s held: %d %s, %d distinct, %d program runs, %.1f s" % (self.pid, evals, ev, distinct, self.runs, time.time() - self.t0))
        return 0


def summary(e):
    l = [x for x in e.splitlines() if re.search(r"ERROR: |runtime error|WARNING: |SUMMARY|terminate called|Assertion|what\(\)|==\d+== [A-Z]", x)]
    return " / ".join(l[:6]) or " / ".join(e.strip().splitlines()[-4:])


def load_known(pid):
    """known_findings.txt lists 'known: property=<id> key=<key> <description>' lines."""
    out = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = "key=%s %s" % (m.group(2), m.group(3).strip())
    except OSError:
        pass
    return out


def replay(path):
    import props
    r = json.load(open(path))
    os.environ["VERIF_SEED"] = str(r["seed"])
    os.environ["VERIF_TIER"] = r["tier"]
    c = Check(r["property"])
    for u in c.spec["units"]():
        if u.name == r["unit"]:
            exe = c.build(u)
            cmd = [exe] + r["run"][1:] if u.san != "vg" else r["run"]
            if r.get("case") is not None:
                cmd += ["--case", str(r["case"])]
            return subprocess.call(cmd, env=dict(os.environ, **ENV, VT_REPO=REPO, VT_TMP=c.tmp))
    print("no such unit")
    return 2


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    try:
        sys.exit(Check(sys.argv[1]).execute())
    except KeyboardInterrupt:
        sys.exit(2)
    except Exception as x:  # the machinery failed: no answer
        import traceback
        traceback.print_exc()
        sys.exit(2)
