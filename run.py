#!/usr/bin/env python3
"""Runs the check of one property: builds the monitored harness against /repo's working tree in several
configurations, runs its workloads, confirms whatever they report by replaying it, and writes the evidence.

  run.py PROPERTY [quick|thorough]      exit 0: held on everything explored; exit 1: VIOLATION line
  run.py --replay FILE                  runs the recorded case again
  run.py --setup                        builds every harness once
"""
import collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time, zlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(V, ".build")
HARNESS = os.path.join(V, "harness")
KNOWN = os.path.join(V, "known-findings.txt")
PROPS = ["J%02d" % i for i in range(1, 12)] + ["M%02d" % i for i in range(1, 8)] + ["S01", "S02", "S03", "S04", "X01", "X02", "X03", "X04", "X05", "X06", "X07", "X08", "X09", "X10", "X11"]
THREADS = os.cpu_count() or 4

# name: (cargo features, profile, kind)
CONFIGS = {
    "chk-std": ("std", "dev", "native"), "chk-nostd": ("", "dev", "native"), "rel-std": ("std", "release", "native"),
    "rel-nostd": ("", "release", "native"), "rel-alloc": ("alloc", "release", "native"), "chk-alloc": ("alloc", "dev", "native"),
    "rel-anyf32": ("std,anyf32", "release", "native"), "chk-anyf32": ("anyf32", "dev", "native"),
    "asan-std": ("std", "dev", "asan"), "asan-nostd": ("", "dev", "asan"),
    "tsan-std": ("std", "dev", "tsan"),
    "miri-std": ("std", "miri", "miri"), "miri-nostd": ("", "miri", "miri"), "miri-tree": ("std", "miri", "miri"),
    "miri-i686": ("std", "miri", "miri"), "miri-s390x": ("alloc", "miri", "miri"),
}
MIRI_TARGET = {"miri-i686": "i686-unknown-linux-gnu", "miri-s390x": "s390x-unknown-linux-gnu"}
BASE_Q = ["chk-std", "rel-nostd"]
BASE_T = ["chk-std", "rel-nostd", "rel-std", "chk-nostd", "rel-alloc"]
ASAN = ["asan-std", "asan-nostd"]
PLAN = {p: (list(BASE_Q), list(BASE_T)) for p in PROPS}
PLAN["J06"] = (BASE_Q + ["miri-std"], BASE_T + ASAN + ["miri-std", "miri-tree", "miri-i686"])
PLAN["J07"] = (BASE_Q + ["miri-std"], BASE_T + ASAN + ["miri-std", "miri-tree"])
PLAN["J08"] = (BASE_Q + ["miri-std"], BASE_T + ASAN + ["miri-std", "miri-tree"])
PLAN["J10"] = (BASE_Q, BASE_T + ASAN)
PLAN["S01"] = (BASE_Q + ["miri-std"], BASE_T + ASAN + ["miri-std", "miri-tree"])
PLAN["S02"] = (BASE_Q, BASE_T + ASAN)
PLAN["S03"] = (["chk-std", "rel-nostd", "rel-std"], BASE_T + ASAN)
PLAN["M05"] = (BASE_Q + ["miri-i686"], BASE_T + ASAN + ["miri-std", "miri-tree", "miri-i686"])
PLAN["X01"] = (["chk-std", "rel-nostd", "rel-std", "rel-alloc", "miri-i686", "miri-s390x"], BASE_T + ["chk-alloc", "miri-std", "miri-i686", "miri-s390x"])
PLAN["X02"] = (["chk-std", "rel-nostd", "rel-anyf32"], BASE_T + ["rel-anyf32", "chk-anyf32"])
# the option for values of unknown type must not touch typed ones
for p in ("J01", "J03", "J04", "J05", "J09", "J10", "X09", "X10"):
    PLAN[p] = (PLAN[p][0] + (["rel-anyf32"] if p in ("J01", "J03", "J05") else []), PLAN[p][1] + ["rel-anyf32", "chk-anyf32"])
PLAN["X03"] = (BASE_Q, BASE_T + ASAN)
PLAN["X07"] = (BASE_Q + ["miri-std"], BASE_T + ASAN + ["miri-std", "miri-tree"])
PLAN["X11"] = (BASE_Q + ["miri-std"], BASE_T + ["tsan-std", "miri-std", "miri-tree"])
PLAN["S04"] = (BASE_Q, BASE_T + ASAN)
PLAN["X10"] = (BASE_Q, BASE_T + ASAN)
# the interpreter is some thousand times slower: run every n-th part of its cases in the quick tier
MIRI_DIV = {"quick": collections.defaultdict(lambda: 1, J07=2, J08=2, X01=4), "thorough": collections.defaultdict(lambda: 1)}
PROBES = {
    "J06": ["json-%s-%s" % (h, s) for h in ("ignored", "tree", "typed") for s in ("arrays", "objects", "closed")],
    "M05": ["msgpack-%s-%s" % (h, s) for h in ("ignored", "skip", "tree", "typed") for s in ("arrays", "maps", "closed")],
}
LEVEL_RULE = json.load(open(os.path.join(V, "tools", "levels.json")))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
ASAN_EXIT = 99
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, HARNESS):
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "examples", "benches"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def build_env(cfg):
    feats, prof, kind = CONFIGS[cfg]
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, cfg)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
    if kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks" + (" -Zmiri-tree-borrows" if cfg == "miri-tree" else "")
    return e


def cargo_args(cfg, prop):
    feats, prof, kind = CONFIGS[cfg]
    f = ",".join([x for x in feats.split(",") if x] + ["p-" + prop])
    a = ["--offline", "--no-default-features", "--features", f, "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    if kind in ("asan", "tsan"):
        # the race detector has to see what the standard library does as well
        return ["cargo", "+nightly", "build"] + a + ["--target", "x86_64-unknown-linux-gnu"] + (["-Zbuild-std"] if kind == "tsan" else [])
    if kind == "miri":
        a += ["--profile", "miri"]
        if cfg in MIRI_TARGET:
            a += ["--target", MIRI_TARGET[cfg]]
        return ["cargo", "+nightly", "miri", "run"] + a
    return ["cargo", "build"] + a + (["--release"] if prof == "release" else [])


def freshen(cfg, hsh):
    """Cargo trusts modification times; contents decide here."""
    t = os.path.join(BUILD, cfg)
    os.makedirs(t, exist_ok=True)
    mark = os.path.join(t, "contents")
    old = open(mark).read() if os.path.exists(mark) else None
    if old != hsh:
        for d in glob.glob(os.path.join(t, "**", ".fingerprint", "*"), recursive=True):
            if re.match(r"(ser-write|vh-)", os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)
        open(mark, "w").write(hsh)


def build(cfg, prop, hsh):
    """Returns (binary or miri command, None) or (None, error)."""
    freshen(cfg, hsh)
    kind = CONFIGS[cfg][2]
    if kind == "miri":
        # compile (and build the interpreter's own standard library) with a run that does nothing
        r = subprocess.run(cargo_args(cfg, prop) + ["--", prop, "--list"], env=build_env(cfg), capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            return None, r.stderr[-3000:]
        return cargo_args(cfg, prop), None
    r = subprocess.run(cargo_args(cfg, prop), env=build_env(cfg), capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    t = os.path.join(BUILD, cfg)
    if kind in ("asan", "tsan"):
        t = os.path.join(t, "x86_64-unknown-linux-gnu")
    return os.path.join(t, "release" if CONFIGS[cfg][1] == "release" else "debug", "vh"), None


def limits(cpu, stack=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    return f


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=%d:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0" % ASAN_EXIT
    e["TSAN_OPTIONS"] = "exitcode=%d:halt_on_error=1" % ASAN_EXIT
    e["RUST_BACKTRACE"] = "0"
    return e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vh-")
        self.viol, self.notes, self.parts = [], [], []
        self.bins = {}

    def seed_of(self, cfg):
        return self.seed if self.prop == "X01" else (self.seed * 1000003 + zlib.crc32(cfg.encode())) % (1 << 48)

    def base(self, cfg, miri_cases=False):
        t = "miri" if miri_cases or CONFIGS[cfg][2] == "miri" else self.tier
        a = [self.prop, "--tier", t, "--seed", str(self.seed_of(cfg)), "--cfg", cfg]
        # sanitized runs are an additional, slower pass
        if CONFIGS[cfg][2] in ("asan", "tsan"):
            a += ["--div", "8"]
        return a

    def cmd(self, cfg, args):
        b = self.bins[cfg]
        return ([b] if isinstance(b, str) else b + ["--"]) + args

    def env(self, cfg):
        return build_env(cfg) if CONFIGS[cfg][2] == "miri" else run_env()

    def violation(self, cfg, case, msg, args=None, kind="case"):
        d = os.path.join(V, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s.json" % (self.prop, cfg, hashlib.sha1(("%s %s %s" % (case, msg[:200], self.seed)).encode()).hexdigest()[:10]))
        json.dump({"property": self.prop, "config": cfg, "tier": self.tier, "seed": self.seed, "case": case, "kind": kind, "args": args or [], "message": msg}, open(p, "w"), indent=1)
        self.viol.append((p, case, msg))
        print("%s [%s] %s" % (self.prop, cfg, ("%s: " % case if case else "") + msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, V)), flush=True)

    # ------------------------------------------------------------ native runs
    def replay_one(self, cfg, case, args, cpu=60):
        """(verdict, text): 'held' | 'violation' | 'crash' | 'hang' | 'other'"""
        miri = CONFIGS[cfg][2] == "miri"
        c = self.cmd(cfg, args + ["--only", case])
        try:
            r = subprocess.run(c, env=self.env(cfg), capture_output=True, text=True, errors="replace", preexec_fn=limits(None if miri else cpu), timeout=1200)
        except subprocess.TimeoutExpired:
            return "other", "no answer in time"
        out = (r.stdout + r.stderr)[-3000:]
        if r.returncode == 0:
            return "held", out
        if -r.returncode == signal.SIGXCPU:
            return "hang", "still running after %d s of processor time" % cpu
        if r.returncode < 0 and -r.returncode in CRASH:
            return "crash", "ended by %s: %s" % (signal.Signals(-r.returncode).name, r.stderr[-600:])
        if r.returncode == ASAN_EXIT:
            return "crash", "sanitizer: " + " ".join(re.findall(r"(?m)^(?:==\d+==ERROR.*|WARNING: ThreadSanitizer.*|\s+#[0-6] .*)$", r.stderr)[:8])
        if miri and "Undefined Behavior" in r.stderr:
            return "crash", miri_text(r.stderr)
        if r.returncode in (1, 2) and "replay: " in r.stdout:
            return "violation", [l for l in r.stdout.splitlines() if l.startswith("replay: ")][-1]
        return "other", "exit %d: %s" % (r.returncode, out[-500:])

    def native(self, cfg, args, extra, tag=""):
        out, marks = os.path.join(self.tmp, cfg + tag + ".json"), os.path.join(self.tmp, cfg + tag + ".marks")
        full = args + ["--threads", str(THREADS), "--out", out, "--marks", marks] + extra
        limit = 300 if self.tier == "quick" else 3600
        for attempt in (1, 2):
            if os.path.exists(out):
                os.unlink(out)
            with open(os.path.join(self.tmp, cfg + tag + ".err"), "w+", errors="replace") as ef:
                p = subprocess.Popen(self.cmd(cfg, full), env=run_env(), stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limits(None))
                try:
                    rc = p.wait(limit)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = "timeout"
                ef.seek(0)
                err = ef.read()[-4000:]
            if rc in (0, 1, 2) and os.path.exists(out):
                return self.collect(cfg, args, json.load(open(out)))
            # it did not finish: which cases were running?
            names = subprocess.run(self.cmd(cfg, args + ["--list"]), capture_output=True, text=True).stdout.splitlines()
            found = False
            data = open(marks, "rb").read() if os.path.exists(marks) else b""
            for i in range(0, len(data) - 15, 16):
                w, k = struct.unpack("<QQ", data[i:i + 16])
                if not w or w > len(names):
                    continue
                case = "%s:%d" % (names[w - 1], k)
                v, msg = self.replay_one(cfg, case, args)
                if v in ("crash", "hang", "violation"):
                    self.violation(cfg, case, msg, args)
                    found = True
            if found:
                return None
            log(cfg, "ended with", rc, "but no running case reproduces it", err[-300:])
            if attempt == 2:
                if rc == ASAN_EXIT or isinstance(rc, int) and -rc in CRASH:
                    self.violation(cfg, "", "the run ended twice with %s: %s" % (rc, err[-800:]), full[:full.index("--out")], "whole")
                else:
                    self.notes.append("%s: run did not finish (%s); nothing it did counts" % (cfg, rc))
        return None

    def collect(self, cfg, args, d):
        confirmed = 0
        for v in d["violations"]:
            case = "%s:%d" % (v["workload"], v["idx"])
            if confirmed >= 3:
                break
            r, msg = self.replay_one(cfg, case, args)
            if r == "held":
                # the state another case left behind, perhaps: the monitors saw it nevertheless
                msg = v["msg"] + " (the case held when run alone)"
            elif r == "violation" or r == "other":
                msg = v["msg"]
            if v["harness"]:
                msg += " (raised inside the harness: an assumption about the code no longer holds)"
            self.violation(cfg, case, msg, args)
            confirmed += 1
        d["config"] = cfg
        self.parts.append(d)
        return d

    # ------------------------------------------------------------ interpreted runs
    def miri(self, cfg, shards, extra=lambda k: []):
        div = MIRI_DIV[self.tier][self.prop]
        args = self.base(cfg)

        def one(k):
            out = os.path.join(self.tmp, "%s.%d.json" % (cfg, k))
            c = self.cmd(cfg, args + ["--shard", "%d/%d" % (k, shards * div), "--out", out] + extra(k))
            limit = 400 if self.tier == "quick" else 3600
            try:
                r = subprocess.run(c, env=self.env(cfg), capture_output=True, text=True, errors="replace", timeout=limit)
            except subprocess.TimeoutExpired as e:
                return k, None, "no answer after %d s" % limit, ""
            return k, (json.load(open(out)) if os.path.exists(out) else None), r.returncode, r.stderr
        done = 0
        with cf.ThreadPoolExecutor(min(shards, THREADS)) as ex:
            for k, d, rc, err in ex.map(one, range(shards)):
                if d is not None:
                    done += 1
                    self.collect(cfg, args, d)
                elif "Undefined Behavior" in err:
                    case = (re.findall(r"(?m)^@case (.*)$", err) or [""])[-1]
                    self.violation(cfg, case, miri_text(err), args)
                else:
                    log(cfg, "shard", k, rc, err[-500:])
                    self.notes.append("%s: part %d of %d did not finish (%s)" % (cfg, k, shards, rc))
        return done

    # ------------------------------------------------------------ X01: same observations everywhere
    def compare(self, ref_name, ref, name, got, args):
        def load(p):
            o = {}
            for f in p:
                if os.path.exists(f):
                    for l in open(f):
                        w, i, d = l.rstrip("\n").split("\t")
                        o[(w, i)] = d
            return o
        a, b = load(ref), load(got)
        common = [k for k in b if k in a]
        self.compared[name + " against " + ref_name] = len(common)
        bad = [k for k in common if a[k] != b[k]]
        for w, i in bad[:2]:
            case = "%s:%s" % (w, i)
            txt = {}
            for n in (ref_name, name):
                r = subprocess.run(self.cmd(n, args(n) + ["--only", case]), env=self.env(n), capture_output=True, text=True, errors="replace")
                txt[n] = [l for l in r.stderr.splitlines() if " observed " in l]
            x, y = txt[ref_name], txt[name]
            d = next(((p, q) for p, q in zip(x, y) if p != q), (len(x), len(y)))
            self.violation(name, case, "%d cases behave differently in %s and %s; first difference: %s | %s" % (len(bad), ref_name, name, str(d[0])[:600], str(d[1])[:600]), args(name), "compare:" + ref_name)

    # ------------------------------------------------------------ everything
    def run(self):
        cfgs = PLAN[self.prop][0 if self.tier == "quick" else 1]
        hsh = tree_hash()
        native = [c for c in cfgs if CONFIGS[c][2] != "miri"]
        interp = [c for c in cfgs if CONFIGS[c][2] == "miri"]
        with cf.ThreadPoolExecutor(4) as ex:
            res = dict(zip(native + interp, ex.map(lambda c: build(c, self.prop, hsh), native + interp)))
        log("built", ", ".join(cfgs))
        for c, (b, e) in res.items():
            if b is None:
                if CONFIGS[c][2] != "native":
                    log("cannot build", c, e)
                    self.notes.append("%s could not be built here and did not run" % c)
                else:
                    print("%s: the harness does not build in configuration %s:\n%s" % (self.prop, c, e))
                    return 3
            else:
                self.bins[c] = b
        self.compared = {}
        x01 = self.prop == "X01"
        tr = lambda c, t="": os.path.join(self.tmp, "trace." + c + t)
        for c in native:
            if c not in self.bins:
                continue
            self.native(c, self.base(c), ["--trace", tr(c)] if x01 else [])
            log(c, "done")
        if x01:
            for c in native[1:]:
                self.compare(native[0], [tr(native[0])], c, [tr(c)], lambda n: self.base(n))
            if interp:
                c = native[0]
                self.native(c, self.base(c, True), ["--trace", tr(c, ".small")], ".small")
        for c in interp:
            if c not in self.bins or self.viol:
                continue
            n = THREADS if self.tier == "quick" else 2 * THREADS
            self.miri(c, n, (lambda k: ["--trace", tr(c, ".%d" % k)]) if x01 else (lambda k: []))
            if x01:
                self.compare(native[0], [tr(native[0], ".small")], c, [tr(c, ".%d" % k) for k in range(n)], lambda x: self.base(x, True))
            log(c, "done")
        probes = self.probes(native)
        return self.finish(cfgs, probes)

    def probes(self, native):
        known = {}
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l)
            if m and m[1] == self.prop:
                known[m[2]] = m[3].strip()
        o = {"returned": 0, "ran out of stack (known finding)": 0}
        for c in [c for c in native if CONFIGS[c][2] == "native"][:2]:
            for w in PROBES.get(self.prop, []):
                for depth in (1000, 1000000):
                    name = "%s-%d" % (w, depth)
                    r = subprocess.run(self.cmd(c, ["probe", w, str(depth)]), env=run_env(), capture_output=True, text=True, errors="replace", preexec_fn=limits(120, 8 << 20))
                    if r.returncode == 0 and r.stdout.startswith("returned"):
                        o["returned"] += 1
                    elif r.returncode < 0 and (-r.returncode in CRASH or -r.returncode == signal.SIGXCPU):
                        if name in known and "stack overflow" in r.stderr:
                            o["ran out of stack (known finding)"] += 1
                            if c == native[0]:
                                print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[name], name))
                        else:
                            self.violation(c, "", "deeply nested input %s: ended by %s: %s" % (name, signal.Signals(-r.returncode).name, r.stderr[-300:]), ["probe", w, str(depth)], "probe")
                    else:
                        self.notes.append("probe %s: exit %s" % (name, r.returncode))
        return o

    def finish(self, cfgs, probes):
        rule = LEVEL_RULE[self.prop]
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule["rule"], "samples": [], "configurations": {}, "observed": {}, "workloads": {}}
        perw = collections.defaultdict(lambda: [0, 0])
        for d in self.parts:
            k = cov["configurations"].setdefault(d["config"], {"cases": 0, "evaluations": 0, "distinct": 0})
            for w in d["workloads"]:
                cov["evaluations"] += w["evals"]
                cov["distinct_nontrivial"] += w["distinct"]
                k["cases"] += w["cases"]
                k["evaluations"] += w["evals"]
                k["distinct"] += w["distinct"]
                perw[w["name"]][0] += w["cases"]
                perw[w["name"]][1] += w["evals"]
                for n, x in w["counters"].items():
                    cov["observed"][n] = cov["observed"].get(n, 0) + x
                for s in w["samples"]:
                    if len(cov["samples"]) < 12 and len(s) > 0:
                        cov["samples"].append("%s: %s" % (w["name"], s[:400]))
        cov["workloads"] = {n: {"cases": a, "evaluations": b} for n, (a, b) in perw.items()}
        if self.compared:
            cov["cases compared between configurations"] = self.compared
        if PROBES.get(self.prop):
            cov["deep nesting probes"] = probes
        if not cov["samples"]:
            cov["samples"] = ["(no sample recorded)"]
        if self.notes:
            cov["not completed"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": rule.get("level", "exploration"), "coverage": cov,
              "assumptions": rule.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        if self.viol:
            return 1
        need = [c for c in cfgs if CONFIGS[c][2] == "native"]
        if any(c not in cov["configurations"] for c in need):
            print("%s: no verdict: %s" % (self.prop, "; ".join(self.notes)))
            return 3
        print("%s held: %d evaluations, %d distinct cases, configurations %s, %.1f s" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"], ", ".join(cov["configurations"]), ev["wall_s"]))
        return 0


def miri_text(err):
    i = err.find("error: Undefined Behavior")
    t = err[i:i + 1500].splitlines()
    at = [l.strip() for l in err[i:].splitlines() if l.strip().startswith(("-->", "at "))][:6]
    return "Miri: " + (t[0] if t else "") + " " + " ".join(at)


def replay(path):
    d = json.load(open(path))
    c = Check(d["property"], d["tier"], d["seed"])
    try:
        cfgs = [d["config"]] + ([d["kind"].split(":", 1)[1]] if d["kind"].startswith("compare:") else [])
        for x in cfgs:
            b, e = build(x, d["property"], tree_hash())
            if b is None:
                print(e)
                return 3
            c.bins[x] = b
        cfg = d["config"]
        if d["kind"] in ("probe", "whole"):
            r = subprocess.run(c.cmd(cfg, d["args"]), env=run_env(), capture_output=True, text=True, errors="replace", preexec_fn=limits(600, 8 << 20))
            print(r.stdout[-2000:], r.stderr[-2000:], "exit", r.returncode)
            return 1 if r.returncode < 0 or r.returncode == ASAN_EXIT else 0
        if d["kind"].startswith("compare:"):
            t = []
            for x in cfgs:
                a = list(d["args"])
                a[a.index("--cfg") + 1] = x
                r = subprocess.run(c.cmd(x, a + ["--only", d["case"]]), env=c.env(x), capture_output=True, text=True, errors="replace")
                t.append([l for l in r.stderr.splitlines() if " observed " in l])
            for p, q in zip(*t):
                if p != q:
                    print("%s: %s\n%s: %s" % (cfgs[0], p, cfgs[1], q))
            return 1 if t[0] != t[1] else 0
        v, msg = c.replay_one(cfg, d["case"], d["args"])
        print(v, msg)
        return 0 if v == "held" else 1
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "--setup":
        hsh = tree_hash()
        for c in BASE_Q:
            b, e = build(c, "J01", hsh)
            if b is None:
                print(e)
                return 1
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    # a harness that does not build or finish gives no verdict
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
