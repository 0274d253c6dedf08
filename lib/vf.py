"""Shared machinery of the checks.

A check = TLA+ specification(s) model-checked by TLC + scenarios emitted by TLC
+ replay of the scenarios on the real code + validation of what was observed
against a TLA+ trace specification.

Outcomes:  exit 0 held;  exit 1 + VIOLATION line;  exit 3 the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VENVPY = "/opt/vp/venv/bin/python"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not be carried out (not a verdict)."""


def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    """Run in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return "timeout", out, err


# ---------------------------------------------------------------- compilation
INCLUDES = ["-I" + os.path.join(REPO, p, "include") for p in ("solver", "solver_lqr", "momentumopt")]
BASEFLAGS = (["-std=c++17", "-w", "-fPIC", "-DEIGEN_NO_STATIC_ASSERT", "-D_GLIBCXX_ASSERTIONS",
              "-include", os.path.join(VERIF, "harness", "vf_prelude.hpp")] +
             ['-DCFG_PATH="/repo/solver_lqr/config/"', '-DCFG_SRC_PATH="/repo/momentumopt/config/"'])
LIBDIRS = {"solver": "solver/src", "solver_lqr": "solver_lqr/src", "momentumopt": "momentumopt/src"}


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        fs = [root] if os.path.isfile(root) else sorted(
            f for f in glob.glob(root + "/**/*", recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


class Builder:
    def __init__(self):
        self.objdir = os.path.join(BUILD, "obj")
        os.makedirs(self.objdir, exist_ok=True)
        self.hdr = tree_hash([os.path.join(REPO, p, "include") for p in LIBDIRS] +
                             [os.path.join(VERIF, "harness")])

    def obj(self, src, flags):
        key = tree_hash([src], self.hdr + " ".join(flags))
        o = os.path.join(self.objdir, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            rc, out, err = sh(["g++"] + flags + ["-c", src, "-o", tmp], timeout=600)
            if rc != 0:
                raise CheckError("compilation of %s failed (%s)\n%s" % (src, rc, err[-3000:]))
            os.replace(tmp, o)
        return o

    def exe(self, name, sources, packages=(), opt="-O1", flags=(), libs=(), pre_inc=(), only=None, exclude=()):
        """Build an executable from harness `sources` and all sources of the given /repo packages."""
        fl = [opt] + BASEFLAGS + list(flags) + ["-I" + p for p in pre_inc] + \
            ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "standin")] + \
            INCLUDES + ["-I/usr/include/eigen3"]
        srcs = list(sources)
        for p in packages:
            for f in sorted(glob.glob(os.path.join(REPO, LIBDIRS[p], "**", "*.cpp"), recursive=True)):
                if only and not re.search(only, f): continue
                if any(re.search(e, f) for e in exclude): continue
                srcs.append(f)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda s: self.obj(s, fl), srcs))
        key = hashlib.sha256(" ".join(objs + list(libs) + list(flags)).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "bin", name + "." + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            rc, out, err = sh(["g++"] + [f for f in flags if f.startswith("-fsanitize")] + objs +
                              ["-o", exe + ".tmp", "-lyaml-cpp", "-lboost_thread", "-lboost_system", "-lpthread"] + list(libs), timeout=300)
            if rc != 0:
                raise CheckError("link of %s failed\n%s" % (name, err[-3000:]))
            os.replace(exe + ".tmp", exe)
        return exe


# ------------------------------------------------------------------------ TLC
class TlcResult:
    pass


def natives():
    """Compiled native versions of the fixed-point operators (java/vf); TLC falls back to nothing else."""
    src = os.path.join(VERIF, "java", "vf", "FxOverrides.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(BUILD, "java-" + h)
    if not os.path.exists(os.path.join(d, "vf", "FxOverrides.class")):
        t = "%s.%d" % (d, os.getpid())
        os.makedirs(t, exist_ok=True)
        rc, out, err = sh(["javac", "-d", t, "-cp", TLAJARS, src], timeout=300)
        if rc: raise CheckError("javac failed: " + err[-500:])
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)      # somebody else was faster
    return d


def tlc(module, cfg, rundir, env=None, workers=None, timeout=600, simulate=None, depth=None, seed=None,
        xmx="6g", coverage=False, extra=(), consts=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Returns parsed result."""
    meta = os.path.join(rundir, "tlc-%s-%d" % (module, time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    if consts:      # a copy of the configuration with other constants
        txt = open(os.path.join(SPEC, cfg)).read()
        for c, v in consts.items():
            txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(c), lambda m: m.group(1) + str(v), txt)
            if not n: raise CheckError("no constant %s in %s" % (c, cfg))
        cfg = os.path.join(meta, "m.cfg")
        open(cfg, "w").write(txt)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.FxOverrides",
           "-cp", TLAJARS + ":" + natives(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += ["-workers", str(workers or (1 if simulate else NCPU))] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.setdefault('SEED', '1')
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.err, r.wall = rc, out, err, time.time() - t
    r.generated = r.distinct = 0
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"number of states generated: ([\d,]+)", out)
        if m: r.generated = r.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"Progress: ([\d,]+) states checked", out)
        if not r.generated and m: r.generated = r.distinct = int(m[-1].replace(",", ""))
    r.ok = (rc == 0)
    r.emits = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            s = line[3:-1]
            r.emits.append(json.loads(json.loads('"' + s + '"') if '\\"' in s else s))
    r.rejects = []
    for m in re.finditer(r'<<"REJECT", (\d+), (.*)>>$', out, re.M):
        r.rejects.append((int(m.group(1)), m.group(2)))
    m = re.search(r'<<"CONSUMED", (\d+)>>', out)
    r.consumed = int(m.group(1)) if m else None
    r.actions = {}
    for m in re.finditer(r"^<(\w+) line.*?>: (\d+):(\d+)", out, re.M):
        r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3))
    return r


# ---------------------------------------------------------------- the context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rundir = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.rundir, ignore_errors=True)
        os.makedirs(self.rundir, exist_ok=True)
        self.builder = Builder()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []          # (key, text, replay dict)
        self.known = []
        self.action_cov = {}
        self.level = "model_checking"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # -- building
    def exe(self, *a, **k):
        t = time.time()
        e = self.builder.exe(*a, **k)
        self.log("built", os.path.basename(e), "%.1fs" % (time.time() - t))
        return e

    # -- TLC uses
    def model(self, module, cfg=None, count=True, must_cover=(), **k):
        """Model-check a design specification. A failure is a failure of the model, not of /repo."""
        r = tlc(module, cfg or module + ".cfg", self.rundir, coverage=bool(must_cover), **k)
        if not r.ok:
            raise CheckError("TLC rejected model %s/%s: rc=%s\n%s\n%s" % (module, cfg, r.rc, r.out[-3500:], r.err[-500:]))
        self.log("model %s %s: %d states, %d distinct, %.1fs" % (module, cfg or "", r.generated, r.distinct, r.wall))
        for a in must_cover:
            if not r.actions.get(a):
                raise CheckError("model %s: action %s never taken (%s)" % (module, a, r.actions))
        if count:
            self.states += r.distinct; self.transitions += r.generated
        for a, n in r.actions.items():
            self.action_cov[module + "." + a] = self.action_cov.get(module + "." + a, 0) + n
        return r

    def generate(self, module, cfg=None, minimum=1, **k):
        k.setdefault("workers", NCPU)
        k["env"] = dict({"SEED": self.seed}, **(k.get("env") or {}))
        r = self.model(module, cfg, **k)
        r.emits.sort(key=lambda e: json.dumps(e, sort_keys=True))
        if len(r.emits) < minimum:
            raise CheckError("generator %s produced %d scenarios" % (module, len(r.emits)))
        return r.emits

    def validate(self, module, records, cfg=None, name="trace", env=None, count=True, must_cover=(), **k):
        """Validate observed records against a trace specification; returns [(record index, reason)]."""
        if not records:
            raise CheckError("nothing to validate for " + module)
        path = os.path.join(self.rundir, name + ".ndjson")
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        k.setdefault("workers", 1)
        r = tlc(module, cfg or module + ".cfg", self.rundir, env=e, coverage=bool(must_cover), **k)
        if not r.ok or r.consumed != len(records):
            raise CheckError("trace specification %s failed: rc=%s consumed=%s of %d\n%s\n%s" %
                             (module, r.rc, r.consumed, len(records), r.out[-3500:], r.err[-500:]))
        self.log("validated %d records with %s: %d rejected, %.1fs" % (len(records), module, len(r.rejects), r.wall))
        for a in must_cover:
            if not r.actions.get(a):
                raise CheckError("trace spec %s: action %s never taken (%s)" % (module, a, r.actions))
        for a, n in r.actions.items():
            self.action_cov[module + "." + a] = self.action_cov.get(module + "." + a, 0) + n
        if count:
            self.states += r.distinct; self.transitions += r.generated
        return [(i - 1, why) for i, why in r.rejects]

    # -- running the real code
    def replay(self, cmd, scenarios, timeout_each=20, env=None, name="scen", cwd=None, parallel=NCPU, single=False):
        """Feeds scenarios (ndjson) to the harness; returns a list with, per scenario, the list of records.
        A harness prints, per scenario, `#BEGIN i`, record lines starting with `{`, then `#END i`.
        A crash or hang inside scenario i yields the record {"event":"crash"|"hang"}."""
        n = len(scenarios)
        out = [None] * n
        chunks = [list(range(i, n, parallel)) for i in range(min(parallel, n))]

        def run_chunk(ci):
            todo = chunks[ci]
            rnd = 0
            while todo:
                rnd += 1
                path = os.path.join(self.rundir, "%s.%d.%d.in" % (name, ci, rnd))
                with open(path, "w") as f:
                    for i in todo:
                        f.write(json.dumps(scenarios[i], separators=(",", ":")) + "\n")
                e = dict(os.environ); e.update(env or {})
                e.setdefault("OMP_NUM_THREADS", "1"); e.setdefault("OPENBLAS_NUM_THREADS", "1")
                rc, so, se = sh(list(cmd) + [path], timeout=timeout_each + 0.5 * timeout_each * min(len(todo), 40) ** 0.5 + 0.05 * len(todo) * 1.0 + 20,
                                env=e, cwd=cwd or self.rundir)
                cur, done = None, -1
                recs = []
                for line in so.split("\n"):
                    if line.startswith("#BEGIN "):
                        cur, recs = int(line[7:]), []
                    elif line.startswith("#END "):
                        out[todo[cur]] = recs
                        done, cur = cur, None
                    elif line.startswith("{") and cur is not None:
                        try:
                            recs.append(json.loads(line))
                        except ValueError:
                            pass
                if done == len(todo) - 1 and cur is None and rc == 0:
                    return
                if cur is None:
                    if rc == 0 or done + 1 >= len(todo):
                        if done == len(todo) - 1:   # crash after the last scenario (tear-down)
                            out[todo[-1]].append({"event": "crash", "rc": str(rc), "stderr": se[-400:]})
                            return
                        raise CheckError("harness %s stopped early: rc=%s %s %s" % (cmd, rc, so[-500:], se[-1500:]))
                    if done == -1:
                        raise CheckError("harness %s failed before any scenario: rc=%s\n%s" % (cmd, rc, se[-2000:]))
                    cur = done + 1
                recs.append({"event": "hang" if rc in ("timeout", -14, 142) else "crash", "rc": str(rc), "stderr": se[-400:]})
                out[todo[cur]] = recs
                todo = todo[cur + 1:]
                if rnd >= 4:            # enough evidence: do not spend the time budget on the rest
                    for i in todo: out[i] = "skipped"
                    return

        with cf.ThreadPoolExecutor(max(1, parallel)) as ex:
            list(ex.map(run_chunk, range(len(chunks))))
        if any(o is None for o in out):
            raise CheckError("harness produced no output for some scenarios")
        self.log("replayed %d scenarios" % n)
        return out

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts
    def violation(self, key, text, replay):
        """key identifies the failing input/history for the known-findings file."""
        for k in known_findings(self.pid):
            if re.fullmatch(k["match"], key):
                if k not in self.known: self.known.append(k)
                return
        self.violations.append((key, text, replay))

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": self.samples[:6]}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.action_cov:
            ev["coverage"]["actions_taken"] = self.action_cov
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            for n, (key, text, rep) in enumerate(self.violations[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": text, "replay": rep}, f, indent=1, default=str)
                print("  %s" % text[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0

    def judge(self, cmd, scenarios, module, to_records, cfg=None, confirm=True, name="scen", key=None,
              replay_kw=None, validate_kw=None, chunk=None):
        """replay -> records -> validate -> confirm -> violations.
        to_records(i, scenario, raw) -> list of records for the trace specification."""
        replay_kw, validate_kw = replay_kw or {}, validate_kw or {}
        raw = self.replay(cmd, scenarios, name=name, **replay_kw)

        def evaluate(idx, raws, nm):
            recs, owner = [], []
            for i in idx:
                if raws[i] == "skipped": continue
                for r in to_records(i, scenarios[i], raws[i]):
                    recs.append(r); owner.append(i)
            bad = {}
            size = chunk or len(recs) or 1
            b = 0
            while b < len(recs):
                e = min(b + size, len(recs))
                while e < len(recs) and owner[e] == owner[e - 1]: e += 1      # histories stay whole
                vk = dict(validate_kw)
                if b: vk.pop("must_cover", None)
                for ri, why in self.validate(module, recs[b:e], cfg=cfg, name="%s.%d" % (nm, b), **vk):
                    bad.setdefault(owner[b + ri], []).append((recs[b + ri], why))
                b = e
            return bad
        bad = evaluate(range(len(scenarios)), raw, name)
        self.traces += len(scenarios)
        self.extra["rejected_" + name] = len(bad)
        if bad:
            hist = {}
            for i, l in bad.items():
                for rec, why in l: hist.setdefault(why, []).append(i)
            self.log("reasons: " + ", ".join("%s x%d (e.g. %d)" % (w, len(v), v[0]) for w, v in hist.items()))
            if os.environ.get("VF_HIST"):
                json.dump([[scenarios[i], rec, why] for i, l in bad.items() for rec, why in l], open(os.environ["VF_HIST"], "w"))
        if bad and confirm:
            idx = sorted(bad)[:12]
            sub = [scenarios[i] for i in idx]
            raw2 = self.replay(cmd, sub, name=name + "-confirm", **replay_kw)
            m = {i: raw2[j] for j, i in enumerate(idx)}
            vk = dict(validate_kw); vk.pop("must_cover", None)
            sv = validate_kw; validate_kw = vk
            bad2 = evaluate(idx, m, name + "-confirm")
            validate_kw = sv
            if not bad2:
                raise CheckError("rejections did not repeat: %s" % str(list(bad.items())[:2])[:1500])
            bad = bad2
        for i, l in sorted(bad.items()):
            rec, why = l[0]
            k = key(i, scenarios[i], why) if key else "%s:%s" % (name, hashlib.sha1(json.dumps(scenarios[i], sort_keys=True).encode()).hexdigest()[:12])
            self.violation(k, "%s: %s %s" % (k, why, json.dumps(rec)[:700]), {"scenario": scenarios[i], "observed": rec, "why": why, "cmd": list(cmd)})
        return raw


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res


def main(pid, run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a, _ = ap.parse_known_args(sys.argv[2:])
    try:
        ctx = Ctx(pid, a.tier, a.seed)
        run(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e)); rc = 3
    except Exception:
        traceback.print_exc(); print("CHECK-ERROR property=%s internal" % pid); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
