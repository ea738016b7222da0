"""What every check shares: building the harness from /repo, running drivers,
running TLC, reporting. Standard library only."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import overlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check could not be carried out: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = "/dev/shm" if not os.environ.get("NOSHM") and os.access("/dev/shm", os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < (4 << 30):
                base = None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        self.cov = {}
        self.samples = []
        self.violations = []     # dicts: what, replay data
        self.known = {}          # finding id -> text
        self.notes = {}
        self.assumptions = []
        self.undecided = None    # why there is no verdict, unless a violation was found
        self.level = "model_checking"
        self.bins = {}
        self.lock = threading.Lock()

    def thorough(self):
        return self.tier == "thorough"

    def size(self, quick, thorough):
        return thorough if self.thorough() else quick

    def add(self, key, n):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def path(self, *p):
        q = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def violation(self, what, data):
        with self.lock:
            if len(self.violations) >= 50:
                data = None
            self.violations.append({"what": what, "data": data})

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        if self.scratch and os.path.basename(self.scratch).startswith("verif-"):
            shutil.rmtree(self.scratch, ignore_errors=True)


# ---------------------------------------------------------------- processes
LIVE = set()


def spawn(cmd, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    LIVE.add(p)
    return p


def run(cmd, timeout=None, **kw):
    p = spawn(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    try:
        p.out, p.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    finally:
        LIVE.discard(p)
    return p


def children():
    return [p for p in list(LIVE) if p.poll() is None]


# ---------------------------------------------------------------- building
def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GONOSUMDB="*")
    env.setdefault("HOME", "/root")
    return env


def build(ctx, race=False, yields=False):
    """The harness, compiled with /repo's current working tree."""
    key = (race, yields)
    if key in ctx.bins:
        return ctx.bins[key]
    src = ctx.path("h%d%d" % key, "x")[:-2]
    for n in os.listdir(os.path.join(VERIF, "harness")):
        if n.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "harness", n), src)
    mod = open(os.path.join(VERIF, "harness", "go.mod.in")).read().replace("/repo", REPO)
    open(os.path.join(src, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), src)
    ovdir = ctx.path("ov%d%d" % key, "x")[:-2]
    ov = overlay.make(ovdir, yields=yields)
    out = ctx.path("bin%d%d" % key)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    if yields:
        cmd += ["-tags", "yields"]
    r = run(cmd + ["."], cwd=src, env=go_env())
    if r.returncode != 0:
        raise CheckError("the harness does not build:\n" + (r.out + r.err)[-4000:])
    ctx.log("built harness race=%s yields=%s" % key)
    ctx.bins[key] = out
    return out


# ---------------------------------------------------------------- drivers
def _run_slice(ctx, binary, test, behaviours, tag, env, stall, attempt):
    """One driver process over the behaviours; returns (trace file, died or None)."""
    inp = ctx.path("run", "%s.in" % tag)
    out = ctx.path("run", tag, "out")
    mark = ctx.path("run", tag, "mark")
    scratch = ctx.path("run", "scratch-%s" % tag, "x")[:-2]
    with open(inp, "w") as f:
        for b in behaviours:
            f.write(json.dumps(b) + "\n")
    for p in (mark, mark + ".esc"):
        if os.path.exists(p):
            os.unlink(p)
    e = dict(os.environ)
    e.update(VERIF_IN=inp, VERIF_OUT=out, VERIF_MARK=mark, VERIF_SCRATCH=scratch,
             VERIF_TIER=ctx.tier, GOTRACEBACK="all")
    e.update(env or {})
    err = open(ctx.path("run", tag, "stderr"), "w+b")
    p = spawn([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], cwd=scratch, env=e, stdout=err, stderr=err)
    last, since, hung = None, time.time(), False
    while True:
        try:
            p.wait(0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            st = os.stat(mark)
            now = (st.st_mtime_ns, open(mark).read())
        except OSError:
            now = None
        if now != last:
            last, since = now, time.time()
        elif time.time() - since > stall:
            hung = True
            os.killpg(p.pid, signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    err.seek(0)
    text = err.read().decode("utf8", "replace")
    err.close()
    shutil.rmtree(scratch, ignore_errors=True)
    m = open(mark).read() if os.path.exists(mark) else ""
    if p.returncode == 0 and m == "done":
        return out, None
    died = {"mark": m, "code": p.returncode, "hung": hung, "stderr": text}
    if os.path.exists(mark + ".esc"):
        died["escape"] = open(mark + ".esc").read()
    return out, died


def summarize_death(d):
    lines = [x for x in d["stderr"].splitlines() if x.strip()]
    keep = []
    for i, x in enumerate(lines):
        if re.search(r"^(panic|fatal error|WARNING: DATA RACE|SIGQUIT)|deadlock|concurrent map", x) or \
                re.match(r"\d{4}/\d\d/\d\d ", x):
            keep.append(x)
        if "goirlib/" in x and len(keep) < 12 and "verifharness" not in x:
            keep.append(x.strip())
        if len(keep) >= 12:
            break
    return ("the process hung; " if d["hung"] else "the process died (exit %s); " % d["code"]) + \
        ("it touched %s; " % d["escape"] if d.get("escape") else "") + " | ".join(keep)


def real_death(d):
    """Whether the death is the code under test's doing, not the harness's or the machine's."""
    if d["code"] in (-9, -15):
        return False
    t = d["stderr"]
    if d.get("escape"):
        return True
    if "DATA RACE" in t or "concurrent map" in t:
        m = re.search(r"DATA RACE|concurrent map", t)
        return "goirlib/" in t[m.start():m.start() + 20000]
    if re.search(r"^(panic|fatal error)", t, re.M) is None:
        return d["hung"] or re.search(r"^\d{4}/\d\d/\d\d ", t, re.M) is not None or d["code"] == 66
    # the panicking goroutine is printed first: it must be in goirlib
    first = t[re.search(r"^(panic|fatal error)", t, re.M).start():][:6000]
    first = first.split("\n\n")
    return any("goirlib/" in x for x in first[:3]) or d["hung"]


def drive(ctx, binary, test, behaviours, env=None, stall=60, jobs=None, died_cat="process"):
    """Runs the behaviours in parallel driver processes. Returns the trace files.
    A behaviour that kills or hangs the process is run again by itself; if the
    death is the code's it is a violation, otherwise an error of the check."""
    jobs = jobs or JOBS
    slices = [behaviours[i::jobs] for i in range(jobs)]
    outs = []

    def work(i):
        todo, n, deaths = slices[i], 0, 0
        mine = []
        while todo:
            tag = "%s-%d-%d" % (test, i, n)
            n += 1
            out, died = _run_slice(ctx, binary, test, todo, tag, env, stall, n)
            if os.path.exists(out):
                mine.append(out)
            if died is None:
                break
            m = re.match(r"(\d+)", died["mark"])
            if not m:
                raise CheckError("driver %s died before its first behaviour:\n%s" % (test, died["stderr"][-3000:]))
            bid = int(m.group(1))
            at = [k for k, b in enumerate(todo) if b["id"] == bid]
            if not at:
                raise CheckError("driver %s died in unknown behaviour %s" % (test, died["mark"]))
            bad = todo[at[0]]
            again = 0
            one = None
            for k in range(3):
                _, one = _run_slice(ctx, binary, test, [bad], "%s-again%d" % (tag, k), env, stall, 0)
                if one:
                    again += 1
                    break
            d = one or died
            if not real_death(d):
                raise CheckError("driver %s died, not by the code under test, in %s:\n%s"
                                 % (test, died["mark"], d["stderr"][:3000]))
            if died["hung"] and not one:
                ctx.log("a hang of behaviour %d was not repeatable; ignored" % bid)
            else:
                ctx.violation("%s: %s" % (died_cat, summarize_death(d)),
                              {"behaviour": bad, "mark": died["mark"], "repeated": again, "env": env,
                               "stderr": d["stderr"][:8000]})
            deaths += 1
            todo = todo[at[0] + 1:]
            if deaths >= 3:
                break
        return mine

    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(work, range(jobs)):
            outs.extend(r)
    return outs


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = int(m.group(1).replace(",", ""))
        m = re.search(r"Invariant (\S+) is violated|[Pp]roperty (\S+) is violated|Action property (\S+) is", out)
        self.violated = next((g for g in m.groups() if g), None) if m else None
        if not self.violated and "Temporal properties were violated" in out:
            self.violated = "temporal"
        if not self.violated and "Deadlock reached" in out:
            self.violated = "deadlock"
        self.ok = "No error has been found" in out

    def errors(self):
        """The messages, without the states."""
        return "\n".join(x for x in self.out.split("\n") if not re.match(r"\s|/\\|State |\d|Parsing|Semantic proc|TLC2|Running", x))[:2000] + "\n" + self.out[-1000:]


def tlc(ctx, module, cfg, env=None, args=(), workers=1, heap="3g", timeout=800, consts=None, cwd=None, tag=None):
    """Runs TLC on a copy of the specifications. consts overrides CONSTANTS lines."""
    tag = tag or "%s-%d" % (module, random.randrange(1 << 30))
    d = ctx.path("tlc", tag, "x")[:-2]
    for n in os.listdir(SPEC):
        if n.endswith(".tla") or n.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, n), d)
    text = open(os.path.join(d, cfg)).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + v, text)
        if n != 1:
            raise CheckError("constant %s not in %s" % (k, cfg))
    open(os.path.join(d, "run.cfg"), "w").write(text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "run.cfg"] + list(args) + [module + ".tla"]
    try:
        r = run(cmd, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s ran out of time" % module)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return TLCResult(r.out + r.err, r.returncode)


def tlc_ok(ctx, module, cfg, **kw):
    """A model that must hold: anything else is an error of the check (the code has not been consulted)."""
    r = tlc(ctx, module, cfg, **kw)
    if not r.ok:
        raise CheckError("TLC does not accept %s/%s:\n%s" % (module, cfg, r.out[-3500:]))
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    return r


def tlc_must_fail(ctx, module, cfg, what, **kw):
    """A model with a known slip must be rejected: shows that the properties bite."""
    r = tlc(ctx, module, cfg, **kw)
    if not r.violated:
        raise CheckError("TLC accepts %s/%s with the slip %s:\n%s" % (module, cfg, what, r.out[-3000:]))
    ctx.notes.setdefault("slips_rejected", []).append("%s: %s -> %s" % (module, what, r.violated))
    return r


def model_check(ctx, module, cfg, slips=(), slip_const="BUG", consts=None, **kw):
    """The model holds, and each of its slips is rejected; all at once."""
    jobs = [(None, consts or {})] + [(s, dict(consts or {}, **{slip_const: '"%s"' % s})) for s in slips]

    def one(j):
        s, c = j
        return tlc_ok(ctx, module, cfg, consts=c, **kw) if s is None else \
            tlc_must_fail(ctx, module, cfg, s, consts=c, **kw)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    ctx.log("model %s: %d states, %d transitions, %d slips rejected"
            % (module, res[0].distinct, res[0].generated, len(slips)))
    return res[0]


def csv_lines(path):
    """Lines CSVWrite wrote: JSON text quoted once more."""
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f:
            if line.strip():
                v = json.loads(line)
                out.append(json.loads(v) if isinstance(v, str) else v)
    return out


def generate(ctx, module, cfg, profile, num, seed, depth=400, extra_env=None):
    """Behaviours drawn from a generator specification by TLC's simulator."""
    def part(i, n):
        pf, go = ctx.path("gen", "p%s%d.json" % (module, i)), ctx.path("gen", "o%s%d" % (module, i))
        json.dump(profile, open(pf, "w"))
        if os.path.exists(go):
            os.unlink(go)
        r = tlc(ctx, module, cfg, env=dict({"PROFILE": pf, "GENOUT": go}, **(extra_env or {})),
                args=["-seed", str(seed * 1000 + i), "-simulate", "num=%d" % n, "-depth", str(depth)])
        lines = csv_lines(go)
        if len(lines) < n:
            raise CheckError("generator %s made %d of %d behaviours:\n%s" % (module, len(lines), n, r.out[-3000:]))
        ctx.add("generator_states", r.generated)
        return lines[:n]
    k = 4 if num >= 40 else 1
    with ThreadPoolExecutor(k) as ex:
        parts = list(ex.map(lambda i: part(i, (num + k - 1) // k), range(k)))
    out = [x for p in parts for x in p][:num]
    return [{"id": i, "acts": a} for i, a in enumerate(out)]


def validate(ctx, module, cfg, traces, env=None, heap="3g", timeout=800):
    """Runs a trace specification over each trace file, in parallel. Every event
    must be consumed. Returns [(trace file, mismatches, extra outputs dir)]."""
    traces = [t for t in traces if os.path.getsize(t) > 0]

    def one(i):
        t = traces[i]
        mis, score = t + ".mis", t + ".score"
        for p in (mis, score):
            if os.path.exists(p):
                os.unlink(p)
        r = tlc(ctx, module, cfg, env=dict({"TRACE": t, "MISOUT": mis, "SCOREOUT": score}, **(env or {})),
                heap=heap, timeout=timeout)
        if not r.ok:
            # What it said up to there counts; without a violation in it there is no verdict
            ctx.undecided = "trace specification %s did not consume %s:\n%s" % (module, t, r.errors())
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        return t, csv_lines(mis), csv_lines(score)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, range(len(traces))))


# ---------------------------------------------------------------- findings
def known_findings():
    """finding id -> (property, text) of the findings recorded and not repaired."""
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: (\S+) property=(\S+) (.*)", line)
        if m:
            out[m.group(1)] = (m.group(2), m.group(3).strip())
    return out


# ---------------------------------------------------------------- finishing
def finish(ctx):
    if ctx.undecided and not ctx.violations:
        raise CheckError(ctx.undecided)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
          "coverage": dict(ctx.cov), "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    ev["coverage"].update(ctx.notes)
    ev["coverage"]["samples"] = ctx.samples[:4]
    for k in ("states", "transitions", "traces_validated_against_impl"):
        if ctx.level == "model_checking":
            ev["coverage"].setdefault(k, 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)
    for fid, text in sorted(ctx.known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, fid, text))
    if ctx.violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (ctx.prop, ctx.tier, ctx.seed))
        json.dump(ctx.violations[:50], open(rp, "w"), indent=1)
        for v in ctx.violations[:5]:
            print("  " + v["what"][:1500])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    print("OK property=%s %s" % (ctx.prop, json.dumps({k: v for k, v in ctx.cov.items()})))
    return 0
