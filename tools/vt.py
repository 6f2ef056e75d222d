"""Machinery shared by the checks: building the driver from /repo's working tree, running it, running
TLC (model checking, script generation, trace validation), reports and evidence."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"


class CheckError(Exception):
    """The check itself could not be carried out (exit 2): never a verdict."""


def go_env():
    env = dict(os.environ)
    env["PATH"] = "/usr/local/go/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", CGO_ENABLED="1")
    return env


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, **kw)


class Work:
    """A scratch directory below /verif/.work, removed at the end."""

    def __init__(self, name):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # --- building -------------------------------------------------------------------
    def modfile(self):
        mod = self.path("mod")
        if os.path.exists(mod):
            return os.path.join(mod, "go.mod")
        os.makedirs(mod)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), mod)
        args = ["go", "mod", "edit"]
        for name in ("logging", "libxml"):
            args.append("-replace=github.com/amarin/%s=%s" % (name, os.path.join(VERIF, "stubs", name)))
        for drop in ("github.com/imperfectgo/zap-syslog", "go.uber.org/zap", "go.uber.org/multierr",
                     "golang.org/x/sys", "github.com/chzyer/test"):
            args.append("-droprequire=" + drop)
        r = run(args + [os.path.join(mod, "go.mod")], env=go_env())
        if r.returncode:
            raise CheckError("go mod edit: " + r.stdout)
        return os.path.join(mod, "go.mod")

    def build(self, race=False):
        """The driver, compiled as a package of /repo (through an overlay: /repo is not touched)."""
        src = os.path.join(VERIF, "go", "drv")
        replace = {os.path.join(REPO, "internal", "verifdrv", f): os.path.join(src, f)
                   for f in os.listdir(src) if f.endswith(".go")}
        overlay = self.path("overlay.json")
        with open(overlay, "w") as f:
            json.dump({"Replace": replace}, f)
        out = self.path("drv-race" if race else "drv")
        cmd = ["go", "build", "-overlay", overlay, "-modfile", self.modfile(), "-o", out]
        if race:
            cmd.append("-race")
        r = run(cmd + ["./internal/verifdrv"], cwd=REPO, env=go_env())
        if r.returncode:
            raise CheckError("driver does not build:\n" + r.stdout[-4000:])
        return out

    def build_cmd(self, name):
        """One of /repo's own commands."""
        out = self.path(name)
        r = run(["go", "build", "-modfile", self.modfile(), "-o", out, "./cmd/" + name], cwd=REPO, env=go_env())
        if r.returncode:
            raise CheckError(name + " does not build:\n" + r.stdout[-4000:])
        return out


# --- driver -----------------------------------------------------------------------------
def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def drive(binary, area, scenario, trace, env=None, timeout=1500, cwd=None):
    """Runs the driver over a scenario. Where the driver dies, the operation is recorded as died and the
    rest of its episode passed over."""
    ops = [json.loads(x) for x in open(scenario)]
    open(trace, "w").close()
    start, deaths = 0, 0
    e = dict(os.environ)
    e.update(env or {})
    notes = []
    # a driver that asks for memory without end dies of it, and takes nothing else along
    limit = None if binary.endswith("-race") else lambda: resource.setrlimit(resource.RLIMIT_DATA, (5 << 30, 5 << 30))
    while start < len(ops):
        r = subprocess.run([binary, area, scenario, trace, str(start)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd, text=True, errors="replace", preexec_fn=limit)
        if r.returncode == 0:
            if r.stdout:
                notes.append(r.stdout)
            break
        if r.returncode == 3:
            raise CheckError("driver: " + r.stdout[-2000:])
        deaths += 1
        done = sum(1 for _ in open(trace))
        rec = dict(ops[done])
        rec["res"] = "died"
        rec["msg"] = r.stdout[:300]
        out = [rec]
        done += 1
        # once it has died often enough, nothing more is tried
        while done < len(ops) and (deaths > 30 or ops[done]["op"] != "reset"):
            out.append({"op": "void"})
            done += 1
        with open(trace, "a") as f:
            for x in out:
                f.write(json.dumps(x) + "\n")
        start = done
    n = sum(1 for _ in open(trace))
    if n != len(ops):
        raise CheckError("trace has %d lines, scenario %d" % (n, len(ops)))
    return "".join(notes)


# --- TLC ---------------------------------------------------------------------------------
def tlc(work, module, cfg, workers="1", env=None, timeout=800, extra=(), heap="4g"):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.dir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPEC, env=e,
                           timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC %s %s: no answer in %d s" % (module, cfg, timeout)) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return out


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def model_check(work, module, cfg, workers="4", timeout=800, heap="6g", extra=()):
    """Exhaustive check of a specification; an error there is an error of the check, not of the code."""
    t = time.time()
    out = tlc(work, module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if "Model checking completed. No error has been found." not in out:
        raise CheckError("model check %s %s failed:\n%s" % (module, cfg, out[-6000:]))
    gen, distinct = stats(out)
    return {"model": module, "config": cfg, "states": distinct, "transitions": gen, "wall_s": round(time.time() - t, 1)}


def model_must_fail(work, module, cfg, what, workers="4", timeout=800, heap="6g"):
    """A deliberately broken variant of the model: the property must notice (the check is not vacuous)."""
    out = tlc(work, module, cfg, workers=workers, timeout=timeout, heap=heap)
    if what not in out:
        raise CheckError("model check %s %s should report %s:\n%s" % (module, cfg, what, out[-3000:]))
    return {"model": module, "config": cfg, "refuted": what}


def printed(out):
    """Values printed by PrintT(ToJson(..))."""
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                continue


def generate(work, module, cfg, timeout=600, extra=(), heap="4g"):
    out = tlc(work, module, cfg, workers="1", timeout=timeout, extra=extra, heap=heap)
    if "Error:" in out or "Finished in" not in out:
        raise CheckError("generation %s %s:\n%s" % (module, cfg, out[-3000:]))
    return list(printed(out)), stats(out)


def validate(work, module, cfg, trace, timeout=800, env=None, heap="4g"):
    """Checks a recorded trace against a trace specification. Gives the rejected lines. An observation for which
    the specification has no value at all (TLC cannot evaluate the step, or no step is possible) is a rejected
    line too, of whatever property is being decided; the rest of its episode is passed over."""
    beyond = []
    while True:
        e = {"TRACE": trace}
        e.update(env or {})
        out = tlc(work, module, cfg, workers="1", env=e, timeout=timeout, heap=heap)
        rejected = [p for p in printed(out) if isinstance(p, dict) and "rejected" in p]
        if "Model checking completed. No error has been found." in out:
            return rejected + beyond, stats(out)
        keep = [x for x in out.splitlines() if not x.startswith('"')]
        line = None
        if "The error occurred when TLC was evaluating" in out:
            at = re.findall(r"^/\\ l = (\d+)$", out, re.M)
            line = int(at[-1]) if at else None
        elif re.search(r"Accepted.*(violated|false)", out):
            at = re.findall(r"The depth of the complete state graph search is (\d+)", out)
            line = int(at[-1]) if at else None
        lines = open(trace).read().splitlines()
        if line is None or not 1 <= line <= len(lines) or len(beyond) >= 4:
            if beyond:
                return rejected + beyond, stats(out)
            raise CheckError("trace validation %s failed:\n%s" % (module, "\n".join(keep)[-6000:]))
        why = next((x.strip() for x in keep if x.startswith("Error:") and "nested" not in x), "no step")
        print("NOTE %s has no value for what was observed: %s" % (module, why[:300]))
        beyond.append({"rejected": line, "op": json.loads(lines[line - 1])["op"], "props": ["*"],
                       "text": "observation outside of the specification"})
        k = line - 1                 # the rest of this episode is passed over
        while k < len(lines) and (k == line - 1 or json.loads(lines[k])["op"] != "reset"):
            lines[k] = '{"op":"void"}'
            k += 1
        trace += ".rest"
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")


# --- episodes ------------------------------------------------------------------------------
def split_episodes(recs):
    eps = []
    for r in recs:
        if r["op"] == "reset":
            eps.append([])
        eps[-1].append(r)
    return eps


class Suite:
    """Episodes of one area with the trace specification that judges them."""

    def __init__(self, area, module, cfg, episodes, binary=None, env=None, tlc_env=None, shards=6, schedule=False, heap="3g"):
        self.area, self.module, self.cfg, self.env, self.tlc_env = area, module, cfg, env or {}, tlc_env or {}
        self.episodes, self.binary, self.shards, self.heap = episodes, binary, shards, heap
        self.schedule = schedule           # what is observed depends on the schedule as well


def run_suite(work, suite, tag=""):
    """Gives (rejections, stats): each rejection with the episode it belongs to."""
    eps = suite.episodes
    shards = max(1, min(suite.shards, len(eps)))
    weights = [sum(len(json.dumps(op)) + 200 for op in ep) for ep in eps]
    order = sorted(range(len(eps)), key=lambda i: -weights[i])
    load, bins = [0] * shards, [[] for _ in range(shards)]
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += weights[i]

    def one(k):
        name = "%s-%s%s-%d" % (suite.area, suite.module, tag, k)
        scen, trace = work.path(name + ".scen"), work.path(name + ".trace")
        recs, owner = [], []
        for i in bins[k]:
            for op in eps[i]:
                recs.append(op)
                owner.append(i)
        write_ndjson(scen, recs)
        t0 = time.time()
        notes = drive(suite.binary, suite.area, scen, trace, env=suite.env)
        t1 = time.time()
        rejected, st = validate(work, suite.module, suite.cfg, trace, env=suite.tlc_env, heap=suite.heap)
        t2 = time.time()
        obs = None
        res = []
        for r in rejected:
            i = owner[r["rejected"] - 1]
            if obs is None:
                obs = open(trace).read().splitlines()
            first = owner.index(i)
            res.append({"episode": i, "step": r["rejected"] - 1 - first, "op": r["op"], "props": r["props"],
                        "text": r["text"], "observed": obs[r["rejected"] - 1][:3000],
                        "recorded": [obs[k] for k in range(first, len(owner)) if owner[k] == i] if suite.schedule else None})
        return res, st, len(recs), notes, (t1 - t0, t2 - t1)

    with ThreadPoolExecutor(shards) as pool:
        parts = list(pool.map(one, range(shards)))
    rejections = [r for p in parts for r in p[0]]
    info = {"generated": sum(p[1][0] for p in parts), "distinct": sum(p[1][1] for p in parts),
            "lines": sum(p[2] for p in parts), "notes": "".join(p[3] for p in parts),
            "drive_s": round(max(p[4][0] for p in parts), 1), "tlc_s": round(max(p[4][1] for p in parts), 1)}
    return rejections, info


# --- known findings --------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == prop]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = Work(prop)
        self.models, self.suites, self.samples = [], [], []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.findings, self.said = known_findings(prop), set()
        self.gen_states = self.gen_trans = 0
        self.rnd = random.Random("%s-%d-%s" % (prop, SEED, TIER))
        self._jobs = []
        self._pool = ThreadPoolExecutor(8)

    # models run in the background while traces are recorded
    def model(self, module, cfg, **kw):
        self._jobs.append(self._pool.submit(model_check, self.work, module, cfg, **kw))

    def negative(self, module, cfg, what, **kw):
        self._jobs.append(self._pool.submit(model_must_fail, self.work, module, cfg, what, **kw))

    def gen(self, module, cfg, **kw):
        scripts, (gen, distinct) = generate(self.work, module, cfg, **kw)
        self.gen_states += distinct
        self.gen_trans += gen
        return scripts

    def suite(self, suite, confirm=3):
        t = time.time()
        rejections, info = run_suite(self.work, suite)
        mine, others = [], []
        for r in rejections:
            if "*" in r["props"]:
                r["props"] = [self.prop]
            if self.prop not in r["props"]:
                others.append(r)
            elif not self.known(r):
                mine.append(r)
        bad_eps = sorted({r["episode"] for r in mine})
        info.update(area=suite.area, spec=suite.module, episodes=len(suite.episodes),
                    accepted=len(suite.episodes) - len(bad_eps), wall_s=round(time.time() - t, 1),
                    rejected_for_other_properties=len({r["episode"] for r in others}))
        info.pop("notes", None)
        self.suites.append(info)
        if os.environ.get("VERIF_DEBUG"):
            for x in sorted({r["op"] + ": " + r["text"] for r in mine}):
                print("DEBUG", x, next(r["observed"][:300] for r in mine if r["text"] in x))
        for r in others[:3]:
            print("NOTE other property %s: %s (%s)" % (",".join(r["props"]), r["text"], r["op"]))
            if os.environ.get("VERIF_DEBUG"):
                for x in r["recorded"] or [json.dumps(y) for y in suite.episodes[r["episode"]][:r["step"]]] + [r["observed"]]:
                    print("   ", x[:400])
        if not self.samples and suite.episodes:
            ep = suite.episodes[len(suite.episodes) // 2]
            self.samples.append({"area": suite.area, "episode": json.loads(json.dumps(ep)[:2500]) if len(json.dumps(ep)) < 2500
                                 else json.dumps(ep)[:2500]})
        if not bad_eps:
            return
        # confirm in isolation, with a fresh driver, before anything is said
        for i in bad_eps[:5]:
            for attempt in range(confirm):
                single = Suite(suite.area, suite.module, suite.cfg, [suite.episodes[i]], suite.binary, suite.env, suite.tlc_env, heap=suite.heap)
                again, _ = run_suite(self.work, single, tag="-confirm%d-%d" % (i, attempt))
                hit = [r for r in again if (self.prop in r["props"] or "*" in r["props"]) and not self.known(r)]
                if hit:
                    self.report(suite, suite.episodes[i], hit)
                    return
        seen = [r for r in mine if r["recorded"] and '"res":"hang"' not in r["observed"]]
        if seen:    # another schedule this time; what was recorded was observed all the same
            i = seen[0]["episode"]
            self.report(suite, suite.episodes[i], [r for r in seen if r["episode"] == i], recorded=seen[0]["recorded"])
        elif self.violations:
            print("NOTE not reproduced in isolation: %s" % json.dumps(mine[:1])[:500])
        else:
            raise CheckError("rejection not reproduced in isolation: %s" % json.dumps(mine[:3])[:3000])

    def known(self, r):
        """A listed finding is said once, and is no violation. Anything else is."""
        for f in self.findings:
            if f.get("status") == "known" and re.search(f["match"], r["op"] + ": " + r["text"]):
                if f["what"] not in self.said:
                    self.said.add(f["what"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
                return True
        return False

    def report(self, suite, episode, hits, recorded=None):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (self.prop, suite.area, os.getpid(), len(self.suites)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "area": suite.area, "spec": suite.module, "cfg": suite.cfg,
                       "env": suite.env, "tlc_env": suite.tlc_env, "rejected": [{k: v for k, v in h.items() if k != "recorded"} for h in hits],
                       "episode": episode, "recorded": recorded}, f, indent=1)
        for h in hits[:3]:
            print("rejected: step %d %s: %s\n  observed %s" % (h["step"], h["op"], h["text"], h["observed"][:600]))
        self.violations.append(path)

    def finish(self):
        err = None
        for j in self._jobs:
            try:
                self.models.append(j.result())
            except CheckError as x:
                err = err or x
        if err and not self.violations:
            raise err
        states = sum(m.get("states", 0) for m in self.models) + self.gen_states + sum(s["distinct"] for s in self.suites)
        trans = sum(m.get("transitions", 0) for m in self.models) + self.gen_trans + sum(s["generated"] for s in self.suites)
        cov = {"states": states, "transitions": trans,
               "traces_validated_against_impl": sum(s["accepted"] for s in self.suites),
               "samples": self.samples or ["none"], "models": self.models, "suites": self.suites}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(self.violations)}, f, indent=1)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1 if self.violations else 0
