"""Runs drivers of the real code and TLC, and turns their verdicts into check results."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def cargo_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True)
    if out.returncode == 0:
        for kv in out.stdout.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k.startswith(("CARGO", "RUST")) or k == "PATH":
                    env[k] = v
    env["CARGO_TARGET_DIR"] = TARGET
    return env


def build(axum=False):
    """Builds the harness (and the server) against the current tree of /repo."""
    env = cargo_env()
    cmds = [["cargo", "build", "--offline", "--quiet", "--manifest-path", VERIF + "/harness/Cargo.toml"]]
    if axum:
        cmds.append(["cargo", "build", "--offline", "--quiet", "--manifest-path", REPO + "/Cargo.toml",
                     "-p", "juno_axum"])
    for c in cmds:
        p = subprocess.run(c, env=env, capture_output=True, text=True, cwd=VERIF + "/harness")
        if p.returncode != 0:
            raise ToolError("build failed: %s\n%s" % (" ".join(c), p.stderr[-4000:]))


HARNESS = TARGET + "/debug/vharness"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.validated = 0
        self.samples, self.explored, self.actions = [], [], {}
        self.assumptions = []
        self.nfile = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, "%02d-%s" % (self.nfile, name))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def replay(self, data):
        d = os.path.join(VERIF, "work", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, int(time.time() * 1000)))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p

    # -- real code ---------------------------------------------------------
    def drive(self, driver, scen=None, timeout=None, **opts):
        """Runs a driver; its death or hanging is a behaviour of the code under test."""
        out = self.path(driver + ".ndjson")
        cmd = [HARNESS, driver, "--seed", str(self.seed), "--tier", self.tier, "--out", out]
        if scen:
            cmd += ["--scen", scen]
        for k, v in opts.items():
            cmd += ["--" + k.replace("_", "-"), str(v)]
        last = None
        for _ in range(2):
            try:
                p = subprocess.run(cmd, capture_output=True, text=True,
                                   timeout=timeout or self.n(150, 1500))
            except subprocess.TimeoutExpired:
                raise Violation("the real code does not finish", {"driver": cmd})
            if p.returncode == 0:
                return out
            last = p
        raise Violation("the real code brings the process down",
                        {"driver": cmd, "exit": last.returncode, "stderr": last.stderr[-3000:]})

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, extra=(), timeout=None, coverage=False, heap=None):
        cfgp = self.path(module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        meta = self.path("md")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % (heap or "12g"), "-Xss64m",
               "-Djava.io.tmpdir=" + self.work, "-cp", TLA, "tlc2.TLC",
               "-workers", "8", "-noGenerateSpecTE", "-metadir", meta, "-config", cfgp]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                               timeout=timeout or self.n(600, 7200))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def count(self, out):
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            return int(m.group(2))
        return 0

    def count_actions(self, out, what):
        # "<Name line 1, col 1 to line 2, col 2 of module M>: distinct:generated"
        blocks = {}
        for m in re.finditer(r"^<(\w+) line \d+.*? of module (\w+)>: (\d+):(\d+)", out, re.M):
            blocks[m.group(1)] = int(m.group(4))
        d = self.actions.setdefault(what, {})
        for k, v in blocks.items():
            d[k] = d.get(k, 0) + v

    def model(self, module, cfg, extra=(), timeout=None):
        """Design check: the specification itself has the property within the bounds."""
        rc, out = self.tlc(module, cfg, extra=extra, timeout=timeout, coverage=True)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("design model %s fails its own check\n%s" % (module, tail(out)))
        n = self.count(out)
        self.count_actions(out, module)
        self.explored.append({"model": module, "distinct_states": n,
                              "constants": re.findall(r"^\s+(\w+ = .*)$", cfg, re.M)})

    def refutes(self, module, cfg, inv, timeout=None):
        """Negative control: the broken variant of the design must lose the property."""
        rc, out = self.tlc(module, cfg, timeout=timeout)
        if "Invariant %s is violated" % inv not in out:
            raise ToolError("negative control of %s does not break %s\n%s" % (module, inv, tail(out)))
        self.explored.append({"negative_control": module, "loses": inv,
                              "constants": re.findall(r"^\s+(\w+ = .*)$", cfg, re.M)})

    def generate(self, module, cfg, extra=(), tag="SCN ", limit=None):
        """Scenarios (environment inputs) out of TLC."""
        rc, out = self.tlc(module, cfg, extra=extra)
        seen, lines = set(), []
        for m in re.finditer(r'^"?' + re.escape(tag) + r"(.*?)\"?$", out, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s not in seen:
                seen.add(s)
                lines.append(s)
        if not lines:
            raise ToolError("%s generated no scenarios\n%s" % (module, tail(out)))
        self.count(out)
        lines.sort()
        if limit and len(lines) > limit:
            step = len(lines) / limit
            lines = [lines[int(i * step)] for i in range(limit)]
        p = self.path(module + ".scn")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        self.explored.append({"generated_by": module, "scenarios": len(lines)})
        return p

    def validate(self, module, cfg, trace, name=None, known=()):
        """Every run of the trace must be a behaviour of the specification."""
        nruns = sum(1 for _ in open(trace))
        rc, out = self.tlc(module, cfg, env={"TRACE": trace}, coverage=True)
        if rc == 0 and "No error has been found" in out:
            n = self.count(out)
            self.count_actions(out, module)
            self.validated += nruns
            self.explored.append({"trace_spec": module, "runs": nruns, "distinct_states": n})
            if len(self.samples) < 4:
                with open(trace) as f:
                    self.samples.append(sample(json.loads(f.readline())))
            return
        rs = re.findall(r"^\s*(?:/\\ )?r = (\d+)$", out, re.M)
        ls = re.findall(r"^\s*(?:/\\ )?l = (\d+)$", out, re.M)
        if not rs or not ls:
            raise ToolError("TLC failed on %s\n%s" % (module, tail(out)))
        r, l = int(rs[-1]), int(ls[-1])
        with open(trace) as f:
            for i, line in enumerate(f, 1):
                if i == r:
                    run = json.loads(line)
                    break
        kind = "is not a behaviour of the specification"
        if "Invariant" in out and "is violated" in out:
            kind = "breaks invariant " + re.findall(r"Invariant (\w+) is violated", out)[-1]
        ev = run["ev"][l - 1] if 0 < l <= len(run["ev"]) else None
        states = out[out.rfind("\nState "):]
        raise Violation("run %d event %d %s (%s)" % (r, l, kind, module),
                        {"spec": module, "cfg": cfg, "run": run, "event_index": l, "event": ev,
                         "spec_state_before_event": states[:6000]})


def tail(s, n=3500):
    i = s.find("The coverage statistics at")
    j = s.find("End of statistics")
    if i >= 0:
        s = s[:i] + (s[j:] if j >= 0 else "")
    s = "\n".join(x for x in s.split("\n") if not re.match(r"(Parsing file|Semantic processing|Linting)", x))
    return s[-n:]


def sample(run):
    ev = run.get("ev", [])
    return {"id": run.get("id"), "kind": run.get("kind"), "cfg": run.get("cfg"),
            "events": len(ev), "first": ev[:2], "last": ev[-1:]}


def known_findings(prop):
    """Lines of known_findings.txt for this property that are open (not 'fixed:')."""
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^open: property=(\w+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res
