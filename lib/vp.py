"""Shared driver code: building harnesses, running TLC, evidence, violations."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2026-03-10", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.deep = tier == "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.extra, self.assumptions, self.violations, self.known = [], {}, [], [], []
        self.work = os.path.join(WORK, prop + "-" + tier)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.findings = load_findings(prop)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- building -------------------------------------------------------------------------------
    def build(self, crate):
        d = os.path.join(VERIF, "harness", crate)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("building %s failed:\n%s" % (crate, r.stdout[-4000:]))
        return os.path.join(BUILD, "target", "debug", crate)

    # ---- the code under test --------------------------------------------------------------------
    def harness(self, args, timeout=None, what="the harness", mem_gb=20):
        """Runs a harness.  A crash or a hang of the code under test is a violation, not an error."""
        timeout = timeout or (3000 if self.deep else 450)
        cmd = "ulimit -v %d; exec \"$@\"" % (mem_gb << 20)
        try:
            r = subprocess.run(["bash", "-c", cmd, "x"] + [str(a) for a in args], env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.violate({"why": "%s did not finish within %d s (the code under test hangs)" % (what, timeout), "command": args})
            return False
        if r.returncode < 0 or r.returncode in (132, 133, 134, 135, 136, 137, 138, 139):
            self.violate({"why": "the code under test crashed the harness process (status %d)" % r.returncode,
                          "command": args, "stderr": r.stderr[-1500:]})
            return False
        if r.returncode != 0:
            raise ToolError("%s: exit %d\n%s" % (what, r.returncode, (r.stdout + r.stderr)[-3000:]))
        return True

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, name, timeout=None, props=None, heap=None, workers="8"):
        """Model checks spec/<module>.tla under the given configuration text; returns the output file."""
        timeout = timeout or (6000 if self.deep else 500)
        cfgf = self.path(name + ".cfg")
        open(cfgf, "w").write(cfg)
        out = self.path(name + ".out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx%s" % (heap or ("16g" if self.deep else "8g"))] + (props or []) + \
              ["-cp", TLA, "tlc2.TLC", "-workers", workers, "-metadir", self.path(name + ".states"), "-noGenerateSpecTE",
               "-config", cfgf, os.path.join(SPEC, module + ".tla")]
        with open(out, "w") as f:
            try:
                subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s did not finish within %d s" % (module, timeout))
        shutil.rmtree(self.path(name + ".states"), ignore_errors=True)
        ok, states, distinct, tail = False, 0, 0, []
        for line in open(out, errors="replace"):
            if line.startswith('"'):
                continue
            tail = (tail + [line])[-60:]
            if "Model checking completed. No error has been found" in line:
                ok = True
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
            if m:
                states, distinct = int(m.group(1)), int(m.group(2))
        if not ok:
            raise ToolError("TLC on %s:\n%s" % (module, "".join(tail)))
        self.states += distinct
        self.transitions += states
        return out

    def tlc_json(self, out):
        for line in open(out, errors="replace"):
            if line.startswith('"{'):
                yield json.loads(json.loads(line))

    # ---- verdict --------------------------------------------------------------------------------
    def violate(self, what):
        self.violations.append(what)

    def known_finding(self, text):
        if text not in self.known:
            self.known.append(text)

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.json" % self.prop)
            with open(p, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": self.violations[:50]}, f, indent=1)
            for v in self.violations[:3]:
                print("  " + json.dumps(v)[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("ok property=%s tier=%s states=%d validated=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.validated, wall))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def tla(b):
    return "TRUE" if b else "FALSE"


def replay(ctx, h, command, tlc_out, key, *more):
    """Replays the behaviours TLC printed on the real code; every mismatch is a violation (unless a listed finding)."""
    res = ctx.path(key + ".res")
    if not ctx.harness([h, command, tlc_out, res] + list(more), what="replaying the specification's behaviours"):
        return
    r = read_json(res)
    ctx.extra[key] = {"cases": r["cases"], "runs_of_real_code": r["runs"], "mismatches": r["mismatches"]}
    if r["cases"] == 0 or r["runs"] == 0:
        raise ToolError("nothing was replayed")
    ctx.validated += r["cases"]
    for b in r["bad"]:
        ctx.violate(b)
    with open(tlc_out, errors="replace") as f:
        for k, line in enumerate(f):
            if line.startswith('"{') and k % 997 == 13:
                ctx.sample({key: json.loads(json.loads(line))}, limit=len(ctx.samples) + 1 if len(ctx.samples) < 4 else 0)
                if len(ctx.samples) >= 4:
                    break


def validate(ctx, h, module, args, key):
    """Records runs of the real code and has TLC check them against the trace specification."""
    f, s = ctx.path(key + ".ndjson"), ctx.path(key + ".sum")
    if not ctx.harness([h, "trace"] + list(args) + [f, s], what="recording runs"):
        return
    r = read_json(s)
    for b in r["bad"][:10]:
        ctx.violate(b)
    if r["traces"] == 0:
        if not r["bad"]:
            raise ToolError("no run was recorded")
        return
    out = ctx.tlc(module, 'CONSTANT TraceFile = "%s"\nSPECIFICATION Spec\nINVARIANTS Report Accepted\nCHECK_DEADLOCK FALSE\n' % f, key + "-validate")
    accepted, rejected = set(), []
    for j in ctx.tlc_json(out):
        if "accepted" in j:
            accepted.add(j["accepted"])
        else:
            rejected.append(j)
    lines = open(f).read().splitlines()
    for j in sorted(rejected, key=lambda j: j["line"])[:10]:
        ctx.violate({"why": "a recorded run is not a behaviour of the specification", "specified": j["want"], "run": json.loads(lines[j["line"]])})
    if not rejected and len(accepted) != r["traces"]:
        raise ToolError("%d runs recorded, %d accepted, none rejected" % (r["traces"], len(accepted)))
    ctx.validated += len(accepted)
    t = ctx.extra.setdefault("recorded " + key, {"runs": 0, "events": 0})
    t["runs"] += r["traces"]
    t["events"] += r["events"]
    if lines:
        ctx.sample({"recorded": json.loads(lines[len(lines) // 2])}, limit=6)


def load_findings(prop):
    """KNOWN-FINDING lines of known_findings.txt for this property: {key: text}."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def read_json(p):
    return json.load(open(p))
