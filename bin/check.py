#!/usr/bin/env python3
"""Driver of the checks: check.py <PROPERTY> [--replay FILE]

Rebuilds the harness against /repo's working tree, lets it drive the real code and record what
it did (or replays behaviours generated by TLC), has TLC check the records against the
specification in spec/, and writes evidence/<PROPERTY>.json.

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed (no answer)."""
import json, os, re, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, ".build")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if "--thorough" in sys.argv:
    TIER = "thorough"
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


def clean_env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS",):
            e.pop(k)
    e.update(extra or {})
    return e


def build(variant="h"):
    """variant h: with the compress feature (the default); n: without."""
    tgt = os.path.join(BUILD, variant)
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        # never trust time stamps of /repo's files
        for d in os.listdir(fp):
            if d.startswith("derivre"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ["cargo", "build", "-q", "--offline", "--target-dir", tgt]
    if variant == "n":
        cmd += ["--no-default-features"]
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=clean_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(tgt, "debug", "harness")
    raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def tlc(module, cfg, env, meta, workers=3, mem="4g", timeout=700, dump=None, extra=()):
    """Run TLC; returns (exit code, output)."""
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=3", "-Xss256m", "-Xmx" + mem, "-cp",
           f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-metadir", meta,
           "-config", cfg] + list(extra)
    if dump:
        cmd += ["-dumpTrace", "json", dump]
    cmd += [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=clean_env(env), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def write_cfg(path, invariants, properties=(), constants=None, spec="Spec", extra=""):
    with open(path, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        if constants:
            f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in constants.items()))
        if invariants:
            f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if properties:
            f.write("PROPERTIES " + " ".join(properties) + "\n")
        f.write(extra)


class Ctx:
    """State of one check run."""

    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(HERE, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.jobs = []
        self.samples = []
        self.built = {}
        self.t0 = time.time()

    def harness(self, variant="h"):
        with self.lock:
            if variant not in self.built:
                self.built[variant] = build(variant)
            return self.built[variant]

    # ------------------------------------------------------------------
    def model(self, module, invariants, env=None, constants=None, properties=(), workers=4,
              mem="6g", timeout=700, extra="", name=None):
        """Check a module that stands for the design, without the implementation."""
        name = name or module
        info = self.check(name, module, invariants, env or {}, None, None, workers, mem, timeout,
                          properties, constants, extra)
        info["design_model"] = True
        with self.lock:
            self.jobs.append(info)

    def gen(self, module, name, env):
        """Let TLC generate inputs for the harness; returns the path of the JSON file."""
        out = os.path.join(self.work, f"{name}.gen.json")
        cfg = os.path.join(self.work, f"{name}.gen.cfg")
        write_cfg(cfg, [])
        e = {k: str(v) for k, v in env.items()}
        e["OUT"] = out
        rc, txt = tlc(module, cfg, e, os.path.join(self.work, name + ".gm"), workers=1)
        if rc != 0 or not os.path.exists(out):
            raise ToolError(f"generator {module}:\n{txt[-3000:]}")
        return out

    def record(self, name, fam, args, variant="h", timeout=400):
        """Run the harness; a crash or a hang of the code under test is a violation."""
        exe = self.harness(variant)
        out = os.path.join(self.work, f"{name}.json")
        cmd = [exe, fam, "--out", out]
        for k, v in args.items():
            cmd += ["--" + k, str(v)]

        def limits():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        try:
            p = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, preexec_fn=limits,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, txt = "timeout", ""
        if rc != 0:
            try:
                cur = open(out + ".cur").read()
            except OSError:
                cur = ""
            if rc == "timeout" or (isinstance(rc, int) and rc < 0) or rc == 134:
                raise Violation(f"the code under test ended abnormally ({rc}) on case {cur[:600]}",
                                {"job": name, "harness": cmd, "exit": str(rc), "case": cur,
                                 "output": txt[-2000:]})
            raise ToolError(f"harness {fam} failed ({rc}) on {cur[:500]}:\n{txt[-2000:]}")
        return out, cmd

    def check(self, name, module, invariants, env, cmd=None, cases=None, workers=3, mem="4g",
              timeout=700, properties=(), constants=None, extra=""):
        cfg = os.path.join(self.work, f"{name}.cfg")
        dump = os.path.join(self.work, f"{name}.trace.json")
        write_cfg(cfg, invariants, properties, constants, extra=extra)
        t = time.time()
        rc, txt = tlc(module, cfg, {k: str(v) for k, v in env.items()},
                      os.path.join(self.work, name + ".m"), workers, mem, timeout, dump)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", txt)
        if rc == 0 and m:
            with self.lock:
                self.states += int(m.group(2))
                self.transitions += int(m.group(1))
            return {"job": name, "module": module, "states": int(m.group(2)),
                    "transitions": int(m.group(1)), "tlc_s": round(time.time() - t, 1)}
        v = re.search(r"Invariant (\w+) is violated|property (\w+)? ?(?:is|was|were) violated", txt)
        if rc in (12, 13) and v:
            inv = v.group(1) or v.group(2) or "property"
            trace = None
            try:
                trace = json.load(open(dump))
            except (OSError, ValueError):
                pass
            case = None
            mm = re.findall(r"/\\ k = (\d+)", txt)
            if mm and cases:
                case = json.load(open(cases))[int(mm[-1]) - 1]
            raise Violation(f"{inv} in {module} ({name}): " + str((case or {}).get("src", ""))[:400],
                            {"job": name, "invariant": inv, "module": module, "harness": cmd,
                             "case": case, "trace": trace, "tlc": txt[-6000:]})
        raise ToolError(f"TLC {module} ({name}) exit {rc}:\n{txt[-5000:]}")

    def conform(self, name, fam, args, module, invariants, variant="h", env=None, keep=False,
                timeout=700, workers=3, mem="4g", extra=""):
        """Record with the harness, then check with TLC."""
        out, cmd = self.record(name, fam, args, variant)
        with open(out) as f:
            txt = f.read()
        cases = json.loads(txt)
        n = len(cases)
        if n == 0:
            raise ToolError(f"{name}: no cases")
        e = {"CASES": out}
        e.update(env or {})
        info = self.check(name, module, invariants, e, cmd, out, workers, mem, timeout, extra=extra)
        info["cases"] = n
        info["family"] = fam
        with self.lock:
            self.traces += n
            self.jobs.append(info)
            for c in (cases[0], cases[n // 2]):
                self.samples.append({"job": name, "src": str(c.get("src", ""))[:300]})
        if not keep:
            os.remove(out)
        return cases if keep else None

    def run(self, thunks, par=3):
        """Run jobs in parallel; the first violation (or else tool error) wins."""
        errs = []
        with ThreadPoolExecutor(par) as ex:
            for f in [ex.submit(t) for t in thunks]:
                try:
                    f.result()
                except (Violation, ToolError) as e:
                    errs.append(e)
        for e in errs:
            if isinstance(e, Violation):
                raise e
        if errs:
            raise errs[0]


def write_evidence(ctx, level, violations, assumptions):
    ev = {"property": ctx.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
          "seed": SEED, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "samples": ctx.samples[:12], "jobs": ctx.jobs},
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    import plans
    prop = sys.argv[1]
    ctx = Ctx(prop)
    plan, assumptions = plans.PLANS[prop]
    code = 0
    try:
        plan(ctx)
    except Violation as v:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", f"{prop}-{os.getpid()}.json")
        data = dict(v.data, property=prop, what=v.what, seed=SEED, tier=TIER)
        with open(rp, "w") as f:
            json.dump(data, f, indent=1)
        print(v.what)
        print(f"VIOLATION property={prop} replay={rp}")
        code = 1
    except ToolError as e:
        print("CHECK ERROR:", e)
        code = 2
    if code != 2:
        write_evidence(ctx, "model_checking", code, assumptions)
        if code == 0:
            print(f"OK {prop}: {ctx.traces} cases from the code, {ctx.states} states, "
                  f"{ctx.transitions} transitions, {time.time() - ctx.t0:.1f} s")
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    sys.modules.setdefault("check", sys.modules["__main__"])
    main()
