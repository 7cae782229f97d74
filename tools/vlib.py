"""Shared machinery of the checks: build the harness from /repo's working tree, run session
scripts on the real code, validate the recorded traces with TLC, write evidence, report."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(BUILD, "target")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself failed: neither held nor violated."""


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def pick(quick, thorough):
    return thorough if tier() == "thorough" else quick


def cargo_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


def repo_hash():
    """Hash of the names and contents of /repo's files."""
    import hashlib
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def fresh():
    """Make cargo rebuild /repo's crates when their content differs from what was last built, whatever the times of the files say."""
    mark, now = os.path.join(TARGET, "repo.hash"), repo_hash()
    if os.path.exists(mark) and open(mark).read() == now:
        return
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    for x in os.listdir(fp) if os.path.isdir(fp) else []:
        if x.startswith(("cubing", "vharness-", "vlits-", "vbundle-")):
            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    os.makedirs(TARGET, exist_ok=True)
    open(mark, "w").write(now)


def build(bins=("vdrive",), features=(), extra_env=None):
    """Build harness binaries against /repo's current working tree."""
    fresh()
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", TARGET]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", ",".join(features)]
    env = cargo_env()
    env.update(extra_env or {})
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    return {b: os.path.join(TARGET, "debug", b) for b in bins}


# ------------------------------------------------------------------ execution

def _crashed(session, what):
    s = dict(session)
    progs = s.pop("programs", None)
    if progs:
        first = (s["init"] or [{"op": "puzzle", "via": s["via"]}])[:1] if s["kind"] == "th" else progs[0][:1]
    else:
        first = s.get("ev") or [{"op": what, "cell": what, "obj": 0}]
    ev = [dict(e) for e in first]
    for e in ev:
        e["res"] = {"ok": False, "panic": True, "err": what, "disp": True, "chain": True, "msg": what}
        e["all"] = {"T": [], "P": [], "TB": [], "PB": []}
    if progs:
        s["threads"] = [ev]
    else:
        s["ev"] = ev
    s["crash"] = what
    return s


def run_script(name, sessions, exe, env=None, idle=30):
    """Run the sessions; returns the recorded sessions. A crash or hang of the code under test loses
    only its session, which is recorded as such."""
    d = os.path.join(BUILD, "run", name)
    os.makedirs(d, exist_ok=True)
    script, trace = os.path.join(d, "script.ndjson"), os.path.join(d, "raw.ndjson")
    with open(script, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    if os.path.exists(trace):
        os.remove(trace)
    out, bad = [], 0
    e = dict(os.environ)
    e.update(env or {})
    while len(out) < len(sessions):
        open(trace, "w").close()
        # the library reports parse errors on stderr: a file, because an undrained pipe would block it
        errfile = os.path.join(d, "stderr.txt")
        with open(errfile, "wb") as ef:
            p = subprocess.Popen([exe, script, trace, str(len(out))], env=e, stdout=subprocess.DEVNULL, stderr=ef)
        last, size, killed = time.time(), 0, False
        while True:
            try:
                p.wait(timeout=0.05)
                break
            except subprocess.TimeoutExpired:
                now = os.path.getsize(trace)
                if now != size:
                    size, last = now, time.time()
                elif time.time() - last > idle:
                    p.kill()
                    p.wait()
                    killed = True
                    break
        with open(errfile, "rb") as ef:
            ef.seek(max(0, os.path.getsize(errfile) - 4000))
            err = ef.read().decode("utf8", "replace")
        os.remove(errfile)
        with open(trace) as f:
            lines = f.read().split("\n")
        complete = lines[:-1]
        out += [json.loads(x) for x in complete]
        if p.returncode == 3:
            raise ToolError("harness rejected the script: " + err[-2000:])
        if len(out) < len(sessions):
            if p.returncode == 0 and not killed:
                raise ToolError("harness stopped early")
            out.append(_crashed(sessions[len(out)], "hang" if killed else "crash"))
            bad += 2 if killed else 1
            if bad >= 5:      # enough evidence; do not spend the time limit on more
                sessions = sessions[:len(out)]
                break
    return out


# ------------------------------------------------------------------------ TLC

class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=8, heap="6g", extra=(), timeout=3000, keep=False, cont=False):
    d = os.path.join(BUILD, "tlc", f"{os.path.splitext(os.path.basename(cfg or module))[0]}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(d, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-lncheck", "final",
           "-config", cfg or module + ".cfg"]
    if cont:
        cmd.append("-continue")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise ToolError(f"TLC timed out on {module}")
    res = TlcResult()
    res.text = r.stdout.decode("utf8", "replace")
    res.rc = r.returncode
    res.wall = time.time() - t0
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.text)
    res.generated, res.states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if "-simulate" in extra:
        res.ok = "Finished in" in res.text and "Error:" not in res.text
        m = re.search(r"The number of states generated: (\d+)", res.text)
        res.states = res.generated = int(m.group(1)) if m else 0
    else:
        res.ok = "Model checking completed. No error has been found." in res.text
    res.violated = re.findall(r"(?:Invariant|Action property|Temporal properties?) (\S+) (?:is|was) violated", res.text)
    res.printed = []
    for line in res.text.split("\n"):
        if line.startswith('"') and line.endswith('"'):
            try:
                res.printed.append(json.loads(line))
            except ValueError:
                res.printed.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    res.mismatches = [json.loads(p[9:]) for p in res.printed if p.startswith("MISMATCH ")]
    return res


def flatten(recorded):
    """Thread sessions become one sequential session per thread."""
    out = []
    for s in recorded:
        if s["kind"] not in ("th", "nth"):
            out.append(s)
            continue
        for n, ev in enumerate(s["threads"]):
            t = {k: v for k, v in s.items() if k not in ("threads", "ev", "programs", "shared", "init")}
            t["sid"] = s["sid"] * 1000 + n
            t["ev"] = ev
            out.append(t)
    return out


def run_many(name, scripts, exe, workers=8, env=None):
    """Each script in a process of its own; returns all recorded sessions."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers) as pool:
        parts = list(pool.map(lambda x: run_script(f"{name}-{x[0]}", x[1], exe, env=env), enumerate(scripts)))
    for i in range(len(scripts)):
        shutil.rmtree(os.path.join(BUILD, "run", f"{name}-{i}"), ignore_errors=True)
    return [s for p in parts for s in p]


MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"


def run_miri(name, scripts, bin_, workers=8, limit=240):
    """Each script in a process of its own, interpreted by Miri: every script under its own random schedule, and a data
    race, a use of memory that was not initialised, or an access outside an allocation ends it.
    Returns (recorded sessions, number of scripts Miri could not decide, messages)."""
    from concurrent.futures import ThreadPoolExecutor
    env = cargo_env()
    env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    tgt = os.path.join(BUILD, "miri")
    # the path-dependencies are found out of date by content, not by time
    mark, now = os.path.join(tgt, "repo.hash"), repo_hash()
    if not os.path.exists(mark) or open(mark).read() != now:
        for sub in ("miri/x86_64-unknown-linux-gnu/debug", "miri/debug", "debug"):
            fp = os.path.join(tgt, sub, ".fingerprint")
            for x in os.listdir(fp) if os.path.isdir(fp) else []:
                if x.startswith(("cubing", "vharness-")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        os.makedirs(tgt, exist_ok=True)
        open(mark, "w").write(now)
    cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--bin", bin_, "--target-dir", tgt, "--"]

    def one(x):
        i, sessions = x
        d = os.path.join(BUILD, "run", f"{name}-{i}")
        os.makedirs(d, exist_ok=True)
        script, trace = os.path.join(d, "script.ndjson"), os.path.join(d, "raw.ndjson")
        with open(script, "w") as f:
            for s in sessions:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        open(trace, "w").close()
        e = dict(env, MIRIFLAGS=f"{MIRI_FLAGS} -Zmiri-seed={seed() * 1000 + i} -Zmiri-preemption-rate={(0.02, 0.1, 0.3)[i % 3]}")
        try:
            r = subprocess.run(cmd + [script, trace, "0"], cwd=HARNESS, env=e, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            err, rc = r.stderr.decode("utf8", "replace"), r.returncode
        except subprocess.TimeoutExpired:
            err, rc = "time limit", None
        out = [json.loads(x) for x in open(trace).read().split("\n")[:-1]]
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0:
            return out, None
        if "Undefined Behavior" in err or "the evaluated program deadlocked" in err or rc == 134 or "memory error" in err or "abnormal termination" in err:
            at = err.find("error:")
            s = _crashed(sessions[min(len(out), len(sessions) - 1)], "undefined behaviour")
            s["miri"] = err[at:at + 1500]
            return out + [s], None
        return out, err[-600:]
    first = one((0, scripts[0]))      # also builds
    with ThreadPoolExecutor(workers) as pool:
        parts = [first] + list(pool.map(one, list(enumerate(scripts))[1:]))
    return [s for p in parts for s in p[0]], [p[1] for p in parts if p[1]]


def validate(name, module, recorded, heap="6g", workers=8, env=None, timeout=3000, cont=False):
    """TLC: is every recorded session a behaviour of the specification?"""
    d = os.path.join(BUILD, "run", name)
    os.makedirs(d, exist_ok=True)
    trace = os.path.join(d, "trace.ndjson")
    with open(trace, "w") as f:
        for s in recorded:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    e = {"TRACE": trace}
    e.update(env or {})
    res = tlc(module, env=e, heap=heap, workers=workers, timeout=timeout, cont=cont)
    want = sum(len(s["ev"]) + 1 for s in recorded)
    if not res.mismatches:
        if not res.ok:
            raise ToolError(f"TLC failed on {module}:\n" + res.text[-3000:])
        if res.states != want:
            raise ToolError(f"{module}: {res.states} states for {want} events and sessions; an event was not consumed")
    return res


# ---------------------------------------------------------------- evidence

class Check:
    """Accumulates what one check did, and ends it."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.violations = [], [], []
        self.assumptions = []
        self.extra = {}
        self.findings = known_findings(prop)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def model(self, what, res):
        """A design-level model-checking run of the specification alone."""
        if not res.ok:
            raise ToolError(f"specification check {what} failed:\n" + res.text[-3000:])
        self.states += res.states
        self.transitions += res.generated
        self.parts.append({"part": what, "kind": "specification model-checked", "states": res.states,
                           "transitions": res.generated, "wall_s": round(res.wall, 1)})

    def conform(self, what, res, recorded, scripts=None, sample=None):
        """Recorded sessions validated against the specification."""
        n_ev = sum(len(s["ev"]) for s in recorded)
        self.states += res.states
        self.transitions += res.generated
        self.traces += len(recorded)
        self.events += n_ev
        self.parts.append({"part": what, "kind": "traces of the implementation validated", "sessions": len(recorded),
                           "events": n_ev, "states": res.states, "wall_s": round(res.wall, 1)})
        if recorded:
            self.sample(what, sample if sample is not None else recorded[len(recorded) // 2])
        for m in res.mismatches:
            sess = next((s for s in (scripts or recorded) if s["sid"] in (m["sid"], m["sid"] // 1000)), None)
            self.violate(what, {"mismatch": m, "session": sess})

    def sample(self, what, s):
        text = json.dumps(s, separators=(",", ":"))
        self.samples.append({"part": what, "case": s if len(text) < 3000 else text[:3000] + " ..."})

    def violate(self, what, detail):
        self.violations.append((what, detail))

    def finish(self, level="model_checking"):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "parts": self.parts, "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in self.findings:
            print(line)
        if self.violations:
            d = os.path.join(BUILD, "violations")
            os.makedirs(d, exist_ok=True)
            for i, (what, detail) in enumerate(self.violations[:5]):
                path = os.path.join(d, f"{self.prop}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "part": what, "detail": detail}, f, indent=1)
                print(f"--- {what}: {json.dumps(detail)[:1500]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            return 1
        print(f"{self.prop}: held on {self.traces} sessions ({self.events} events) and {self.states} specification states"
              f" in {wall:.0f} s")
        return 0


FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    out = []
    for line in open(FINDINGS):
        if line.startswith(f"KNOWN-FINDING: property={prop} "):
            out.append(line.rstrip("\n"))
    return out
