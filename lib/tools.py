"""Running TLC, building and running the drivers, reporting."""

import json
import os
import re
import resource
import subprocess
import sys
import tempfile
import time

from . import ws

VERIF = ws.VERIF
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class ToolError(Exception):
    """Something other than the code under test went wrong: no verdict."""


# --------------------------------------------------------------------------- TLC
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return str(v)


class Result:
    def __init__(self):
        self.records = []
        self.states = self.transitions = 0
        self.modules = []
        self.wall = 0.0

    def add(self, other):
        self.records += other.records
        self.states += other.states
        self.transitions += other.transitions
        self.modules += other.modules
        self.wall += other.wall
        return self


def tlc(module, constants=None, invariants=(), properties=(), constraint=None, action_constraint=None, view=None,
        workers=8, simulate=None, depth=None, seed=None, timeout=800, spec="Spec", heap="6g", post=None, env=None):
    """Runs TLC on spec/<module>.tla.  Every line the specification prints with PrintT(ToJson(..)) is a record."""
    t0 = time.time()
    os.makedirs(ws.WORK, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=ws.WORK, prefix="tlc-") as tmp:
        cfg = os.path.join(tmp, f"{module}.cfg")
        with open(cfg, "w", encoding="utf-8") as f:
            f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
            for k, v in (constants or {}).items():
                f.write(f"CONSTANT {k} = {tla(v)}\n")
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for p in properties:
                f.write(f"PROPERTY {p}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if action_constraint:
                f.write(f"ACTION_CONSTRAINT {action_constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if post:
                f.write(f"POSTCONDITION {post}\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:" + classpath(), f"-DTLA-Library={SPEC}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "md"), "-config", cfg,
               "-noGenerateSpecTE", "-fp", "7"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(seed if seed is not None else SEED)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        out_path = os.path.join(tmp, "out")
        with open(out_path, "w", encoding="utf-8") as out:
            try:
                rc = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, timeout=timeout, cwd=tmp,
                                    env=dict(os.environ, **(env or {}))).returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC on {module} exceeded {timeout}s") from None
        r = Result()
        text = []
        with open(out_path, encoding="utf-8") as f:
            for line in f:
                if line.startswith('"'):
                    try:
                        r.records.append(json.loads(json.loads(line)))
                    except ValueError:
                        text.append(line)
                else:
                    text.append(line)
        text = "".join(text)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", text)
        if m:
            r.transitions = r.states = int(m[-1])
        r.modules = [module]
        r.wall = time.time() - t0
        if rc != 0 and not (simulate and rc == 0):
            raise ToolError(f"TLC on {module} failed (exit {rc}):\n{text[-4000:]}")
        return r


def classpath():
    wrapper = subprocess.run(["bash", "-c", "cat $(command -v tlc)"], capture_output=True, text=True).stdout
    return ":".join(re.findall(r"/[\w./-]+\.jar", wrapper))


# --------------------------------------------------------------------------- drivers
def build(driver, timeout=840):
    w = ws.layout([driver])
    try:
        p = subprocess.run(["cargo", "build", "--quiet", "-p", f"drv-{driver}"], cwd=w, env=ws.env(),
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("building the driver timed out") from None
    if p.returncode != 0:
        raise ToolError("building the driver failed:\n" + p.stderr[-6000:])
    return os.path.join(ws.WORK, "target", "debug", f"drv-{driver}")


LONGEST = 20_000_000


def bounded():
    """The code under test may use so much memory and print so much."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def replay(binary, cases, timeout=700, env=None):
    """Feeds cases (one JSON line each) to a driver, returns the list of answers.  An answer is missing (None) where
    the code under test ended or hung the process: the driver is restarted after the offending case."""
    answers = [None] * len(cases)
    start = 0
    deadline = time.time() + timeout
    deaths = 0
    e = dict(os.environ, **(env or {}), RUST_BACKTRACE="0")
    while start < len(cases):
        with tempfile.TemporaryFile("w+", dir=ws.WORK) as inp, tempfile.TemporaryFile("w+", dir=ws.WORK) as out:
            for c in cases[start:]:
                inp.write(json.dumps(c, ensure_ascii=False) + "\n")
            inp.seek(0)
            left = max(5, deadline - time.time())
            hung = False
            proc = subprocess.Popen([binary], stdin=inp, stdout=out, stderr=subprocess.DEVNULL, env=e, preexec_fn=bounded)
            size, idle = 0, time.time()
            while proc.poll() is None:
                time.sleep(0.05)
                now = os.fstat(out.fileno()).st_size
                if now != size:
                    size, idle = now, time.time()
                if time.time() - idle > 30 or time.time() > deadline:
                    hung = True
                    proc.kill()
                    proc.wait()
            del left
            out.seek(0)
            got = []
            for line in out:
                if not line.endswith("\n"):
                    break
                if "\x1e" in line:
                    line = line[line.index("\x1e") + 1:]
                    got.append(json.loads(line) if len(line) < LONGEST else {"died": "an answer without end"})
        for i, a in enumerate(got):
            answers[start + i] = a
        done = start + len(got)
        if done >= len(cases):
            break
        if time.time() > deadline:
            raise ToolError("replay exceeded its time limit")
        answers[done] = {"died": "hung" if hung else f"exit {proc.returncode}"}
        deaths += 1
        if deaths > 3:
            return answers[: done + 1]
        start = done + 1
    return answers


def replay_parallel(binary, cases, jobs=6, **kw):
    """As replay, over several processes; answers that were never reached are None."""
    from concurrent.futures import ThreadPoolExecutor

    jobs = max(1, min(jobs, len(cases) // 50 + 1))
    parts = [cases[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as pool:
        got = list(pool.map(lambda p: replay(binary, p, **kw), parts))
    out = [None] * len(cases)
    for i, g in enumerate(got):
        for j, a in enumerate(g):
            out[i + j * jobs] = a
    return out


# --------------------------------------------------------------------------- reporting
def known_findings():
    """known-findings.txt: "known: property=<id> match=<regex> what=<text>" suppresses (and announces) the violations the
    regex finds; "fixed: property=<id> <commit> <text>" suppresses nothing."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(.*?) what=(.*)", line)
                if m:
                    out.append({"property": m[1], "status": "known", "match": m[2], "what": m[3]})
    return out


class Report:
    """Collects divergences for one property and writes its evidence."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.res = Result()
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = [k for k in known_findings() if k.get("property") == prop]
        self.count = 0
        self.notes = {}
        self.assumptions = []

    def model(self, res):
        self.res.states += res.states
        self.res.transitions += res.transitions
        self.res.modules += res.modules

    def diverge(self, what, detail, key=None):
        """Something the code does that the specification does not allow; known findings are left out, and of many the first are kept."""
        v = {"what": what, "key": key or what, "detail": detail}
        if self.known:
            text = json.dumps(v, ensure_ascii=False)
            if any(re.search(k["match"], text) for k in self.known):
                return
        self.count += 1
        if len(self.violations) < 300:
            self.violations.append(v)

    def finish(self):
        new = self.violations
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        replay_path = os.path.join(evdir, f"{self.prop}.violation.json")
        if os.path.exists(replay_path):
            os.remove(replay_path)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": self.level,
            "coverage": {
                "states": self.res.states,
                "transitions": self.res.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:3],
                "modules": sorted(set(self.res.modules)),
                **self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": self.count,
        }
        with open(os.path.join(evdir, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if new:
            with open(replay_path, "w", encoding="utf-8") as f:
                json.dump(new[:50], f, indent=1, ensure_ascii=False)
            for v in new[:5]:
                print("  diverges:", v["what"], json.dumps(v["detail"], ensure_ascii=False)[:600])
            print(f"VIOLATION property={self.prop} replay={replay_path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.res.states} replayed={self.traces} "
              f"wall={time.time() - self.t0:.1f}s")
        return 0


def sym(s):
    """One symbol of the specifications' text alphabet."""
    return chr(int(s[2:], 16)) if s.startswith("U+") and len(s) > 2 else s


def text(seq):
    return "".join(sym(s) for s in seq)


def log(*a):
    print(*a, file=sys.stderr, flush=True)
