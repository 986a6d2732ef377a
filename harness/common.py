"""Running TLC and the drivers, and reporting, for all checks."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
REPO = os.environ.get("SLATE_REPO", "/repo")
PY = os.environ.get("SLATE_PYTHON", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


STALL = 60       # seconds without a finished program after which one hangs
# Seconds after which the rest of the programs is left out; many times of what they need, unless the code is slow or failing
BUDGET = 150 if os.environ.get("VERIF_TIER") != "thorough" else 6 * 3600
START = time.monotonic()


class MachineryError(Exception):
    """The check itself could not do its work."""


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


class Scratch:
    """A scratch directory that is removed at the end."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="slate-verif-")
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = None
        v = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) (?:is|was) violated", out)
        if v:
            self.violated = next(g for g in v.groups() if g)
        self.ok = "Model checking completed. No error has been found." in out
        self.last_state = ""
        # an expression that has no value, as opposed to TLC itself failing
        odd = re.search(r"(Attempted to|The first argument of|Evaluating .* failed|.* is not in the domain|.*out of bounds|CASE with no|.* overflow).*", out)
        self.odd = odd[0][:300] if odd and not self.ok and not self.violated and "StackOverflow" not in out else ""
        if self.violated:
            states = re.split(r"^State \d+:.*$", out, flags=re.M)
            self.last_state = states[-1]


def run_tlc(workdir, module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=()):
    """Runs TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
        "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra,
        "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla"),
    ]
    full = {**os.environ, **(env or {})}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=full, cwd=workdir, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out on {module}/{cfg}") from e
    res = TlcResult(p.stdout + p.stderr, p.returncode)
    shutil.rmtree(meta, ignore_errors=True)
    return res


def driver_env(extra=None):
    env = {
        k: v for k, v in os.environ.items()
        if k not in ("COLUMNS", "LINES", "NO_COLOR", "SLATE_COLORSYS", "COLORTERM", "TERM")
    }
    env.update({
        "PYTHONPATH": REPO + os.pathsep + HERE, "PYTHONDONTWRITEBYTECODE": "1",
        "SLATE_REPO": REPO, "TERM": "xterm", "PYTHONHASHSEED": "0",
    })
    env.update(extra or {})
    return env


def run_driver(workdir, script, programs, env=None, timeout=300):
    """Executes programs on the real code; gives the recorded traces.

    The driver writes one JSON line per finished program, so that what a hanging or dying
    process did is still known. A program that hangs or kills its process is recorded as
    such: [config, {"op": "lost"}].
    """
    todo = list(programs)
    traces = []
    limit = time.monotonic() + BUDGET
    while todo and time.monotonic() < limit:
        pin = tempfile.mktemp(prefix="prog-", suffix=".json", dir=workdir)
        pout = tempfile.mktemp(prefix="trace-", suffix=".jsonl", dir=workdir)
        with open(pin, "w") as f:
            json.dump(todo, f)
        cwd = tempfile.mkdtemp(prefix="cwd-", dir=workdir)
        lost = late = False
        err = ""
        with tempfile.TemporaryFile("w+", dir=workdir) as errors:
            p = subprocess.Popen(
                [PY, os.path.join(HERE, script), pin, pout], stdout=subprocess.DEVNULL, stderr=errors,
                stdin=subprocess.DEVNULL, env=driver_env(env), cwd=cwd, start_new_session=True)
            size, seen, end = -1, time.monotonic(), time.monotonic() + timeout
            pause = 0.01
            while p.poll() is None:
                time.sleep(pause)
                pause = min(0.2, pause * 1.5)
                now = time.monotonic()
                n = os.path.getsize(pout) if os.path.exists(pout) else -1
                if n != size:
                    size, seen = n, now
                if now > limit and size > 0 and now < seen + 5:
                    os.killpg(p.pid, signal.SIGKILL)
                    late = True
                    break
                if now > end or now > seen + STALL:
                    os.killpg(p.pid, signal.SIGKILL)
                    err = "no progress"
                    break
            lost = p.wait() != 0 and not late
            errors.seek(0)
            err = err or errors.read()[-2000:]
        got = []
        if os.path.exists(pout):
            for line in open(pout):
                if line.endswith("\n"):
                    got.append(json.loads(line))
        traces.extend(got)
        todo = todo[len(got):]
        if late:
            break
        if not lost and todo:
            raise MachineryError(f"{script} stopped early: {err}")
        if lost:
            if not todo:
                break
            traces.append({"program": todo[0], "trace": None, "lost": err})
            todo = todo[1:]
            if sum(1 for t in traces if t["trace"] is None) >= 3:
                break
    return traces


def parse_failure(res):
    """(tid, l, clauses) of a rejected trace."""
    tid = re.search(r"tid = (\d+)", res.last_state)
    l = re.search(r"\bl = (\d+)", res.last_state)
    bad = re.search(r"bad = (\{[^}]*\})", res.last_state)
    if not (tid and l and bad):
        raise MachineryError("cannot read TLC's error state:\n" + res.last_state[-2000:])
    return int(tid[1]), int(l[1]), re.findall(r'"([^"]+)"', bad[1])


class Report:
    """Collects what a check did and ends it."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known = []

    def violation(self, what, payload):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **payload}, f, indent=1)
        self.violations.append((what, path))

    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "events_validated": self.events, "samples": self.samples[:3], **self.extra,
        }
        ev = {
            "property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: " + k)
        for what, path in self.violations:
            print(f"# {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        print(f"{self.prop}: {'VIOLATED' if self.violations else 'held'}; model states {self.states}, "
              f"transitions {self.transitions}, traces {self.validated}, events {self.events}, "
              f"{ev['wall_s']} s")
        sys.stdout.flush()
        return 1 if self.violations else 0


def model_check(rep, workdir, module, cfg, env=None, workers=4, timeout=800, heap="6g"):
    """Exhaustive TLC run of the design; it must succeed, whatever the code does."""
    res = run_tlc(workdir, module, cfg, env=env, workers=workers, timeout=timeout, heap=heap)
    if not res.ok:
        raise MachineryError(f"model {module}/{cfg} does not check:\n" + res.out[-4000:])
    rep.states += res.distinct
    rep.transitions += res.generated
    return res


def validate(rep, workdir, module, programs, script, env=None, prop=None, shards=7, timeout=300,
             tlc_timeout=800, cfg="Trace.cfg", tlc_env=None, confirm=0):
    """Executes programs on the real code and lets TLC judge the recorded traces.

    With `confirm`, a failing program counts only if it fails again in one of that many
    repetitions (for programs that depend on timing).
    """
    prop = prop or rep.prop
    shards = max(1, min(shards, (len(programs) + 19) // 20))
    parts = [programs[i::shards] for i in range(shards)]

    def judge(traces):
        """TLC's verdict on recorded traces."""
        path = tempfile.mktemp(prefix="traces-", suffix=".json", dir=workdir)
        with open(path, "w") as f:
            json.dump(traces, f)
        res = run_tlc(workdir, module, cfg, env={"TRACES": path, "PROP": prop, **(tlc_env or {})},
                      timeout=tlc_timeout)
        os.unlink(path)
        return res

    def odd(traces):
        """The first trace TLC cannot evaluate: the code did something for which the specification has no words."""
        while len(traces) > 1:
            half = traces[:len(traces) // 2]
            traces = half if judge([t["trace"] for t in half]).odd else traces[len(traces) // 2:]
        res = judge([traces[0]["trace"]])
        return (traces[0], res) if res.odd else (None, res)

    def execute(part):
        traces = run_driver(workdir, script, part, env=env, timeout=timeout)
        lost = [t for t in traces if t["trace"] is None]
        good = [t for t in traces if t["trace"] is not None]
        return good, lost, judge([t["trace"] for t in good]) if good else None

    def again(program):
        """Whether a program that failed does so again."""
        good, lost, res = execute([program] * confirm)
        return bool(lost) or (res is not None and (res.violated == "Conforms" or bool(res.odd)))

    def one(part):
        good, lost, res = execute(part)
        for _ in range(6 if confirm else 0):
            if time.monotonic() > START + 4 * BUDGET:
                rep.extra["unsettled"] = True
                return [], [], None
            suspects = [t["program"] for t in lost]
            if res is not None and res.violated == "Conforms":
                suspects.append(good[parse_failure(res)[0] - 1]["program"])
            if res is not None and res.odd and (t := odd(good)[0]):
                suspects.append(t["program"])
            if not suspects or any(again(p) for p in suspects):
                break
            rep.extra["unconfirmed"] = rep.extra.get("unconfirmed", 0) + len(suspects)
            part = [p for p in part if p not in suspects]
            good, lost, res = execute(part)
        else:
            if confirm:     # several programs failed, each of them just once
                rep.extra["unsettled"] = True
                return [], [], None
        return good, lost, res

    with ThreadPoolExecutor(shards) as pool:
        results = list(pool.map(one, parts))

    if os.environ.get("VERIF_KEEP"):        # for harness/selftest.py
        some = [t["trace"] for good, _, _ in results for t in good[:8]]
        path = tempfile.mktemp(prefix=f"{prop}-", suffix=".json", dir=os.environ["VERIF_KEEP"])
        json.dump({"prop": prop, "module": module, "cfg": cfg, "env": tlc_env or {}, "traces": some}, open(path, "w"))

    left = len(programs) - sum(len(good) + len(lost) for good, lost, _ in results)
    if left:
        rep.extra["left_out"] = rep.extra.get("left_out", 0) + left
    for good, lost, res in results:
        for t in lost:
            rep.violation("the program hung or died: " + t["lost"][-300:], {"program": t["program"], "driver": script})
        if res is None:
            continue
        n = sum(len(t["trace"]) for t in good)
        if res.odd:
            t, res = odd(good)
            if t is None:
                raise MachineryError(f"TLC failed on {module}:\n" + res.out[-4000:])
            rep.violation("a recorded execution is not one of the kind the specification describes",
                          {"program": t["program"], "trace": t["trace"], "driver": script, "spec": module, "tlc": res.odd})
        elif res.violated == "Conforms":
            tid, l, bad = parse_failure(res)
            t = good[tid - 1]
            rep.violation(
                f"clauses {bad} fail at step {l - 1} of a recorded execution",
                {"program": t["program"], "trace": t["trace"][:l], "failing_step": l - 1, "clauses": bad,
                 "driver": script, "spec": module},
            )
        elif not res.ok:
            raise MachineryError(f"TLC failed on {module}:\n" + res.out[-4000:])
        elif res.distinct != n:
            raise MachineryError(f"{module}: {res.distinct} states for {n} trace lines")
        rep.states += res.distinct
        rep.transitions += res.generated
        rep.validated += len(good)
        rep.events += n - len(good)
        rep.extra["void_traces"] = rep.extra.get("void_traces", 0) + res.out.count('"VOID"')
        if len(rep.samples) < 2 and good:
            rep.samples.append(json.dumps(good[len(good) // 2]["trace"])[:1500])
    return results


def known(rep, workdir, module, script, env=None, prop=None):
    """Runs the recorded inputs of open findings; each that still fails is announced, not counted."""
    for line in open(os.path.join(VERIF, "known_findings.jsonl")):
        f = json.loads(line)
        if f.get("status") != "open" or f["property"] != rep.prop:
            continue
        t = run_driver(workdir, script, [f["program"]], env=env)[0]
        path = os.path.join(workdir, "known.json")
        json.dump([t["trace"]] if t["trace"] else [], open(path, "w"))
        res = run_tlc(workdir, module, "Trace.cfg", env={"TRACES": path, "PROP": prop or rep.prop})
        if t["trace"] and res.violated == "Conforms":
            rep.known.append(f"property={rep.prop} {f['id']}: {f['what']}")
