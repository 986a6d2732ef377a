"""Binding: corrupts recorded traces field by field and lists the fields whose corruption no property notices.

Usage: selftest.py [C01 ...]. Not a check: a test of the checks, to be read by people (DESIGN.md, Binding).
"""
import copy
import json
import os
import random
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import VERIF, run_tlc  # noqa: E402

PER_FIELD = 4


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path, x
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def spoiled(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1, 7])
    if isinstance(v, str):
        return v + "x" if v else "ValueError"
    if isinstance(v, list):
        return v[:-1] if v and r.random() < 0.5 else v + ([copy.deepcopy(v[-1])] if v else [1])
    return 1


def name(op, path):
    return op + ":" + ".".join("#" if isinstance(k, int) else k for k in path)


def main():
    props = sys.argv[1:] or [f"C{n:02}" for n in range(1, 25)]
    r = random.Random(1)
    with tempfile.TemporaryDirectory() as tmp:
        keep = os.path.join(tmp, "keep")
        os.mkdir(keep)
        for p in props:
            subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), p], env={**os.environ, "VERIF_KEEP": keep}, check=True)
        jobs = []
        for f in sorted(os.listdir(keep)):
            d = json.load(open(os.path.join(keep, f)))
            places = {}
            for t, trace in enumerate(d["traces"]):
                for l, ev in enumerate(trace):
                    for path, v in leaves(ev):
                        if path:
                            places.setdefault(name(ev.get("op", ev.get("kind", "start")) if l else "start", path), []).append((t, l, path, v))
            for field, where in places.items():
                for t, l, path, v in r.sample(where, min(PER_FIELD, len(where))):
                    trace = copy.deepcopy(d["traces"][t])
                    at = trace[l]
                    for k in path[:-1]:
                        at = at[k]
                    at[path[-1]] = spoiled(v, r)
                    jobs.append((d, field, trace))

        def noticed(batch):
            """Which of some corrupted traces of one recording are rejected."""
            d = batch[0][0]
            path = tempfile.mktemp(dir=tmp)
            json.dump([trace for _, _, trace in batch], open(path, "w"))
            res = run_tlc(tmp, d["module"], d["cfg"], env={"TRACES": path, "PROP": d["prop"], **d["env"]}, extra=["-continue"])
            os.unlink(path)
            ended_early = "Model checking completed" not in res.out     # it cannot even be evaluated
            if ended_early and len(batch) > 1:
                half = len(batch) // 2
                return noticed(batch[:half]) + noticed(batch[half:])
            if ended_early:
                return [True]
            rejected = set()
            for behaviour in res.out.split("The behavior up to this point is:")[1:]:
                rejected.add(int(re.search(r"tid = (\d+)", behaviour)[1]))
            return [k + 1 in rejected for k in range(len(batch))]

        def one(batch):
            return [(d["module"], field, d["prop"], caught) for (d, field, _), caught in zip(batch, noticed(batch))]

        recordings = {}
        for job in jobs:
            recordings.setdefault(id(job[0]), []).append(job)
        batches = [js[i:i + 40] for js in recordings.values() for i in range(0, len(js), 40)]
        seen, total = {}, {}
        with ThreadPoolExecutor(8) as pool:
            for module, field, prop, caught in (x for xs in pool.map(one, batches) for x in xs):
                total[module, field] = total.get((module, field), 0) + 1
                if caught:
                    seen.setdefault((module, field), set()).add(prop)
        for key in sorted(total):
            print(*key, total[key], " ".join(sorted(seen.get(key, ()))) or "UNNOTICED")
        print(f"{len(jobs)} corruptions of {len(total)} fields; unnoticed: {sum(1 for k in total if k not in seen)}")


main()
