"""A verification task: one harness, explored over all its paths."""

import time
import traceback

from . import core
from .interp import NeedsValue, ProgExc


class Task:
    """name; fn(c) is the harness (assume preconditions, run the real code, oblige postconditions).

    covers: names which at least one path must reach (a harness that reaches none of its obligations proves nothing).
    replay: inputs -> concrete case of the bounded checker, or None.
    contracts: {function object: specification} used at call sites instead of the body.
    """

    def __init__(self, name, fn, seconds=150, covers=(), replay=None, contracts=None, query_ms=8000, max_paths=4000, loops=(), merge=False):
        self.name, self.fn, self.seconds, self.covers, self.replay = name, fn, seconds, covers, replay
        self.contracts = contracts or {}
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.loops = list(loops)
        self.merge = merge


def run(task, thorough=False):
    t0 = time.time()
    secs = task.seconds * (3 if thorough else 1)
    r = core.Run(task.name, seconds=secs, query_ms=task.query_ms * (4 if thorough else 1), max_paths=task.max_paths, max_steps=4000000)
    r.contracts = dict(task.contracts)
    r.loop_hooks = task.loops
    r.merge = task.merge

    def harness(c):
        try:
            task.fn(c)
        except ProgExc as p:
            c.oblige("no unexpected exception", False, f"{type(p.exc).__name__}: {p.exc}")
        except NeedsValue as e:
            raise core.Unsupported(f"loop-carried variable {e.what}") from None
        r.cover("path")

    r.explore(harness)
    cands = []
    obs = []
    for o in r.obligations:
        d = {"name": o.name, "status": o.status, "backend": o.backend, "detail": o.detail, "seconds": round(o.seconds, 3)}
        if o.inputs is not None or o.status == "refuted":
            d["inputs"] = o.inputs
            d["smt"] = o.smt
            if o.inputs is not None and task.replay is not None:
                try:
                    c = task.replay(o.inputs)
                    if c is not None:
                        cands.extend(c if isinstance(c, list) else [c])
                except Exception:  # noqa: BLE001
                    d["replay_error"] = traceback.format_exc()[-400:]
        obs.append(d)
    missing = [c for c in task.covers if not r.covers.get(c)]
    return {
        "obligations": obs,
        "unsupported": sorted(set(r.unsupported)),
        "missing": missing,
        "functions": sorted(r.functions),
        "trusted": sorted(r.trusted),
        "stats": r.stats,
        "covers": dict(r.covers),
        "candidates": cands,
        "wall": round(time.time() - t0, 2),
    }
