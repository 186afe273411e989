"""setup_cmd: the tools are present, the executable contracts load, and the models agree with CPython.

Every program of models_test/programs.py is run by the engine on *symbolic* arguments; then, for each concrete point, the arguments are assumed to be that
point and the engine has to prove (or at least must not refute) that the outcome is CPython's. A refuted one is an error of the models: exit 1.
The goal False is stated as well: some path has to be consistent with the point, or the engine has lost an execution.
`selftest.py NAME ...` runs the named programs and prints each result.
"""

import importlib
import multiprocessing
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = ["/verif", "/repo"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")

import z3  # noqa: E402


def outcome(f, *args):
    try:
        return True, f(*args)
    except Exception as e:  # noqa: BLE001
        return False, e


def compare(tag, ok, r, good, want):
    """Obligations: the symbolic outcome (ok, r) is the concrete one (good, want)."""
    from contracts.common import oblige, v_eq

    if ok != good:
        oblige(tag + " same", False, f"{r!r} instead of {want!r}")
    elif not good:
        oblige(tag + " same", type(r) is type(want) or isinstance(r, type(want)), f"{type(r).__name__} instead of {type(want).__name__}")
    elif isinstance(want, (list, tuple)):
        from contracts.common import to_seq

        s = to_seq(r)
        oblige(tag + " same", s.length() == len(want), f"length of {r!r}")
        for i, w in enumerate(want):
            oblige(tag + " same", v_eq(s.get(i), w) if not isinstance(w, (list, tuple)) else v_eq(s.get(i), lift(w)), f"element {i}")
    else:
        oblige(tag + " same", v_eq(r, want), f"{want!r}")


def lift(w):
    from contracts.common import VList, VTuple

    return VTuple([lift(x) if isinstance(x, (list, tuple)) else x for x in w]) if isinstance(w, tuple) else VList([lift(x) if isinstance(x, (list, tuple)) else x for x in w])


def harness(f, kind, points, late):
    from contracts.common import VBytes, assume, attempt, input_bytes, input_int, oblige, side, wrap

    def one(c):
        if kind == "int":
            args = [input_int("a"), input_int("b")]
            syms = args
        else:
            d, i = input_bytes("d"), input_int("i", 0)
            args, syms = [VBytes(d), i], [d, i]

        def fix(p):
            if kind == "int":
                for s, v in zip(syms, p):
                    assume(wrap(s) == v)
            else:
                d, i = syms
                assume(wrap(d.length()) == len(p[0]))
                assume(wrap(i) == p[1])
                for k, v in enumerate(p[0]):
                    assume(wrap(d.get(k)) == v)

        if late:
            ok, r = attempt(f, *args)

            def at(n, p):
                fix(p)
                oblige(f"{n} reachable", False)
                good, want = outcome(f, *p)
                compare(f"{n}", ok, r, good, want)

            for n, p in enumerate(points):
                side(lambda n=n, p=p: at(n, p))
        else:
            p = points[0]
            fix(p)
            ok, r = attempt(f, *args)
            oblige("0 reachable", False)
            compare("0", ok, r, *outcome(f, *p))

    return one


def program(job):
    name, late = job
    from contracts.common import Task
    from models_test import programs as P
    from pyvc import interp, task

    interp.REPO = os.path.dirname(os.path.realpath(P.__file__)) + os.sep
    f = getattr(P, name)
    kind = "int" if f in P.INTS else "bytes"
    points = P.INT_POINTS if kind == "int" else P.BYTE_POINTS
    res = {"proved": 0, "refuted": 0, "open": 0, "lost": 0}
    detail = []
    runs = [points] if late else [[p] for p in points]
    for ps in runs:
        r = task.run(Task(name, harness(f, kind, ps, late), seconds=20, query_ms=1500))
        if r["unsupported"]:
            res["open"] += len(ps)
            detail.append(("unsupported", r["unsupported"][0][:120]))
            continue
        for n, p in enumerate(ps):
            if all(o["status"] == "proved" for o in r["obligations"] if o["name"] == f"{n} reachable"):
                res["lost"] += 1
                detail.append(("lost", p))
                continue
            st = [o for o in r["obligations"] if o["name"] == f"{n} same"]
            if any(o["status"] == "refuted" for o in st):
                res["refuted"] += 1
                detail.append(("refuted", p, [o["detail"] for o in st if o["status"] == "refuted"][:2]))
            elif all(o["status"] == "proved" for o in st):
                res["proved"] += 1
            else:
                res["open"] += 1
                detail.append(("open", p, [o["detail"] for o in st if o["status"] != "proved"][:1]))
    return name, late, res, detail


def main():
    from models_test import programs as P

    for i in range(1, 21):
        importlib.import_module(f"bounded.c{i:02d}")
        importlib.import_module(f"contracts.c{i:02d}")
    names = sys.argv[1:] or [f.__name__ for f in P.INTS + P.BYTES]
    tot = {"proved": 0, "refuted": 0, "open": 0, "lost": 0}
    bad = []
    with multiprocessing.Pool(8) as pool:
        for name, late, res, detail in pool.imap_unordered(program, [(n, late) for n in names for late in (False, True)]):
            for k in tot:
                tot[k] += res[k]
            if sys.argv[1:]:
                print(name, "late" if late else "early", res, *detail, sep="\n   ")
            if res["refuted"] or res["lost"]:
                bad.append((name, late, detail))
    print(f"models against CPython: {len(names)} programs, {tot}")
    for b in bad:
        print("MODEL ERROR", *b)
    print("z3", z3.get_version_string())
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
