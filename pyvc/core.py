"""Path exploration, proof obligations and solver back ends."""

import os
import sys
import time

import z3


class Control(BaseException):
    """Engine control flow; never visible to the program under verification."""


class PathEnd(Control):
    """The current path is finished (cut by induction or by an assumption)."""


class Infeasible(PathEnd):
    pass


class Unsupported(Control):
    """The generator does not support a construct: the function is *not* decided (never a violation)."""


class Budget(Unsupported):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no verification context")
    return CTX


class Obligation:
    __slots__ = ("name", "status", "backend", "seconds", "model", "detail", "inputs", "decisions", "smt")

    def __init__(self, name, status, backend, seconds, model=None, detail=""):
        self.name = name
        self.status = status  # proved | refuted | unknown
        self.backend = backend
        self.seconds = seconds
        self.model = model
        self.detail = detail
        self.inputs = None
        self.decisions = None
        self.smt = None


QUERY_TIMEOUT_MS = 8000
BRANCH_TIMEOUT_MS = 2000


FORKS = {} if os.environ.get("PYVC_FORKS") else None  # diagnosis: where the paths of a proof part


def where():
    f = sys._getframe(1)
    out = []
    while f is not None and len(out) < 14:
        n = f.f_code.co_name
        if n == "exec_stmt":
            e = f.f_locals
            out.append(f"{e['env'].fname}:{e['n'].lineno}")
        elif "contracts" in f.f_code.co_filename:
            out.append(f"{n}:{f.f_lineno}")
        f = f.f_back
    return " < ".join(out[:6])


class Frame:
    __slots__ = ("prefix", "decisions", "pos")

    def __init__(self, prefix):
        self.prefix = prefix
        self.decisions = []  # [choice, [alternatives left]]
        self.pos = 0

    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)


class Context:
    """State of one path."""

    def __init__(self, run, prefix):
        self.run = run
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT_MS)
        self.pc = []
        self.frames = [Frame(prefix)]
        self.counter = {}
        self.undo = []
        self.quiet = 0
        self.inputs = {}
        self.folds = run.folds
        self.depth = 0
        self.steps = 0
        self.facts_seen = set()
        self.scanned = set()
        self.loop_stack = []
        self.user = {}
        self.axioms = {}
        self.universals = []
        self.indices = []
        self.fresh = []
        self.obliged = 0
        self.maps = []
        self.births = {}
        self.frozen = set()

    def tick_clock(self):
        from . import heap

        heap.CLOCK += 1
        return heap.CLOCK

    def mapped(self, cond):
        for m in reversed(self.maps):
            cond = m.t(cond)
        return cond

    # -- symbols -------------------------------------------------------
    def name(self, hint):
        n = self.counter.get(hint, 0)
        self.counter[hint] = n + 1
        return f"{hint}!{n}" if n else hint

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.run.max_steps or time.time() > self.run.deadline:
            raise Budget("step/time budget exhausted")

    # -- path condition -------------------------------------------------
    def assume(self, cond):
        if self.maps and not isinstance(cond, bool):
            cond = self.mapped(cond)
        self._assume(cond)

    def _assume(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.scan(cond)
        self.pc.append(cond)
        self.solver.add(cond)

    def scan_raw(self, t):
        self.scan(t)

    def scan(self, t):
        """Add the range axioms of registered function symbols for every new application in t."""
        ax = self.axioms
        if not ax:
            return
        seen = self.scanned
        todo = [t]
        while todo:
            e = todo.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen.add(k)
            self.run.keep.append(e)
            if not z3.is_app(e):
                continue
            ch = e.children()
            todo.extend(ch)
            if ch and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = ax.get(e.decl().name())
                if f is not None:
                    for x in f(*ch):
                        self.fact(x)

    def fact(self, cond):
        """Assume a lemma instance / type fact once."""
        if self.maps:
            cond = self.mapped(cond)
        k = cond.get_id()
        if k in self.facts_seen or z3.is_true(cond):
            return
        self.facts_seen.add(k)
        self.scan_raw(cond)
        self.pc.append(cond)
        self.solver.add(cond)
        self.run.keep.append(cond)

    def feasible(self, *conds):
        self.run.stats["feasibility"] += 1
        t = time.time()
        r = self.solver.check(*conds)
        self.run.stats["solver_s"] += time.time() - t
        return r != z3.unsat

    def proves(self, cond, timeout=1500):
        """Cheap entailment test used to simplify terms (failure is harmless)."""
        if isinstance(cond, bool):
            return cond
        if self.maps:
            cond = self.mapped(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.scan(cond)
        self.run.stats["entailment"] += 1
        t = time.time()
        self.solver.set("timeout", timeout)
        r = self.solver.check(z3.Not(cond))
        self.solver.set("timeout", BRANCH_TIMEOUT_MS)
        self.run.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def choose(self, n, label=""):
        """Non-deterministic choice 0..n-1 without a condition."""
        f = self.frames[-1]
        if f.replaying:
            c = f.prefix[len(f.decisions)]
            f.decisions.append([c, []])
            return c
        f.decisions.append([0, list(range(1, n))])
        if FORKS is not None and not self.quiet:
            FORKS[where()] = FORKS.get(where(), 0) + 1
        return 0

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        if self.maps:
            cond = self.mapped(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.tick()
        self.scan(cond)
        f = self.frames[-1]
        if f.replaying:
            c = f.prefix[len(f.decisions)]
            f.decisions.append([c, []])
            if c < 2:
                self._assume(cond if c else z3.Not(cond))
            return bool(c & 1)
        # c: 1 true, 0 false; 3/2: true/false entailed (no assumption necessary)
        pos = self.feasible(cond)
        if not pos:
            if not self.feasible():
                raise Infeasible()
            f.decisions.append([2, []])
            return False
        neg = self.feasible(z3.Not(cond))
        if not neg:
            f.decisions.append([3, []])
            return True
        f.decisions.append([1, [0]])
        self._assume(cond)
        if FORKS is not None and not self.quiet:
            FORKS[where()] = FORKS.get(where(), 0) + 1
        return True

    # -- undo log (heap) --------------------------------------------------
    def record(self, fn, cell=None):
        self.undo.append((fn, cell))

    def rollback(self, mark, clock=None):
        """Undo the writes since mark; objects made since clock keep theirs (only the result of the exploration refers to them)."""
        while len(self.undo) > mark:
            fn, tag = self.undo.pop()
            if clock is not None and tag is not None:
                obj = tag[1]
                born = obj.born if tag[0] == "cell" else self.births.get(id(obj), 0)
                if born >= clock:
                    continue
            fn()

    # -- nested exploration ------------------------------------------------
    def sub(self, fn, limit=400):
        """Explore all paths of fn from the current state, undoing all effects; returns list of results."""
        results = []
        work = [[]]
        self.quiet += 1
        saved_inputs = dict(self.inputs)
        try:
            while work:
                prefix = work.pop()
                if len(results) > limit:
                    raise Budget("too many paths in nested exploration")
                self.frames.append(Frame(prefix))
                self.solver.push()
                npc = len(self.pc)
                seen = set(self.facts_seen)
                scanned = set(self.scanned)
                nuni, nidx = len(self.universals), len(self.indices)
                mark = len(self.undo)
                clock = self.tick_clock()
                try:
                    results.append(fn())
                except PathEnd:
                    pass
                finally:
                    self.rollback(mark, clock)
                    del self.pc[npc:]
                    self.facts_seen = seen
                    self.scanned = scanned
                    del self.universals[nuni:]
                    del self.indices[nidx:]
                    self.solver.pop()
                    f = self.frames.pop()
                for j in range(len(prefix), len(f.decisions)):
                    for alt in f.decisions[j][1]:
                        work.append([d[0] for d in f.decisions[:j]] + [alt])
        finally:
            self.quiet -= 1
            self.inputs = saved_inputs
        return results

    def detour(self, fn):
        """Prove something on the side: all paths of fn are explored here, with their obligations; nothing of it stays."""
        if self.quiet:
            self.obliged += 1
            return
        if any(f.replaying for f in self.frames):
            return  # done when this prefix was explored for the first time
        work = [[]]
        saved_inputs = dict(self.inputs)
        try:
            while work:
                if self.run.refuted > 12 or self.run.failed > 40:
                    break
                prefix = work.pop()
                self.run.stats["paths"] += 1
                self.frames.append(Frame(prefix))
                self.solver.push()
                npc = len(self.pc)
                seen, scanned = set(self.facts_seen), set(self.scanned)
                nuni, nidx = len(self.universals), len(self.indices)
                mark = len(self.undo)
                clock = self.tick_clock()
                user = dict(self.user)
                try:
                    fn()
                except PathEnd:
                    pass
                except Budget:
                    raise
                except Unsupported as e:
                    self.run.unsupported.append(str(e) or type(e).__name__)
                finally:
                    self.rollback(mark, clock)
                    del self.pc[npc:]
                    self.facts_seen, self.scanned = seen, scanned
                    del self.universals[nuni:]
                    del self.indices[nidx:]
                    self.solver.pop()
                    self.user = user
                    f = self.frames.pop()
                for j in range(len(prefix), len(f.decisions)):
                    for alt in f.decisions[j][1]:
                        work.append([d[0] for d in f.decisions[:j]] + [alt])
        finally:
            self.inputs = saved_inputs

    # -- obligations ---------------------------------------------------------
    def entails(self, goal):
        """Like proves, with all the instances and back ends an obligation gets."""
        return self.proves(goal) or self.run._discharge(self, "", z3.simplify(goal), "").status == "proved"

    def oblige(self, name, goal, detail="", soft=False):
        """Proof obligation: path condition entails goal (soft: failing leaves the contract unproved, refutes nothing)."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.obliged += 1
        if self.quiet:
            self.assume(goal)
            return True
        self.scan(goal)
        if any(f.replaying for f in self.frames):
            # Discharged when this prefix was explored for the first time.
            self.assume(goal)
            return True
        o = self.run.discharge(self, name, goal, detail, soft)
        if o.status != "proved":
            if not self.feasible(goal):
                raise PathEnd()
        self.assume(goal)
        return o.status == "proved"


class Run:
    """One verification task: explores all paths of a harness."""

    def __init__(self, name, max_steps=400000, max_paths=4000, seconds=240, query_ms=QUERY_TIMEOUT_MS):
        self.name = name
        self.obligations = []
        self.stats = {"paths": 0, "feasibility": 0, "entailment": 0, "solver_s": 0.0, "cpython": 0}
        self.folds = {}
        self.weakened = False
        self.fold_seen = {}
        self.fold_list = []
        self.loop_hooks = []
        self.merge = False
        self.soft = []
        self.keep = []
        self.leaves = {}
        self.contracts = {}
        self.inductive = set()
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = time.time() + seconds
        self.query_ms = query_ms
        self.covers = {}
        self.trusted = set()
        self.unsupported = []
        self.functions = set()
        self.refuted = 0
        self.failed = 0

    def explore(self, fn):
        global CTX
        work = [[]]
        while work:
            prefix = work.pop()
            if self.refuted > 12 or self.failed > 40:
                break  # the verdict stands; the remaining paths would only repeat it
            self.stats["paths"] += 1
            if self.stats["paths"] > self.max_paths:
                self.unsupported.append("path budget exhausted")
                break
            c = Context(self, prefix)
            saved = CTX
            CTX = c
            try:
                fn(c)
            except PathEnd:
                pass
            except Unsupported as e:
                if os.environ.get("PYVC_DEBUG") == "2":
                    import traceback

                    traceback.print_exc()
                self.unsupported.append(str(e) or type(e).__name__)
                if isinstance(e, Budget):
                    break
                if len(self.unsupported) > 8:
                    break
            finally:
                c.rollback(0)
                CTX = saved
            f = c.frames[0]
            for j in range(len(prefix), len(f.decisions)):
                for alt in f.decisions[j][1]:
                    work.append([d[0] for d in f.decisions[:j]] + [alt])

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def discharge(self, c, name, goal, detail, soft=False):
        t = time.time()
        goal = z3.simplify(goal)
        o = self._discharge(c, name, goal, detail)
        o.seconds = time.time() - t
        if soft and o.status == "refuted":
            o.status = "unknown"
            o.detail += " (invariant not inductive on this code)"
        self.stats["solver_s"] += o.seconds
        self.obligations.append(o)
        self.refuted += o.status == "refuted"
        self.failed += o.status != "proved"
        return o

    def _discharge(self, c, name, goal, detail):
        if z3.is_true(goal):
            return Obligation(name, "proved", "simplifier", 0, detail=detail)
        from . import folds, lemmas

        extra = lemmas.instances(c, goal)
        s = c.solver
        s.push()
        try:
            for e in extra:
                s.add(e)
            s.set("timeout", self.query_ms)
            r = s.check(z3.Not(goal))
            if r != z3.unsat and c.universals:
                done = {}
                for _ in range(3):
                    more = lemmas.universal_instances(c, [goal] + extra + c.pc, done)
                    if not more:
                        break
                    more += lemmas.instances(c, z3.And(*more))
                    extra = extra + more
                    s.add(*more)
                    r = s.check(z3.Not(goal))
                    if r == z3.unsat:
                        break
            s.set("timeout", BRANCH_TIMEOUT_MS)
            if r == z3.unsat:
                return Obligation(name, "proved", "z3", 0, detail=detail)
            if r == z3.sat:
                # Theory-incomplete symbols (bit operations as functions): let the bit-vector back end have the last word.
                if lemmas.has_bitops(goal, c.pc) and lemmas.bv_proves(c.pc + extra, goal, self.query_ms):
                    return Obligation(name, "proved", "z3-bv", 0, detail=detail)
                model = s.model()
                o = Obligation(name, "refuted", "z3", 0, model=model, detail=detail)
                o.decisions = [d[0] for d in c.frames[0].decisions]
                o.inputs = lemmas.small_model(c, goal, extra)
                o.smt = goal.sexpr()[:2000]
                if self.weakened:
                    o.status = "unknown"
                    o.detail += " (a value computed in a loop is not followed)"
                elif c.folds and folds.apps([goal]):
                    # folds are function symbols with partial axioms: the model refutes nothing unless its replay fails
                    o.status = "unknown"
                    o.detail += " (equality of folds not established)"
                elif c.universals:
                    # only some instances of the quantified facts were used: same
                    o.status = "unknown"
                    o.detail += " (not established from the instances of quantified facts)"
                return o
            if lemmas.bv_proves(c.pc + extra, goal, self.query_ms):
                return Obligation(name, "proved", "z3-bv", 0, detail=detail)
            if lemmas.fresh_z3_proves(c.pc + extra, goal, self.query_ms):
                return Obligation(name, "proved", "z3-fresh", 0, detail=detail)
            if lemmas.cvc5_proves(c.pc + extra, goal, self.query_ms):
                return Obligation(name, "proved", "cvc5", 0, detail=detail)
            o = Obligation(name, "unknown", "z3", 0, detail=detail + " " + s.reason_unknown())
            o.smt = goal.sexpr()[:2000]
            return o
        finally:
            s.pop()
