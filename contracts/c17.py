"""C17: a binary diff is complete, minimal and reconstructs the changed data.

diff_bin(a, b), for all byte strings a, b; n = min(len(a), len(b)); the result is R ++ T:
  R   modifications ("M", s, a[s:e], b[s:e]), in ascending order and not adjacent, with 0 <= s < e <= n; every position in [s, e)
      differs, s == 0 or s-1 is equal, e == n or e is equal (maximal);  every p < n with a[p] != b[p] lies in one of them
  T   [("A", len(a), None, b[len(a):])] if b is longer, [("D", len(b), a[len(b):], None)] if a is longer, else []
so replacing the M ranges by their b bytes and appending/deleting the tail turns a into b.
"""

from objutils.utils.diff import BinDiff, diff_bin
from pyvc.heap import VBuf, VList
from pyvc.invariants import Invariant, assigned_names
from pyvc.models import add_index, add_universal
from pyvc.values import imin, new_fun

from .common import Gen, Seq, SInt, Task, VBytes, assume, attempt, boolterm, cover, fresh_int, hx, input_bytes, land, lnot, lor, oblige, same, side, term, to_seq, truth, v_eq, why, wrap


class Spec:
    """The two buffers; demands on a list of modifications."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = imin(a.length(), b.length())
        self.known = None  # (m, s, e, where): runs of the loop invariant

    def equal(self, p):
        return v_eq(self.a.get(p), self.b.get(p))

    def below(self, j):
        """Instance of the invariant at run j: every position in it differs."""
        if self.known is not None:
            m, s, e, w = self.known
            if truth(wrap(j) < m):
                add_universal(s(j), e(j), lambda p: lnot(self.equal(p)))

    def runs(self, seq, limit, ob):
        """The records of seq are maximal runs in order, and complete below limit."""

        def record():
            j = fresh_int("j", 0)
            assume(j < seq.length())
            add_index(j)
            self.below(j)
            r = seq.get(j)
            self.record(r, limit, ob)
            if truth(j > 0):
                add_index(j - 1)
                q = seq.get(j - 1)
                ob("the runs are in order and apart", q[1] + to_seq(q[2]).length() < r[1])

        side(record)

        def complete():
            p = fresh_int("p", 0)
            assume(p < limit)
            add_index(p)
            assume(lnot(self.equal(p)))
            n = seq.length()
            cand = [0] if self.known is None else [self.known[3](p), self.known[0]]
            alts = []
            for x in cand:
                if truth(land(wrap(x) >= 0, wrap(x) < n)):
                    r = seq.get(x)
                    alts.append(land(wrap(r[1]) <= p, p < r[1] + to_seq(r[2]).length()))
            ob("every differing position lies in a run", lor(*alts) if alts else False)

        side(complete)

    def record(self, r, limit, ob):
        ob("a run is a BinDiff record", isinstance(r, BinDiff))
        ob("a run is a modification", v_eq(r[0], "M"))
        off, x, y = r[1], to_seq(r[2]), to_seq(r[3])
        k = x.length()
        end = off + k
        ob("a run has as many bytes of a as of b", wrap(y.length()) == k)
        ob("a run lies inside", land(wrap(off) >= 0, wrap(k) > 0, wrap(end) <= limit))
        add_index(end)

        def left():
            if truth(wrap(off) > 0):
                add_index(wrap(off) - 1)
                ob("a run is maximal to the left", self.equal(wrap(off) - 1))

        side(left)

        def right():
            if truth(wrap(end) < self.n):
                ob("a run is maximal to the right", self.equal(end))

        side(right)

        def inside():
            p = fresh_int("p", 0)
            assume(land(p >= off, p < end))
            add_index(p)
            ob("a run differs everywhere", lnot(self.equal(p)))
            ob("a run has the bytes of a", v_eq(x.get(p - off), self.a.get(p)))
            ob("a run has the bytes of b", v_eq(y.get(p - off), self.b.get(p)))

        side(inside)


class DiffLoop(Invariant):
    """Before position i: the list holds the runs closed below, the two buffers the bytes of the open run [start, i)."""

    def __init__(self, spec, env, out, da, db, start):
        self.spec, self.env = spec, env
        self.names = {out, da, db, start}
        self.out, self.da, self.db, self.start = out, da, db, start

    def cells(self):
        return [self.env.vars[x] for x in (self.out, self.da, self.db)]

    def havoc(self, i):
        sp, v = self.spec, self.env.vars
        a, b, eq = sp.a, sp.b, sp.equal
        fs, fe, fw = new_fun("rs", 1, 0), new_fun("re", 1, 0), new_fun("rw", 1, 0)
        m = fresh_int("runs", 0)
        s = lambda j: SInt(fs(term(j)), 0)  # noqa: E731
        e = lambda j: SInt(fe(term(j)), 0)  # noqa: E731
        w = lambda p: SInt(fw(term(p)), 0)  # noqa: E731
        st = fresh_int("start", 0)
        assume(st <= i)  # the open run is [st, i); none is open when st == i
        sp.known = (m, s, e, w)
        add_universal(0, m, lambda j: land(s(j) < e(j), e(j) < sp.n, e(j) <= st))
        add_universal(0, m, lambda j: implied(lambda: eq(e(j))))
        add_universal(0, m, lambda j: lor(s(j) == 0, eq(s(j) - 1)))
        add_universal(1, m, lambda j: e(j - 1) < s(j))
        add_universal(0, st, lambda p: lor(eq(p), land(w(p) < m, s(w(p)) <= p, p < e(w(p)))))
        add_index(st)
        if truth(st < i):
            add_universal(st, i, lambda p: lnot(eq(p)))
            if truth(st > 0):
                assume(eq(st - 1))
            add_universal(0, m, lambda j: e(j) < st)
            v[self.start], v[self.da], v[self.db] = st, VBuf(a.slice(st, i)), VBuf(b.slice(st, i))
        else:
            v[self.start], v[self.da], v[self.db] = fresh_int("stale", 0), VBuf(), VBuf()
            if truth(wrap(i) > 0):
                assume(eq(wrap(i) - 1))
        v[self.out] = VList(Seq([Gen(m, lambda j: BinDiff("M", s(j), VBuf(a.slice(s(j), e(j))), VBuf(b.slice(s(j), e(j)))))]))

    def check(self, i, when):
        sp, v = self.spec, self.env.vars
        out, da, db = v[self.out], v[self.da], v[self.db]
        ob = lambda nm, g: self.oblige(f"{nm} ({when})", boolterm(g))  # noqa: E731
        k = da.seq.length()
        st = wrap(i) - k
        ob("the open run has equally many bytes of both", wrap(db.seq.length()) == k)
        ob("the open run lies inside", wrap(k) <= i)
        if truth(wrap(k) > 0):
            ob("the start of the open run", v_eq(v[self.start], st))
            if truth(st > 0):
                ob("the open run is maximal to the left", sp.equal(st - 1))

            def apart():
                j = fresh_int("j", 0)
                assume(j < out.seq.length())
                add_index(j)
                r = out.seq.get(j)
                ob("closed runs do not touch the open one", r[1] + to_seq(r[2]).length() < st)

            side(apart)

            def inside():
                p = fresh_int("p", 0)
                assume(land(p >= st, p < i))
                add_index(p)
                ob("the open run differs everywhere", lnot(sp.equal(p)))
                ob("the open run has the bytes of a", v_eq(da.seq.get(p - st), sp.a.get(p)))
                ob("the open run has the bytes of b", v_eq(db.seq.get(p - st), sp.b.get(p)))

            side(inside)
        elif truth(wrap(i) > 0):
            ob("no run is open: the last position is equal", sp.equal(wrap(i) - 1))
        sp.runs(out.seq, st, ob)


def implied(f):
    return f()


def hook(spec):
    """Claims the loop that walks over the common part: a list, two byte buffers and a number are carried."""

    def claim(n, env, it):
        if it is None or not spec:
            return None
        carried = [x for x in sorted(assigned_names(n.body)) if x in env.vars]
        loc = env.vars
        lists = [x for x, v in loc.items() if isinstance(v, VList)]
        bufs = [x for x, v in loc.items() if isinstance(v, VBuf) and not v.seq.segs and x in carried]
        nums = [x for x in carried if isinstance(loc[x], int)]
        if len(lists) != 1 or len(bufs) != 2 or len(nums) != 1:
            return None
        return DiffLoop(spec[0], env, lists[0], bufs[0], bufs[1], nums[0])

    return claim


def tasks():
    spec = []

    def harness(kind):
        def h(c):
            a, b = input_bytes("a"), input_bytes("b")
            sp = Spec(a, b)
            spec[:] = [sp]
            va, vb = kind(a), kind(b)
            ok, r = attempt(diff_bin, va, vb)
            oblige("a diff of two byte strings does not raise", ok, why(r))
            la, lb = a.length(), b.length()
            seq = to_seq(r)
            m = wrap(seq.length())
            if truth(lb > la):
                cover("appended")
                oblige("an appended tail is reported", m >= 1)
                t = seq.get(m - 1)
                oblige("an appended tail is the last record", land(isinstance(t, BinDiff), v_eq(t[0], "A"), v_eq(t[1], la), t[2] is None))
                same("an appended tail has its bytes", t[3], b.slice(la, lb))
                rest = seq.slice(0, m - 1)
            elif truth(lb < la):
                cover("deleted")
                oblige("a deleted tail is reported", m >= 1)
                t = seq.get(m - 1)
                oblige("a deleted tail is the last record", land(isinstance(t, BinDiff), v_eq(t[0], "D"), v_eq(t[1], lb), t[3] is None))
                same("a deleted tail has its bytes", t[2], a.slice(lb, la))
                rest = seq.slice(0, m - 1)
            else:
                cover("equal length")
                rest = seq
            sp.runs(rest, sp.n, oblige)
            same("the first buffer is not modified", va, a)
            same("the second buffer is not modified", vb, b)

        return h

    ts = []
    for kind in (VBytes, VBuf):
        nm = "bytes" if kind is VBytes else "bytearray"
        ts.append(Task(f"diff_bin ({nm})", harness(kind), covers=("appended", "deleted", "equal length"), loops=[hook(spec)], replay=lambda i, nm=nm: dict(a=hx(i["a"]), b=hx(i["b"]), t=nm)))
    return ts
