"""C06: joining preserves every byte at its address and merges all neighbours.

join_sections(xs), for every number of sections xs_0, xs_1, ... in address order that do not overlap (a list or a SortedList); result R:
  forward    every byte D_j[o] of every xs_j is held by a section of R at its address S_j + o
  backward   every byte of every section of R is the byte some xs_j holds at that address
  order      the end of each section of R lies strictly before the start of the next (ascending, disjoint, none adjacent)
  frame      no xs_j, nor its data, changes; the data of R are new objects
The loop invariant states the same about the sections consumed so far; the run functions w (input -> result section) and q (byte of the
result -> input) are ghost state.
"""

from objutils.section import Section, join_sections
from pyvc.heap import Cell, VSorted
from pyvc.invariants import Invariant, assigned_names
from pyvc.models import add_index
from pyvc.values import new_fun

from .common import (
    Gen,
    Sections,
    Seq,
    SInt,
    Task,
    VBuf,
    VList,
    assume,
    attempt,
    boolterm,
    call,
    cover,
    ctx,
    disjoint,
    every,
    fresh_int,
    image_of,
    land,
    lor,
    oblige,
    same,
    sections_cell,
    side,
    state,
    term,
    to_seq,
    truth,
    v_eq,
    why,
    wrap,
)


class Input:
    """The sections to be joined: (start, length, content) by index; ghost witnesses of the loop invariant."""

    def __init__(self, seq):
        self.seq = seq
        self.n = seq.length()
        self.known = None
        self.offsets = (0,)  # where the sections stood before they were put together: index terms for the order facts

        self.cut = None

    def generalised(self, cell):
        """Forget how the sequence was put together: any sections in address order (proved here) will do."""
        side(lambda: self.prove_order(lambda nm, g: ctx().oblige("loop invariant: " + nm, boolterm(g), soft=True)))
        x = self.cut = Input(Seq([Sections("any_joined", self.n, known=False).gen]))
        x.order_known = True
        cell.set(x.seq)
        return x

    order_known = False

    def at(self, j):
        s, d = state(self.seq.get(j))
        return s, to_seq(d)

    def prove_order(self, ob):
        """The sections are in address order and do not overlap."""
        j = fresh_int("j", 1)
        assume(j < self.n)
        for d in self.offsets:
            add_index(j - d)
            add_index(j - 1 - d)
        s, d = self.at(j - 1)
        t, _ = self.at(j)
        ob("the sections to be joined are in address order", s + d.length() <= t)

    def ordered(self, j):
        s, d = self.at(wrap(j) - 1)
        t, _ = self.at(j)
        assume(s + d.length() <= t)

    # instances of the loop invariant (quantified over all in-range arguments)
    def forward(self, j, o):
        g = self.known
        s, d = self.at(j)
        w = g.w(j)
        assume(land(w < g.m, g.start(w) <= s, s + d.length() <= g.start(w) + g.len(w)))
        if o is not None:
            assume(v_eq(g.byte(w, s - g.start(w) + o), d.get(o)))
        return w

    def backward(self, t, o):
        g = self.known
        q = g.q(t, o)
        assume(q < g.i)
        s, d = self.at(q)
        x = g.start(t) + o
        assume(land(s <= x, x < s + d.length()))
        assume(v_eq(g.byte(t, o), d.get(x - s)))
        return q

    def order(self, t):
        """end of section t before the start of section t+1"""
        g = self.known
        assume(g.start(t) + g.len(t) < g.start(t + 1))


class Ghost:
    def __init__(self, i):
        self.i = i
        self.m = fresh_int("runs", 0)
        self.secs = Sections("joined", self.m, known=False)
        fw, fq = new_fun("w", 1, 0), new_fun("q", 2, 0)
        self.w = lambda j: SInt(fw(term(j)), 0)
        self.q = lambda t, o: SInt(fq(term(t), term(o)), 0)
        self.start, self.len = self.secs.start, self.secs.length

    def byte(self, t, o):
        return SInt(self.secs.f_byte(term(t), term(o)), 0, 255)


def joined(inp, i, res, ob):
    """The sections res hold exactly the bytes of the first i inputs, in order, none adjacent."""
    g = inp.known
    m = wrap(res.length())

    def forward():
        j, o = fresh_int("j", 0), fresh_int("o", 0)
        assume(j < i)
        add_index(j)
        s, d = inp.at(j)
        assume(o < d.length())
        if g is not None and truth(wrap(j) < g.i):
            t = inp.forward(j, o)
        else:
            t = m - 1
        ob("every byte that goes in comes out in some section", land(wrap(t) >= 0, wrap(t) < m))
        rs, rd = state(res.get(t))
        rd = to_seq(rd)
        ob("every byte that goes in comes out inside its section", land(rs <= s + o, s + o < rs + rd.length()))
        ob("every byte that goes in comes out at its address", v_eq(rd.get(s + o - rs), d.get(o)))

    side(forward)

    def backward():
        t, o = fresh_int("t", 0), fresh_int("o", 0)
        assume(t < m)
        rs, rd = state(res.get(t))
        rd = to_seq(rd)
        assume(o < rd.length())
        x = rs + o
        alts = []
        if g is not None:
            if truth(land(wrap(t) < g.m, o < g.len(t))):
                alts.append(inp.backward(t, o))
        if not alts:
            alts.append(wrap(i) - 1)
        for q in alts:
            ob("every byte that comes out went in", land(wrap(q) >= 0, wrap(q) < i))
            add_index(q)
            s, d = inp.at(q)
            ob("every byte that comes out is a byte of an input at that address", land(s <= x, x < s + d.length()))
            ob("every byte that comes out has its value", v_eq(rd.get(o), d.get(x - s)))

    side(backward)

    def order():
        t = fresh_int("t", 0)
        assume(t + 1 < m)
        if g is not None and truth(t + 1 < g.m):
            inp.order(t)
        rs, rd = state(res.get(t))
        ns, nd = state(res.get(t + 1))
        ob("the sections are in ascending order and not adjacent", rs + to_seq(rd).length() < ns)

    side(order)


class JoinLoop(Invariant):
    def __init__(self, inp, env, src, out, prev):
        self.inp, self.env, self.src, self.out, self.prev = inp, env, src, out, prev
        self.names = {src, out, prev}
        self.last = None
        self.i = 0

    def count(self):
        return self.inp.n

    def cells(self):
        out = [self.env.vars[self.src], self.env.vars[self.out]]
        if self.last is not None:
            out += [self.last, self.last.__dict__["data"]]
        return out

    def havoc(self, i):
        v, inp = self.env.vars, self.inp
        self.i = i
        v[self.src].set(inp.seq.slice(i, inp.n))
        if not truth(wrap(i) > 0):
            return
        g = inp.known = Ghost(i)
        assume(g.m >= 1)
        if truth(wrap(i) < inp.n):
            inp.ordered(i)
        last = g.m - 1
        self.last = call(Section, [g.start(last), VBuf(g.secs.bytes(last))])
        seq = Seq([Gen(last, g.secs.at), [self.last]])
        v[self.out].set(seq)
        ps, pd = inp.at(i - 1)
        assume(v_eq(g.start(last) + g.len(last), ps + pd.length()))
        if isinstance(v[self.prev], (int, SInt)) or v[self.prev] is None:
            v[self.prev] = ps + pd.length()
        else:
            v[self.prev] = inp.seq.get(i - 1)

    def check(self, i, when):
        v, inp = self.env.vars, self.inp

        def ob(nm, goal):
            self.oblige(f"{nm} ({when})", goal)

        rest, out = v[self.src], v[self.out].seq
        if when == "initially" and not inp.order_known:
            side(lambda: inp.prove_order(ob))
        ob("the sections not yet joined: number", wrap(rest.seq.length()) == inp.n - i)

        def left():
            j = fresh_int("j", 0)
            assume(j < inp.n - i)
            a, b = rest.seq.get(j), inp.seq.get(wrap(i) + j)
            (s, d), (t, e) = state(a), state(b)
            ob("the sections not yet joined", land(wrap(s) == t, wrap(to_seq(d).length()) == to_seq(e).length()))

        side(left)
        m = wrap(out.length())
        if not truth(wrap(i) > 0):
            ob("nothing joined yet", m == 0)
            return
        ob("something is joined", m >= 1)
        last = out.get(m - 1)
        ls, ld = state(last)
        ps, pd = inp.at(wrap(i) - 1)
        ob("the last section ends where the last input ends", ls + to_seq(ld).length() == ps + pd.length())
        cell = last.__dict__["data"]
        ob("the data of the result are new objects", isinstance(cell, Cell) and not cell.ro)
        pv = v[self.prev]
        if isinstance(pv, (int, SInt)):
            ob("the end of the last input is remembered", wrap(pv) == ps + pd.length())
        else:
            s, d = state(pv)
            ob("the last input is remembered", land(wrap(s) == ps, wrap(to_seq(d).length()) == pd.length()))
        joined(inp, i, out, ob)


def hook(box):
    """Claims the loop that takes the sections off the given container one by one."""

    def claim(n, env, it):
        if it is not None:
            return None
        loc = env.vars
        lists = [x for x, v in loc.items() if isinstance(v, (VList, VSorted))]
        src = [x for x in lists if box and loc[x].seq is box[0].seq]
        src = src or [x for x in lists if loc[x].seq.segs]
        out = [x for x in lists if not loc[x].seq.segs]
        carried = [x for x in sorted(assigned_names(n.body)) if x in loc and (isinstance(loc[x], (Section, SInt, int)) or loc[x] is None) and not isinstance(loc[x], bool)]
        if len(src) != 1 or len(out) != 1 or len(carried) != 1:
            return None
        if not box or loc[src[0]].seq is not box[0].seq:
            offsets = box[0].offsets if box else (0,)
            box[:] = [Input(loc[src[0]].seq)]
            box[0].offsets = offsets
        inp = box[0]
        if len(inp.seq.segs) > 1:
            inp = inp.generalised(loc[src[0]])
        return JoinLoop(inp, env, src[0], out[0], carried[0])

    return claim


def contract(box):
    """join_sections as its callers may rely on it: what the tasks of this file prove about its body."""

    def spec(cell):
        inp = Input(cell.seq)
        if box:
            inp.offsets = box[0].offsets
        box[:] = [inp]
        side(lambda: inp.prove_order(oblige))
        cell.set(Seq())
        res = VSorted(Seq(), cell.key) if isinstance(cell, VSorted) else VList(Seq())
        if truth(wrap(inp.n) > 0):
            g = inp.known = Ghost(inp.n)
            assume(g.m >= 1)
            res.set(Seq([g.secs.gen]))
        ctx().run.functions.add("join_sections (by contract, see C06)")
        return res

    return spec


def ordered(a):
    every(1, a.n, lambda j: a.end(j - 1) <= a.start(j))


def join_harness(kind):
    def harness(c):
        from operator import attrgetter

        a = Sections("secs")
        ordered(a)
        inp = Input(Seq([a.gen]))
        box[:] = [inp]
        if kind == "image":
            from objutils.image import Image

            ok, r = attempt(Image, VList(inp.seq))
            oblige("joining does not raise", ok, why(r))
            res = sections_cell(r)
        else:
            arg = VList(inp.seq) if kind == "list" else VSorted(inp.seq, attrgetter("start_address"))
            ok, r = attempt(join_sections, arg)
            oblige("joining does not raise", ok, why(r))
            res = r
            oblige("the result is of the kind of the argument", isinstance(res, VSorted if kind == "sorted" else VList))
        if not truth(wrap(inp.n) > 0):
            cover("nothing to join")
            oblige("joining nothing gives nothing", wrap(to_seq(res).length()) == 0)
            return
        cover("joined")
        joined(inp, inp.n, to_seq(res), oblige)

    return harness


box = []


def tasks():
    return [
        Task(
            f"join_sections ({kind})" if kind != "image" else "Image(sections)",
            join_harness(kind),
            covers=("joined", "nothing to join"),
            loops=[hook(box)],
            replay=lambda i, kind=kind: [dict(secs=[[s, bytes(d).hex()] for s, d in i["secs"]], how=kind, bytearrays=True)] if i.get("secs") and disjoint(i["secs"]) else None,
        )
        for kind in ("list", "sorted", "image")
    ]
