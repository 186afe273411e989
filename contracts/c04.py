"""C04: inserting sections keeps an image sorted, disjoint and content-preserving.

Image.insert_section(data, start, join), for every image whose sections are in address order and do not overlap (any number, any length):
  no byte of [start, start+len(data)) is held: accepted.  The sections are again in ascending order and do not overlap (with join: none
      are adjacent either); every byte of the old sections and of data is at its address, and there is no other byte.  A following
      insertion without address starts at start+len(data); the first one into a new image at 0.
  some byte of it is held (and data is not empty): raises InvalidAddressError, and the image keeps its sections and their contents.
An image that was just created has no sections.  By induction over the calls, every image built by insertions satisfies the invariant.
"""

from objutils.exceptions import InvalidAddressError
from objutils.image import Image
from pyvc.models import add_index
from pyvc.text import from_codes
from pyvc.values import new_fun

from . import c06
from .c06 import Input, box, contract, hook, join_sections, joined
from .common import (
    Gen,
    Sections,
    Seq,
    SInt,
    Task,
    VBuf,
    VBytes,
    VList,
    assume,
    attempt,
    concrete_value,
    cover,
    disjoint,
    every,
    fresh_int,
    hx,
    image_of,
    input_bytes,
    input_int,
    land,
    lor,
    method,
    oblige,
    refused,
    same,
    sections_cell,
    side,
    state,
    term,
    to_seq,
    truth,
    why,
    wrap,
)

KINDS = ("bytes", "bytearray", "list", "str")


def ordered(a):
    every(1, a.n, lambda j: a.end(j - 1) <= a.start(j))


def argument(kind, data):
    if kind == "str":
        return from_codes(data)
    return {"bytes": VBytes, "bytearray": VBuf, "list": VList}[kind](data)


def data_of(name, kind):
    if kind != "str":
        return input_bytes(name)
    n, f = input_int(name + "_chars", 0), new_fun(name + "_ch", 1, 0, 255)
    from pyvc.values import ctx

    ctx().inputs[name] = ("bytes", f, n)
    return Seq([Gen(n, lambda i: SInt(f(term(i)), 0, 255))])


def position(seq):
    """Index of the only section that is not an arbitrary one."""
    p = 0
    for g in seq.segs:
        if isinstance(g, list):
            return p
        p = p + g.length
    return None


def accepted(kind, join):
    def harness(c):
        a, b = Sections("before"), Sections("after")
        start = input_int("start", 0)
        data = data_of("data", kind)
        n = data.length()
        ordered(a)
        ordered(b)
        every(0, a.n, lambda j: a.end(j) <= start)
        every(0, b.n, lambda j: b.start(j) >= start + n)
        every(0, b.n, lambda j: b.start(j) >= start)
        # across the place of insertion
        old = Seq([a.gen, b.gen])
        img = image_of(old)
        box[:] = [Input(Seq([a.gen, [img], b.gen]))]
        box[0].offsets = (0, a.n, a.n + 1)
        kw = {} if join is None else {"join": join}
        ok, r = method(img, "insert_section", argument(kind, data), start, **kw)
        if not ok and truth(n == 0):
            return  # no data: there is nothing to say about where it may go
        oblige("inserting into free space does not raise", ok, why(r))
        cover("inserted")
        res = sections_cell(img).seq
        add_index(0)
        if join is False:
            inp = Input(res)
            plain(res, a, b)
        else:
            inp = box[0]
            cut = inp.cut or inp
            joined(cut, cut.n, res, oblige)
        content(inp.seq, a, b, start, data)

    return harness


def plain(res, a, b):
    """Without joining: ascending and disjoint."""

    def order():
        t = fresh_int("t", 0)
        assume(t + 1 < wrap(res.length()))
        for d in (0, a.n, a.n + 1):
            add_index(t - d)
            add_index(t + 1 - d)
        rs, rd = state(res.get(t))
        ns, _ = state(res.get(t + 1))
        oblige("the sections are in ascending order and do not overlap", rs + to_seq(rd).length() <= ns)

    side(order)


def content(seq, a, b, start, data):
    """seq consists of the old sections and the new one."""
    p = position(seq)
    oblige("the sections are the old ones and the new one", p is not None)
    oblige("one section is added", wrap(seq.length()) == a.n + b.n + 1)
    s, d = state(seq.get(p))
    oblige("the new section starts at its address", wrap(s) == start)
    same("the new section holds the data", d, data)

    def old():
        j = fresh_int("j", 0)
        assume(j < a.n + b.n)
        want = Seq([a.gen, b.gen]).get(j)
        got = seq.get(j if truth(wrap(j) < p) else j + 1)
        (s, d), (t, e) = state(got), state(want)
        oblige("old sections keep their addresses", wrap(s) == t)
        same("old sections keep their bytes", d, e)

    side(old)


def rejected(join):
    def harness(c):
        a, b = Sections("before"), Sections("after")
        xs, xd = input_int("x_start", 0), input_bytes("x_data")
        start, data = input_int("start", 0), input_bytes("data")
        assume(land(start < xs + xd.length(), xs < start + data.length(), xd.length() > 0, data.length() > 0))
        ordered(a)
        ordered(b)
        every(0, a.n, lambda j: a.end(j) <= xs)
        every(0, b.n, lambda j: b.start(j) >= xs + xd.length())
        from objutils.section import Section

        from .common import call

        x = call(Section, [xs, VBuf(xd)])
        seq = Seq([a.gen, [x], b.gen])
        img = image_of(seq)
        cell = sections_cell(img)
        ok, r = method(img, "insert_section", VBytes(data), start, **({} if join is None else {"join": join}))
        refused("inserting data at an address that is held raises InvalidAddressError", ok, r, InvalidAddressError)
        cover("rejected")
        oblige("a rejected insertion leaves the image's sections", sections_cell(img) is cell and cell.seq is seq)
        s, d = state(x)
        oblige("a rejected insertion leaves the start addresses", wrap(s) == xs)
        same("a rejected insertion leaves the bytes", d, xd)

    return harness


def consecutive(c):
    """The default address: directly behind the previous insertion; 0 in a new image; not moved by a rejected insertion."""
    ok, img = attempt(Image)
    oblige("an image can be created", ok, why(img))
    oblige("a new image is empty", wrap(sections_cell(img).seq.length()) == 0)
    d1, d2, d3 = input_bytes("d1"), input_bytes("d2"), input_bytes("d3")
    assume(land(d1.length() > 0, d2.length() > 0, d3.length() > 0))
    gap = input_int("gap", 1)
    ok, r = method(img, "insert_section", VBytes(d1), join=False)
    oblige("inserting into free space does not raise", ok, why(r))
    n1 = d1.length()
    at2 = n1 + gap
    ok, r = method(img, "insert_section", VBytes(d2), at2, join=False)
    oblige("inserting into free space does not raise", ok, why(r))
    if c.choose(2):
        ok, r = method(img, "insert_section", VBytes(d3), 0, join=False)
        refused("inserting data at an address that is held raises InvalidAddressError", ok, r, InvalidAddressError)
        cover("rejected in between")
    ok, r = method(img, "insert_section", VBytes(d3), join=False)
    oblige("inserting behind the previous section does not raise", ok, why(r))
    cover("consecutive")
    want = [(0, d1), (at2, d2), (at2 + d2.length(), d3)]
    res = sections_cell(img).seq
    oblige("each insertion adds one section", wrap(res.length()) == 3)
    for k, (st, d) in enumerate(want):
        s, got = state(res.get(k))
        oblige(f"section {k} starts where expected", wrap(s) == st)
        same(f"section {k} holds its data", got, d)


def replay(kind, join, held):
    def case(i):
        secs = i["before"] + ([[i["x_start"], i["x_data"]]] if held else []) + i["after"]
        if not disjoint(secs):
            return None
        ops = [[s, hx(d), False] for s, d in secs if d] + [[i["start"], hx(i["data"]), join is not False], [None, "7e", False]]
        return dict(ops=ops, kind=kind)

    return case


def tasks():
    ts = []
    for kind in KINDS:
        for join in (False, None, True) if kind == "bytes" else (None,):
            ts.append(Task(f"Image.insert_section: free, {kind}, join={join}", accepted(kind, join), covers=("inserted",), loops=[hook(box)], contracts={join_sections: contract(box)}, replay=replay(kind, join, False)))
    for join in (False, None, True):
        ts.append(Task(f"Image.insert_section: held, join={join}", rejected(join), covers=("rejected",), replay=replay("bytes", join, True)))
    ts.append(Task("Image.insert_section: default address", consecutive, covers=("consecutive", "rejected in between"), replay=lambda i: dict(ops=[[None, hx(i["d1"]), False], [len(i["d1"]) + i["gap"], hx(i["d2"]), False], [None, hx(i["d3"]), False]])))
    return ts
