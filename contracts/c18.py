"""C18: hexdump.

  row         for a row of any bytes (1 up to a full row) at any address: one line with the address (modulo 2**32), two digits per
              byte and a character per byte
  data        dump_data of a section of any start and content, dump_row by its contract: the rows in order at their addresses, one
              left out only where it equals the row before it and then marked; the byte count at the end
  section     Section.hexdump is that dump, by a new dumper
  image       Image.hexdump has the dumps of all its sections in order
"""

from pyvc import folds, text
from pyvc.core import Unsupported
from pyvc.heap import VFile, VSink
from pyvc.models import add_index, seq_eq
from pyvc.values import imin

from .codec import arbitrary_image
from .common import (
    Seq,
    Task,
    VBytes,
    VBuf,
    assume,
    call,
    concrete_value,
    cover,
    ctx,
    fresh_int,
    get_attr,
    hx,
    idiv,
    implies,
    land,
    lnot,
    lor,
    input_bytes,
    input_int,
    method,
    oblige,
    same,
    sections_cell,
    side,
    state,
    term,
    to_seq,
    truth,
    why,
    wrap,
)


ROW = 16


def t_row(kind):
    def h(c):
        from objutils.hexdump import CanonicalDumper

        n = 1 + c.choose(ROW)
        d = Seq([[input_int(f"byte{k}", 0, 255) for k in range(n)]])
        a = input_int("address", 0)
        fp = VFile("", text=True)
        ok, r = method(call(CanonicalDumper, [fp]), "dump_row", kind(d), a)
        oblige("printing a row does not raise", ok, why(r))
        cover("row")
        s = fp.raw()[0]
        oblige("a row is one line", text.endswith(s, "\n"))
        at = 0
        for p in text.pieces(s):
            if isinstance(p, str) and "|" in p:
                at = at + p.index("|")
                break
            at = at + text.plen(p)
        words = to_seq(text.method(text.sub(s, 0, at), "split", [], {})).concrete()
        if words is None:
            raise Unsupported("words of a row")
        oblige("a row shows its address and its bytes", len(words) == n + 1)
        oblige("a row shows its address", land(text.parse_int(words[0], 16) == a % (1 << 32), wrap(text.length(words[0])) >= 8))
        for k in range(n):
            oblige("a byte is shown with two digits", wrap(text.length(words[k + 1])) == 2)
            oblige("a byte is shown at its place", text.parse_int(words[k + 1], 16) == d.get(k))
        cs = text.codes(text.sub(s, at, text.length(s))).concrete()
        if cs is None:
            raise Unsupported("characters of a row")
        oblige("a row ends with its characters", len(cs) == ROW + 3 and [cs[0], cs[-2], cs[-1]] == [ord("|"), ord("|"), ord("\n")])
        for k in range(n):
            b, ch = d.get(k), wrap(cs[k + 1])
            plain = land(b >= 0x20, b < 0x7F)
            oblige("a printable byte is shown as its character", implies(plain, ch == b))
            oblige("a dot is shown for other bytes", implies(lnot(plain), lor(ch == ord("."), land(b == 0x7F, ch == b))))

    return h


def t_data(kind):
    def h(c):
        from objutils.hexdump import CanonicalDumper
        from objutils.section import Section

        d = input_bytes("data")
        n = wrap(d.length())
        assume(n >= 1)
        a = input_int("start", 0)
        fp = VSink()
        sec = call(Section, [a, kind(d)])
        ok, r = method(call(CanonicalDumper, [fp]), "dump_data", sec)
        oblige("printing a dump does not raise", ok, why(r))
        oblige("a dump leaves the section as it is", land(wrap(state(sec)[0]) == a, same_seq(state(sec)[1], d)))
        cover("dumped")
        read_dump(fp.seq, a, d, n)

    return h


def same_seq(x, y):
    return truth(seq_eq(x, y))


def row_at(d, n, k):
    """Row k of the data."""
    return d.slice(k * ROW, imin(n, k * ROW + ROW))


def repeats(d, n, k):
    """Row k equals the row before it."""
    oblige("the first row is not elided", k >= 1)
    same("an elided row equals the row before it", row_at(d, n, k), row_at(d, n, k - 1))


def is_star(e):
    return isinstance(e, str) and e.strip() == "*"


def shown(e, a, d, n, k):
    """The event shows row k."""
    oblige("a row is shown at its address", wrap(e[0]) == a + k * ROW)
    same("a row shows its bytes", e[1], row_at(d, n, k))


def read_dump(out, a, d, n):
    """What is printed: the rows in order, elided only where they equal the row before, and the byte count at the end."""
    nxt = 0  # the rows before this one are accounted for

    def star():  # has the elision at hand been marked?
        return False

    count = None
    for g in out.segs:
        if not isinstance(g, list):
            if not isinstance(g, folds.Flat):
                g = folds.Flat(g.length, lambda i, g=g: Seq([[g.at(i)]]))
            base = nxt

            def row(g=g, base=base, before=star):
                i = fresh_int("row", 0)
                assume(i < g.count)
                xs = g.row(i).concrete()
                if xs is None or len(xs) > 1:
                    raise Unsupported("output for a row")
                if xs and isinstance(xs[0], tuple):
                    shown(xs[0], a, d, n, base + i)
                    return
                repeats(d, n, base + i)
                if xs:
                    oblige("an elision is marked", is_star(xs[0]))
                elif truth(i >= 1):
                    ys = g.row(i - 1).concrete()
                    oblige("an elision is marked", ys is not None and (not ys or is_star(ys[0])))
                else:
                    oblige("an elision is marked", before())

            side(row)
            nxt = base + wrap(g.count)

            def star(g=g, before=star):  # noqa: F811
                if not truth(wrap(g.count) >= 1):
                    return before()
                ys = g.row(wrap(g.count) - 1).concrete()
                return ys is not None and (not ys or is_star(ys[0]))

            continue
        for e in g:
            if isinstance(e, tuple):
                gap = concrete_value(idiv(wrap(e[0]) - a, ROW) - nxt)
                if gap is None:
                    raise Unsupported("rows without output")
                for _ in range(gap):
                    repeats(d, n, nxt)
                    oblige("an elision is marked", star())
                    nxt = nxt + 1
                shown(e, a, d, n, nxt)
                nxt = nxt + 1

                def star():  # noqa: F811
                    return False

            elif is_star(e):

                def star():  # noqa: F811
                    return True

            elif isinstance(e, str) and not e.strip("-\n"):
                continue
            else:
                ws = to_seq(text.method(e, "split", [], {})).concrete()
                if ws is None or len(ws) != 2 or ws[1] != "bytes" or count is not None:
                    raise Unsupported("end of the dump")
                count = text.parse_int(ws[0], 10)
    oblige("the rows cover the section", land(nxt * ROW >= n, nxt * ROW - ROW < n))
    if count is None:
        oblige("the byte count is printed", False)
    else:
        oblige("the byte count is the section's length", wrap(count) == n)


def record_row(self, row, address):
    fp = get_attr(self, "_fp")
    fp.set(fp.seq + Seq([[(address, to_seq(row))]]))


def t_section(c):
    """A section's hexdump is the dump of its data by a new dumper (nothing carried over)."""
    from objutils.section import Section

    d = input_bytes("data")
    fp = VSink()
    sec = call(Section, [input_int("start", 0), VBuf(d)])
    ok, r = method(sec, "hexdump", fp)
    oblige("printing a dump does not raise", ok, why(r))
    cover("dumped")
    xs = fp.seq.concrete()
    oblige("a section is dumped once", xs is not None and len(xs) == 1)
    who, fresh = xs[0]
    oblige("a section dumps itself", who is sec)
    oblige("a dump starts with a new dumper", fresh)


def record_dump(self, section, offset=0):
    fp = get_attr(self, "_fp")
    prev, elided = get_attr(self, "previous_row"), get_attr(self, "elided")
    fp.set(fp.seq + Seq([[(section, prev == b"" and elided is False)]]))


def t_image(c):
    """An image's hexdump has the dumps of its sections in order."""
    a, img = arbitrary_image("image")
    fp = VSink()
    ok, r = method(img, "hexdump", fp)
    oblige("printing a dump does not raise", ok, why(r))
    if not truth(a.n >= 1):
        cover("empty")
        return
    cover("dumped")
    if len(fp.seq.segs) != 1 or isinstance(fp.seq.segs[0], list):
        raise Unsupported("shape of the dump")
    cell = to_seq(sections_cell(img))

    def one():
        i = fresh_int("sec", 0)
        assume(i < a.n)
        add_index(i)
        g = fp.seq.segs[0]
        if isinstance(g, folds.Flat):
            oblige("every section is dumped", wrap(g.count) == a.n)
            xs = g.row(i).concrete()
        else:
            m = concrete_value(idiv(wrap(g.length), a.n)) or next((m for m in range(1, 9) if g.length is a.n or ctx().proves(term(g.length) == m * term(a.n))), None)
            if m is None:
                raise Unsupported("output for a section")
            xs = [g.at(i * m + k) for k in range(m)]
        if xs is None:
            raise Unsupported("output for a section")
        mine = [x for x in xs if isinstance(x, tuple)]
        oblige("a section is dumped once", len(mine) == 1)
        s, b = state(mine[0][0])
        oblige("the sections are dumped in order", wrap(s) == a.start(i))
        same("a section's own bytes are dumped", b, a.bytes(i))
        for x in xs:
            if not isinstance(x, tuple):
                oblige("nothing that looks like a row comes between", not any(isinstance(p, str) and "|" in p for p in text.pieces(x)))

    side(one)


def record_section(self, fp=None):
    fp.set(fp.seq + Seq([[(self,)]]))


def tasks():
    from objutils.hexdump import CanonicalDumper
    from objutils.section import Section

    rows = {CanonicalDumper.dump_row: record_row}
    out = [Task("row", t_row(VBytes), covers=("row",)), Task("row (bytearray)", t_row(VBuf), covers=("row",))]
    out.append(Task("data", t_data(VBuf), covers=("dumped",), contracts=rows, replay=lambda i: dict(secs=[[i["start"], hx(i["data"])]], image=False)))
    out.append(Task("section", t_section, covers=("dumped",), contracts={CanonicalDumper.dump_data: record_dump}))
    out.append(Task("image", t_image, covers=("dumped", "empty"), contracts={Section.hexdump: record_section}))
    return out
