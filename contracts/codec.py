"""Record formats (C07-C10, C12, C13, C20): contracts of the writers and readers.

A file is the header, the records of the rows and the footer, one per line; rows are what Writer.dumps cuts the sections into.
  load     for every number of rows A_0/D_0, A_1/D_1, ... in address order and without overlap: the real reader, given the lines the
           real writer composes for them, makes exactly the sections (A_k, D_k), in order, and joins them (join_sections by its contract, C06)
  record   the text of a row is the record the format prescribes: type, length, address, data and checksum
"""

from pyvc import folds, loops, text
from pyvc.heap import VFile, set_attr
from pyvc.interp import Env, ProgExc
from pyvc.core import Unsupported
from pyvc.models import add_index, get_item, m_len
from pyvc.values import Gen, imin, ite

from . import c06
from .common import (
    Sections,
    Seq,
    SInt,
    Task,
    VBuf,
    VBytes,
    VList,
    assume,
    attempt,
    boolterm,
    call,
    concrete_value,
    cover,
    ctx,
    disjoint,
    every,
    fresh_int,
    get_attr,
    hx,
    idiv,
    image_of,
    imod,
    input_bytes,
    input_int,
    land,
    lor,
    method,
    oblige,
    same,
    sections_cell,
    side,
    state,
    to_seq,
    truth,
    v_eq,
    why,
    wrap,
)

BITS = dict(srec=32, ihex=32, tek=16, etek=20, mostec=16, sig=16, emon52=16, fpc=16, titxt=16, ash=16, rca=16, cosmac=16)
MAXROW = dict(srec=250, ihex=255, tek=255, mostec=255, sig=255, emon52=255, etek=122, fpc=251, ash=4096, titxt=4096, rca=4096, cosmac=4096)


# -- contracts of the checksum functions (proved for every frame of bytes in C14) -------------------------------------------


def bytes_only(seq):
    """Precondition of the checksum contracts: the elements are bytes."""
    from pyvc.values import bounds

    for g in seq.segs:
        xs = g if isinstance(g, list) else [g.at(fresh_int("ck", 0))]
        for x in xs:
            lo, hi = bounds(x) if not isinstance(x, bool) else (0, 1)
            if lo is None or lo < 0 or hi is None or hi > 255:
                ctx().oblige("precondition of the checksum: elements are bytes", boolterm(land(wrap(x) >= 0, wrap(x) <= 255)), soft=True)
    return seq


def frame(v):
    from pyvc.core import Unsupported

    try:
        return bytes_only(to_seq(v))
    except AttributeError:
        raise Unsupported("checksum of an unknown object") from None


class Digits(Gen):
    """The bytes of a number, most significant first, without leading zeros; wide: the same with leading zeros."""

    __slots__ = ("wide",)


WIDE = 4


def digits_of(v):
    """int_to_array by contract (see t_digits)."""
    v = wrap(v)
    ctx().oblige("precondition of int_to_array: 32 bits", boolterm(land(v >= 0, v < 1 << 8 * WIDE)), soft=True)
    wide = [imod(idiv(v, 1 << 8 * (WIDE - 1 - i)), 256) for i in range(WIDE)]
    count = ite(v < 1 << 8, 1, ite(v < 1 << 16, 2, ite(v < 1 << 24, 3, 4)))
    return wide, count


def spec_digits(value):
    from pyvc.values import concrete_value

    n = concrete_value(value)
    if n is not None:
        if n < 0:
            raise Unsupported("bytes of a negative number")
        return VList(Seq.lit(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")))
    wide, count = digits_of(value)

    def at(i):
        k = wrap(count) - 1 - i
        return ite(k == 0, wide[3], ite(k == 1, wide[2], ite(k == 2, wide[1], wide[0])))

    g = Digits(count, at)
    g.wide = wide
    ctx().run.functions.add("utils.int_to_array (by contract, see 'bytes of a number')")
    return VList(Seq([g]))


def leading(seq, anywhere):
    """Leading zeros change no sum; nor a rotated XOR (of zero) when nothing stands before them."""
    if anywhere:
        return Seq([g.wide if isinstance(g, Digits) else g for g in seq.segs])
    if seq.segs and isinstance(seq.segs[0], Digits):
        return Seq([seq.segs[0].wide] + list(seq.segs[1:]))
    return seq


def t_digits(c):
    from objutils.utils import int_to_array

    v = input_int("value", 0, (1 << 8 * WIDE) - 1)
    r = to_seq(call(int_to_array, [v]))
    wide, count = digits_of(v)
    n = concrete_value(r.length())
    if n is None or n > WIDE:
        oblige("a number has as many bytes as digits", wrap(r.length()) == count)
        raise Unsupported("number of digits")
    cover(f"{n} bytes")
    oblige("a number has as many bytes as digits", wrap(count) == n)
    for i in range(n):
        oblige("every digit is a byte of the number", wrap(r.get(i)) == wide[WIDE - n + i])
    for i in range(WIDE - n):
        oblige("the digits left out are zero", wrap(wide[i]) == 0)


def spec_lrc(frame_, width, comp=0):
    s = folds.seq_sum(leading(to_seq(frame_), True))
    m = 1 << width
    r = imod(wrap(s), m)
    c = int(comp)
    ctx().run.functions.add("checksums.lrc (by contract, see C14)")
    return r if c == 0 else m - 1 - r if c == 1 else imod(-wrap(s), m)


def spec_nibble_sum(frame_):
    s = 0
    for g in leading(frame(frame_), True).segs:
        if isinstance(g, list):
            for x in g:
                s = s + idiv(wrap(x), 16) + imod(wrap(x), 16)
        else:
            s = s + folds.gen_sum(type(g)(g.length, lambda i, g=g: idiv(wrap(g.at(i)), 16) + imod(wrap(g.at(i)), 16)))
    ctx().run.functions.add("checksums.nibble_sum (by contract, see C14)")
    return imod(wrap(s), 256)


def rol8(v):
    return imod(wrap(v), 128) * 2 + idiv(wrap(v), 128)


def spec_rotated(frame_, width, direction):
    from objutils.checksums import ROTATE_LEFT
    from pyvc.core import Unsupported

    if direction is not ROTATE_LEFT and direction != ROTATE_LEFT:
        raise Unsupported("rotation to the right")
    ctx().run.functions.add("checksums.rotatedXOR (by contract, see C14)")
    r = folds.fold_over(leading(frame(frame_), False), 0, lambda a, x: rol8(wrap(a) ^ x), 0, 255)
    return imod(wrap(r), 1 << width)


def join_spec(log):
    """join_sections by its contract (C06); log: (sections in, sections out)."""
    base = c06.contract([])

    def spec(cell):
        seq = cell.seq
        res = base(cell)
        out = res.seq
        if out.segs:
            n = out.length()
            a = out.segs[0]

            def order(j):
                (s, d), (t, _) = state(a.at(j - 1)), state(a.at(j))
                return s + to_seq(d).length() < t

            every(1, n, order)
        log.append((seq, out))
        return res

    return spec


# -- the coding of four-packed-code lines ------------------------------------------------------------------------------------


def quint_code(v, k):
    """Character k of a number's quintuple: a digit to the base 85, most significant first; the characters from % on, without *."""
    d = imod(idiv(wrap(v), 85 ** (4 - k)), 85)
    return wrap(d) + 37 + ite(wrap(d) >= 5, 1, 0)


QUINT = text.Coding("quintuple", 5, 37, 122, quint_code)


def quint_write(self, value):
    v = wrap(value)
    ctx().oblige("precondition of the quintuple coding: 32 bits", boolterm(land(v >= 0, v < 1 << 32)), soft=True)
    ctx().run.functions.add("fpc.Writer.convert_quintuple (by contract, see 'quintuples')")
    n = concrete_value(value)
    if n is not None:
        return "".join(chr(quint_code(n, k)) for k in range(5))
    return text.blocks(QUINT, Seq([[value]]))


def quint_read(self, quintuple):
    s = text.as_text(quintuple)
    ctx().run.functions.add("fpc.Reader.convert_quintuple (by contract, see 'quintuples')")
    if isinstance(s, str) and len(s) == 5 and all(37 <= ord(ch) < 123 and ch != "*" for ch in s):
        r = 0
        for ch in s:
            d = ord(ch) - 37
            r = 85 * r + d - (d > 5)
        return r
    ps = text.pieces(s)
    if len(ps) == 1 and isinstance(ps[0], text.Blocks) and ps[0].coding is QUINT and text.same(ps[0].seq.length(), 1):
        return ps[0].seq.get(0)
    raise Unsupported(f"quintuple of unknown characters {ps}")


def t_quintuple(c):
    C = codec("fpc")
    v = input_int("value", 0, (1 << 32) - 1)
    ok, q = method(call(C.Writer, []), "convert_quintuple", v)
    oblige("a number is coded", ok, why(q))
    cover("coded")
    oblige("a quintuple has five characters", wrap(text.length(q)) == 5)
    if not text.same(text.length(q), 5):
        raise Unsupported("length of a quintuple")
    for k in range(5):
        oblige("every character of a quintuple is a digit's", wrap(text.code_at(q, k)) == quint_code(v, k))
    r = call(C.Reader, [])
    poison(r)
    ok, got = method(r, "convert_quintuple", text.encode(q, "ascii"))
    oblige("a quintuple is decoded", ok, why(got))
    oblige("decoding a quintuple gives the number back", wrap(got) == v)


CODED = text.Coding("coded lines", 1, 10, 122, lambda v, k: v)


def groups_only(line):
    """Is the line made of upper-case hexadecimal digits, eight to a group?"""
    for p in text.pieces(line):
        if isinstance(p, str):
            ok = all(ch in "0123456789ABCDEF" for ch in p)
        else:
            ok = isinstance(p, (text.Hex, text.HexSeq)) and p.upper and not getattr(p, "sep", "")
        oblige("precondition of the coding of lines: upper-case hexadecimal digits", ok, repr(line)[:200])
    oblige("precondition of the coding of lines: groups of eight digits", imod(wrap(text.length(line)), 8) == 0)


def code_lines(self, data):
    """post_processing by its contract."""
    c = ctx()
    t = text.as_text(data)
    for g in text.lines(t).segs:
        if isinstance(g, list):
            for x in g:
                groups_only(x)
            continue
        if not isinstance(g, Gen):
            raise Unsupported("lines of an unknown form")

        def one(g=g):
            i = fresh_int("cl", 0)
            assume(i < g.length)
            x = g.at(i)
            if text.endswith(x, "\n"):
                x = text.get_slice(x, 0, text.length(x) - 1)
            groups_only(x)

        side(one)
    if text.endswith(t, "\n"):
        raise Unsupported("an empty last line")
    from pyvc.values import new_fun, term

    n = fresh_int("coded", 1)
    f = new_fun("coded", 1, 10, 122)
    c.run.functions.add("fpc.Writer.post_processing (by contract, see 'coding of lines')")
    r = text.VEnc(text.blocks(CODED, Seq([Gen(n, lambda i: SInt(f(term(i)), 10, 122))])))
    c.user["coded"] = (r.s, t)
    return r


def decode_lines(self, fp):
    """decode by its contract: what was coded."""
    c = ctx()
    if not isinstance(fp, VFile) or "coded" not in c.user:
        raise Unsupported("decoding of an unknown file")
    content, pos = fp.raw()[:2]
    s, t = c.user["coded"]
    if not isinstance(content, text.VEnc) or concrete_value(pos) != 0 or text.pieces(content.s) != text.pieces(s):
        raise Unsupported("decoding of other lines than those coded")
    fp.set((content, m_len(content), fp.raw()[2]))
    c.run.functions.add("fpc.Reader.decode (by contract, see 'coding of lines')")
    return t


def t_coding(c):
    from pyvc.values import new_fun, term

    C = codec("fpc")
    n = input_int("lines", 1)
    m = new_fun("quads", 1, 1)
    f = new_fun("quad_byte", 2, 0, 255)

    def row(i):
        return Gen(SInt(m(term(i)), 1) * 4, lambda j: SInt(f(term(i), term(j)), 0, 255))

    rows_ = Gen(n, lambda i: text.hexrun(Seq([row(i)]), "", True))
    last = c.choose(2) == 1  # the footer
    data = text.join("\n", VList(Seq([rows_] + ([["00000000"]] if last else []))))
    ok, coded = method(call(C.Writer, []), "post_processing", text.encode(data, "ascii"))
    oblige("lines are coded", ok, why(coded))
    r = call(C.Reader, [])
    poison(r)
    ok, t = method(r, "decode", VFile(coded))
    oblige("coded lines are decoded", ok, why(t))
    cover("decoded")
    got = text.lines(text.concat([t, "\n"]), keepends=False)
    oblige("as many lines are decoded as were coded", wrap(got.length()) == n + last)
    if not text.same(got.length(), n + last):
        raise Unsupported("number of decoded lines")
    oblige("no line break is added or lost at the end", not text.endswith(t, "\n"))

    def one():
        i = fresh_int("line", 0)
        assume(i < n)
        add_index(i)
        x = got.get(i)
        ps = text.pieces(x)
        if len(ps) != 1 or not isinstance(ps[0], text.HexSeq):
            raise Unsupported("form of a decoded line")
        oblige("the digits are upper case", ps[0].upper and not ps[0].sep)
        same("a decoded line is the line that was coded", ps[0].seq, Seq([row(i)]))

    side(one)
    if last:
        oblige("the footer is decoded", text.eq(got.get(n), "00000000"))


def quintuples():
    F = codec("fpc")
    return {F.Writer.convert_quintuple: quint_write, F.Reader.convert_quintuple: quint_read}


def task_coding(replay=False):
    def quint(i):
        return [dict(codec="fpc", secs=[[0x100, i["value"].to_bytes(4, "big").hex() * 2]], row=16)]

    return [Task("quintuples", t_quintuple, covers=("coded",), replay=quint if replay else None), Task("coding of lines", t_coding, covers=("decoded",), contracts=quintuples())]


def join_any(log):
    def spec(cell):
        log.append((cell.seq, cell.seq))
        return VList(Seq())

    return spec


def contracts(log, join=None):
    import objutils.checksums as cs
    from objutils.section import join_sections
    from objutils.utils import int_to_array

    F = codec("fpc")
    return {F.Writer.post_processing: code_lines, F.Reader.decode: decode_lines, int_to_array: spec_digits, cs.lrc: spec_lrc, cs.nibble_sum: spec_nibble_sum, cs.rotatedXOR: spec_rotated, join_sections: (join or join_spec)(log)}


def codec(name):
    from objutils import registry

    return registry.get(name)


# -- files --------------------------------------------------------------------------------------------------------------------


def rows(name, fmt):
    top = 1 << BITS[fmt]
    a = Sections(name, top=top - 1, minlen=1, maxlen=MAXROW[fmt])
    assume(a.n >= 1)
    add_index(a.n - 1)
    every(1, a.n, lambda j: a.end(j - 1) <= a.start(j))
    every(0, a.n, lambda j: a.end(j) <= top)
    every(0, a.n, lambda j: a.end(j) <= a.end(a.n - 1))  # by induction from the order
    return a


def parts(w, a, meta=None):
    """Header, rows and footer w writes for the rows a."""
    meta = meta if meta is not None else {}
    if "row_length" in w.__dict__:  # what dumps keeps of its argument (see t_dumps): no row is longer
        rl = input_int("row_length", 1, a.maxlen)
        every(0, a.n, lambda j: a.length(j) <= rl)
        set_attr(w, "row_length", rl)
    img = image_of(Seq([a.gen]), join=False)
    ok, r = method(w, "pre_processing", img)
    oblige("pre_processing does not raise", ok, why(r))
    ok, head = method(w, "compose_header", meta)
    oblige("compose_header does not raise", ok, why(head))
    out = VList()

    def one(i):
        s, d = state(a.at(i))
        d = to_seq(d)
        r = call(get_attr(w, "compose_row"), [s, d.length(), VList(d)])
        out.set(out.seq + Seq([[r]]))

    loops.sym_loop(0, a.n, one, Env({}, None, "<rows>"))
    ok, foot = method(w, "compose_footer", meta)
    oblige("compose_footer does not raise", ok, why(foot))
    return head, out.seq, foot


def written(w, head, body, foot):
    """The file they make."""
    lines = Seq([[head]] if truth(head) else []) + body + Seq([[foot]] if truth(foot) else [])
    data = text.encode(text.join("\n", VList(lines)), "ascii")
    ok, data = method(w, "post_processing", data)
    oblige("post_processing does not raise", ok, why(data))
    return data


def composed(w, a, meta=None):
    """The file w writes for the rows a."""
    return written(w, *parts(w, a, meta))


def t_load(fmt, log, how="bytes"):
    def h(c):
        log.clear()
        C = codec(fmt)
        a = rows("rows", fmt)
        w = call(C.Writer, [])
        poison(w)
        data = composed(w, a)
        r = call(C.Reader, [])
        poison(r)
        if how == "bytes":
            ok, img = method(r, "loads", data)
        elif how == "text":
            ok, img = method(r, "loads", text.decode(data, "ascii"))
        elif how == "file":
            ok, img = method(r, "load", VFile(data))
        else:
            disk = c.user["vfs"] = Disk("source", data)
            ok, img = method(r, "load", "source")
            oblige("the file is opened once", disk.opened == 1)
        oblige("loading what the writer wrote does not raise", ok, why(img))
        cover("loaded")
        loaded(a, img, log)

    return h


def loaded(a, img, log):
    """img was joined from exactly the rows a."""
    oblige("the sections read are joined", len(log) >= 1)
    if not log:
        return
    got = log[0][0]

    def rows_read():
        oblige("as many sections are read as rows were written", wrap(got.length()) == a.n)
        i = fresh_int("row", 0)
        assume(i < a.n)
        add_index(i)
        s, d = state(got.get(i))
        oblige("every row is read at its address", wrap(s) == a.start(i))
        same("every row is read with its bytes", d, a.bytes(i))

    side(rows_read)

    def chained(x, y, nm):
        same_sections(nm, x, y)

    for (_, out), (inn, _) in zip(log, log[1:]):
        side(lambda out=out, inn=inn: chained(out, inn, "the joined sections are handed on"))
    side(lambda: chained(log[-1][1], to_seq(sections_cell(img)), "the image holds the joined sections"))


def same_sections(name, x, y):
    oblige(name + ": number", wrap(x.length()) == y.length())
    i = fresh_int("sec", 0)
    assume(i < x.length())
    (s, d), (t, e) = state(x.get(i)), state(y.get(i))
    oblige(name + ": address", wrap(s) == t)
    same(name + ": bytes", d, e)


# -- records ---------------------------------------------------------------------------------------------------------------------


class Fields:
    """A record read field by field."""

    def __init__(self, s, start):
        self.s, self.pos = s, len(start)
        oblige("a record starts with its mark", text.eq(text.get_slice(self.s, 0, self.pos), start), repr(s)[:200])

    def hex(self, width):
        p = self.pos
        self.pos += width
        return wrap(text.parse_int(text.get_slice(self.s, p, self.pos), 16))

    def data(self, after):
        """The bytes up to the last `after` characters."""
        p, n = self.pos, text.length(self.s)
        self.pos = concrete_value(n)
        d = to_seq(text.fromhex(text.get_slice(self.s, p, wrap(n) - after)))
        self.s = text.get_slice(self.s, wrap(n) - after, n)
        self.pos = 0
        return d

    def end(self):
        oblige("a record has nothing behind its checksum", wrap(text.length(self.s)) == self.pos)


def srecord(s, kind, width, data=True):
    """The fields of an S-Record: type `kind`, address of `width` bytes; (address, data)."""
    f = Fields(s, f"S{kind}")
    n = f.hex(2)
    address = f.hex(2 * width)
    d = f.data(2) if data else Seq()
    ck = f.hex(2)
    f.end()
    oblige("the length field is the number of bytes that follow", n == width + wrap(d.length()) + 1)
    total = n + byte_sum(address, width) + folds.seq_sum(d)
    oblige("the checksum is the ones' complement of the sum", ck == imod(-total - 1, 256))
    return address, d


def every_row(a, body, one):
    oblige("a record for each row", wrap(body.length()) == a.n)

    def row():
        i = fresh_int("row", 0)
        assume(i < a.n)
        add_index(i)
        cover("row")
        one(i, body.get(i))

    side(row)


SREC_WIDTH = {1: 2, 2: 3, 3: 4, 0: 2, 5: 2, 6: 3, 7: 4, 8: 3, 9: 2}


def t_srec_records(log, headed, given):
    """Every record the S-Record writer emits, with every option; and reading them back."""
    from objutils.hexfile import MetaRecord

    def h(c):
        log.clear()
        C = codec("srec")
        import objutils.srec as m

        a = rows("rows", "srec")
        w = call(C.Writer, [])
        poison(w)
        header = input_bytes("header", input_int("header_len", 1, 252)) if headed else None
        if header is not None:
            meta = {m.S0: [MetaRecord(m.S0, input_int("header_address", 0, 0xFFFF), VBytes(header))]}
        else:
            meta = {}
        if given:
            set_attr(w, "record_type", given)
            assume(a.end(a.n - 1) <= 1 << 8 * SREC_WIDTH[given])
        start = None
        if c.choose(2):
            start = input_int("start", 0, 0xFFFF)
            set_attr(w, "start_address", start)
        count = bool(c.choose(2))
        set_attr(w, "s5record", count)
        every(0, a.n, lambda j: a.start(j) >= j)  # by induction: no row is empty
        head, body, foot = parts(w, a, meta)
        last = a.end(a.n - 1) - 1
        kind = given or (1 if truth(last < 1 << 16) else 2 if truth(last < 1 << 24) else 3)

        def one(i, x):
            address, d = srecord(x, kind, SREC_WIDTH[kind])
            oblige("a row's record has its address", address == a.start(i))
            same("a row's record has its bytes", d, a.bytes(i))

        every_row(a, body, one)
        if header is not None:
            address, d = srecord(head, 0, 2)
            same("the header record has the header's text", d, header)
        else:
            oblige("no header record without a header", not truth(head))
        tail = text.lines(foot, keepends=False).concrete() if truth(foot) else []
        if tail is None:
            raise Unsupported("shape of the footer")
        if count and truth(a.n < 1 << 24):
            cover("counted")
            k = 5 if truth(a.n < 1 << 16) else 6
            oblige("the records are counted", len(tail) >= 1)
            n, _ = srecord(tail.pop(0), k, SREC_WIDTH[k], data=False)
            oblige("the count is the number of data records", n == a.n)
        if start is not None:
            cover("started")
            oblige("a start record ends the file", len(tail) == 1)
            s, _ = srecord(tail.pop(0), 10 - kind, SREC_WIDTH[kind], data=False)
            oblige("the start record has the start address", s == start)
        oblige("no other records", not tail)
        data = written(w, head, body, foot)
        r = call(C.Reader, [])
        poison(r)
        ok, img = method(r, "loads", data)
        oblige("loading what the writer wrote does not raise", ok, why(img))
        cover("loaded")
        loaded(a, img, log)
        if header is not None:
            back = to_seq(get_item(get_attr(img, "meta"), m.S0))
            oblige("one header record is kept", wrap(back.length()) == 1)
            same("the header record's text is kept", to_seq(get_attr(back.get(0), "chunk")), header)

    return h


def t_ihex_records(log):
    """Every record the Intel HEX writer emits."""

    def h(c):
        log.clear()
        C = codec("ihex")
        a = rows("rows", "ihex")
        w = call(C.Writer, [])
        poison(w)
        head, body, foot = parts(w, a)
        oblige("no header", not truth(head))

        def record(s):
            f = Fields(s, ":")
            n, address, kind = f.hex(2), f.hex(4), f.hex(2)
            d = f.data(2)
            ck = f.hex(2)
            f.end()
            oblige("the length field is the number of data bytes", n == wrap(d.length()))
            oblige("the checksum is the twos' complement of the sum", ck == imod(-(n + byte_sum(address, 2) + kind + folds.seq_sum(d)), 256))
            return kind, address, d

        def one(i, x):
            ls = text.lines(x, keepends=False).concrete()
            if ls is None or not 1 <= len(ls) <= 2:
                raise Unsupported("number of records of a row")
            base = None
            if len(ls) == 2:
                cover("extended")
                kind, address, d = record(ls[0])
                oblige("an extended address record", lor(kind == 2, kind == 4))
                oblige("with address zero", address == 0)
                oblige("with two bytes", wrap(d.length()) == 2)
                if not text.same(d.length(), 2):
                    raise Unsupported("extended address")
                base = (wrap(d.get(0)) * 256 + d.get(1)) * ite(kind == 2, 16, 1 << 16)
            kind, address, d = record(ls[-1])
            oblige("a data record", kind == 0)
            oblige("with the offset of the row's address", address == imod(a.start(i), 1 << 16))
            if base is not None:
                oblige("the extended address leads to the row's", base + address == a.start(i))
            same("with the row's bytes", d, a.bytes(i))

        every_row(a, body, one)
        end = text.strip(foot, "\n")
        oblige("the end-of-file record ends the file", text.eq(end, ":00000001FF"), repr(foot))
        data = text.as_text(written(w, head, body, foot))
        oblige("nothing follows the end-of-file record", text.endswith(data, ":00000001FF\n") or text.endswith(data, ":00000001FF\n\n"))

    return h


def task_records(fmt):
    out = []
    if fmt == "ihex":
        log = []
        return [Task("records ihex", t_ihex_records(log), covers=("row", "extended"), contracts=contracts(log), replay=roundtrip(fmt, "rows"))]
    for headed in (False, True):
        for given in range(4):
            log = []
            nm = "records srec" + ("/header" if headed else "") + (f"/S{given}" if given else "")
            out.append(Task(nm, t_srec_records(log, headed, given), seconds=200, covers=("row", "counted", "started", "loaded"), contracts=contracts(log), replay=roundtrip(fmt, "rows")))
    return out


# -- dumps ----------------------------------------------------------------------------------------------------------------------


def row_text(self, address, length, row):
    """compose_row returns some text; this one tells its arguments apart."""
    return text.concat(["r", text.SStr([text.Hex(wrap(address), 16, True)]), ":", text.SStr([text.Hex(wrap(length), 16, True)]), ":", text.SStr([text.HexSeq(frame(row), "", True)])])


def row_args(s):
    ps = [p for p in text.pieces(s) if not isinstance(p, str)]
    return ps[0].v, ps[1].v, ps[2].seq


def writer_contracts(fmt):
    W = codec(fmt).Writer

    def some(x):
        def part(self, meta):
            c = ctx()
            k = c.choose(3)
            c.user["parts"][x] = k == 0
            return [x, "", None][k]

        return part

    out = {W.compose_row: row_text, W.compose_header: some("H\n"), W.compose_footer: some("F"), W.pre_processing: lambda self, image: None, W.post_processing: lambda self, data: data}
    return out


def arbitrary_image(name, top=None, maxlen=None):
    a = Sections(name, minlen=1, top=top, maxlen=maxlen)
    add_index(a.n - 1)
    every(1, a.n, lambda j: a.end(j - 1) <= a.start(j))
    every(0, a.n, lambda j: a.end(j) <= a.end(a.n - 1))
    return a, image_of(Seq([a.gen]), join=False)


def t_dumps(fmt):
    from objutils.hexfile import AddressRangeToLargeError

    def h(c):
        C = codec(fmt)
        a, img = arbitrary_image("image")
        cell = sections_cell(img)
        c.user["parts"] = {"H\n": False, "F": False}
        w = call(C.Writer, [])
        poison(w)
        rl = input_int("row_length", 1, MAXROW[fmt])
        ok, r = method(w, "dumps", img, rl)
        oblige("dumping leaves the image as it is", cell is sections_cell(img) and to_seq(cell).segs == [a.gen])
        bits = BITS[fmt]
        if not ok:
            cover("refused")
            oblige("dumping raises nothing but the refusal", isinstance(r, AddressRangeToLargeError), why(r))
            oblige("only an image beyond the address range is refused", land(a.n >= 1, a.end(a.n - 1) > 1 << bits))
            return
        if not truth(a.n >= 1):
            cover("empty")
            oblige("nothing is written for an empty image", wrap(m_len(r)) == 0)
            return
        cover("dumped")
        oblige("an image beyond the address range is refused", a.end(a.n - 1) <= 1 << bits)
        if "row_length" in w.__dict__ and not truth(v_eq(get_attr(w, "row_length"), rl)):
            raise Unsupported("row_length of the writer is not the argument of dumps")
        ps = list(text.pieces(text.as_text(r)))
        while ps and isinstance(ps[-1], str) and ps[-1].endswith("\n"):
            ps[-1] = ps[-1][:-1]
        many = [p for p in ps if isinstance(p, text.Many)]
        head = "".join(p if isinstance(p, str) else "?" for p in ps[: ps.index(many[0])]) if many else "?"
        foot = "".join(p if isinstance(p, str) else "?" for p in ps[ps.index(many[0]) + 1 :]) if many else "?"
        if len(many) != 1 or many[0].sep != "\n" or not isinstance(many[0].gen, folds.Flat):
            raise Unsupported("shape of the dumped text")
        oblige("the header comes first, the footer last", (head, foot) in (("H\n\n", "\nF"), ("H\n\n", ""), ("", "\nF"), ("", "")), f"{head!r} {foot!r}")
        oblige("header and footer are written when there are any", (bool(head), bool(foot)) == (c.user["parts"]["H\n"], c.user["parts"]["F"]))
        g = many[0].gen
        oblige("the rows come section by section", wrap(g.count) == a.n)

        def row():
            i = fresh_int("sec", 0)
            assume(i < a.n)
            add_index(i)
            q = g.row(i)
            m = wrap(q.length())
            n = a.length(i)
            oblige("the rows cover the section", land((m - 1) * rl < n, n <= m * rl, m >= 1))
            k = fresh_int("row", 0)
            assume(k < m)
            s, length, data = row_args(q.get(k))
            oblige("a row stands at its address", wrap(s) == a.start(i) + k * rl)
            part = imin(rl, n - k * rl)
            oblige("a row has its length", wrap(length) == part)
            same("a row has its bytes", data, a.bytes(i).slice(k * rl, k * rl + part))

            if truth(k + 1 < m):
                oblige("the next row follows it", a.start(i) + k * rl + part == a.start(i) + (k + 1) * rl)
            else:
                oblige("the last row ends the section", a.start(i) + k * rl + part == a.end(i))
            oblige("a row has at least one byte and at most a row's length", land(part >= 1, part <= rl))

        side(row)

    return h


class Disk:
    """Files by name; records what is opened."""

    def __init__(self, name, old):
        self.name, self.old, self.file = name, old, None
        self.opened = 0

    def open(self, name, mode):
        if name != self.name or mode not in ("wb", "rb"):
            raise Unsupported(f"open({name!r}, {mode!r})")
        c = ctx()
        n = self.opened
        c.record(lambda: setattr(self, "opened", n), None)
        self.opened = n + 1
        self.file = VFile(VBytes(Seq()) if mode == "wb" else self.old)
        return self.file

    def content(self):
        return self.file.raw()[0] if self.opened else self.old


def t_dump(fmt, kind):
    from objutils.hexfile import AddressRangeToLargeError

    def h(c):
        C = codec(fmt)
        w = call(C.Writer, [])
        poison(w)
        old = input_bytes("old")
        disk = c.user["vfs"] = Disk("target", VBytes(old))
        data = input_bytes("dumped")
        c.user["dumps"] = (data, AddressRangeToLargeError("refused"))
        fp = "target" if kind == "name" else VFile(VBytes(Seq()))
        ok, r = method(w, "dump", fp, image_of(Seq(), join=False))
        if c.user.get("refused"):
            cover("refused")
            oblige("a refused dump is reported", not ok and r is c.user["dumps"][1], why(r))
            oblige("a refused dump does not touch the file", disk.opened == 0)
            if kind != "name":
                oblige("a refused dump writes nothing", to_seq(fp.raw()[0]).concrete() == [])
            return
        cover("written")
        oblige("dumping to a file does not raise", ok, why(r))
        if kind == "name":
            oblige("the file is opened once", disk.opened == 1)
            fp = disk.file
        same("the file holds what dumps returns", to_seq(fp.raw()[0]), data)

    return h


def dumps_outcome(w, image, *a, **kw):
    """dumps as dump may rely on it: it returns bytes or refuses."""
    c = ctx()
    data, exc = c.user["dumps"]
    c.user["refused"] = c.choose(2) == 1
    if c.user["refused"]:
        raise ProgExc(exc)
    return VBytes(data)


def poison(o):
    """Whatever an object has kept from earlier use is unavailable: every attribute its methods assign outside the constructor."""
    import ast
    import inspect
    import textwrap

    from pyvc.core import Unsupported
    from pyvc.heap import set_attr
    from pyvc.interp import Thunk

    names = set()
    for cls in type(o).__mro__:
        if not cls.__module__.startswith("objutils"):
            continue
        tree = ast.parse(textwrap.dedent(inspect.getsource(cls)))
        for f in ast.walk(tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name != "__init__":
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.args.args[0].arg if f.args.args else False:
                        names.add(x.attr)
    for nm in sorted(names):

        def fail(nm=nm):
            raise Unsupported(f"{nm} is used before the object has set it for this file")

        set_attr(o, nm, Thunk(fail))
    return names


def task_loads(fmt, ways=("bytes", "text", "file", "name"), replay=None):
    out = []
    for how in ways:
        log = []
        out.append(Task(f"load {fmt} ({how})", t_load(fmt, log, how), covers=("loaded",), contracts=contracts(log), replay=replay and replay(fmt, "rows")))
    return out


def task_dumps(fmt, replay=None):
    return [Task(f"dumps {fmt}", t_dumps(fmt), covers=("dumped", "refused", "empty"), contracts=writer_contracts(fmt), replay=replay and replay(fmt, "image"))]


def task_dump(fmt):
    return [Task(f"dump {fmt} ({kind})", t_dump(fmt, kind), covers=("written", "refused"), contracts={codec(fmt).Writer.dumps: dumps_outcome}) for kind in ("name", "file")]


def task_digits():
    return [Task("bytes of a number", t_digits, covers=tuple(f"{n} bytes" for n in range(1, WIDE + 1)))]


def tasks(names=None):
    out = task_digits()
    for fmt in names or BITS:
        out += task_dumps(fmt) + task_dump(fmt) + task_loads(fmt)
    return out + task_corrupt(LINE)


# -- corrupt records (C12) -----------------------------------------------------------------------------------------------------

H = lambda name, width: ("hex", name, width)  # noqa: E731
LINE = {
    "srec S1": ["S1", H("length", 2), H("address", 4), ("data", ""), H("checksum", 2)],
    "srec S2": ["S2", H("length", 2), H("address", 6), ("data", ""), H("checksum", 2)],
    "srec S3": ["S3", H("length", 2), H("address", 8), ("data", ""), H("checksum", 2)],
    "ihex": [":", H("length", 2), H("address", 4), "00", ("data", ""), H("checksum", 2)],
    "tek": ["/", H("address", 4), H("length", 2), H("addr_checksum", 2), ("data", ""), H("checksum", 2)],
    "sig": [":", H("address", 4), H("length", 2), H("addr_checksum", 2), ("data", ""), H("checksum", 2)],
    "etek": ["%", H("length", 2), "6", H("checksum", 2), H("address", 5), ("data", "")],
    "mostec": [";", H("length", 2), H("address", 4), ("data", ""), H("checksum", 4)],
    "fpc": [H("checksum", 2), H("length", 2), "0000", H("address", 8), ("data", "")],
    "emon52": [H("length", 2), " ", H("address", 4), ":", ("data", " "), " ", H("checksum", 4)],
}


def byte_sum(v, n):
    s = 0
    for k in range(n):
        s = s + imod(idiv(wrap(v), 1 << 8 * k), 256)
    return s


def big(v, n):
    return [imod(idiv(wrap(v), 1 << 8 * (n - 1 - k)), 256) for k in range(n)]


def rotated(seq):
    return folds.fold_over(seq, 0, lambda a, x: rol8(wrap(a) ^ x), 0, 255)


def agrees(kind, f, d):
    """The equations between the fields of a record and its data."""
    n = wrap(d.length())
    length, address, checksum = f["length"], f["address"], f["checksum"]
    if kind.startswith("srec"):
        w = {"1": 2, "2": 3, "3": 4}[kind[-1]]
        s = length + byte_sum(address, w) + folds.seq_sum(d)
        return [("length", length == n + w + 1), ("checksum", checksum == imod(-s - 1, 256))]
    if kind == "ihex":
        s = length + byte_sum(address, 2) + folds.seq_sum(d)
        return [("length", length == n), ("checksum", checksum == imod(-s, 256))]
    if kind == "tek":
        return [
            ("length", length == n),
            ("address checksum", f["addr_checksum"] == spec_nibble_sum(Seq([big(address, 2) + [length]]))),
            ("checksum", checksum == spec_nibble_sum(d)),
        ]
    if kind == "sig":
        return [
            ("length", length == n),
            ("address checksum", f["addr_checksum"] == rotated(Seq([big(address, 2) + [length]]))),
            ("checksum", checksum == rotated(d)),
        ]
    if kind == "etek":
        return [("length", length == 2 * (n + 5)), ("checksum", checksum == spec_nibble_sum(Seq([big(address, 3) + [6, length]]) + d))]
    if kind == "mostec":
        return [("length", length == n), ("checksum", checksum == imod(length + byte_sum(address, 2) + folds.seq_sum(d), 65536))]
    if kind == "emon52":
        return [("length", length == n), ("checksum", checksum == imod(wrap(folds.seq_sum(d)), 65536))]
    if kind == "fpc":
        used = length - 4
        oblige("the length of an accepted record is its data's without padding", land(used >= 0, used <= n, used > n - 4))
        s = length + byte_sum(address, 4) + folds.seq_sum(d.slice(0, used))
        return [("checksum", checksum == imod(-s, 256))]
    raise KeyError(kind)


class Lines:
    """Any number of records with arbitrary fields."""

    def __init__(self, kind, one=False):
        from pyvc.values import new_fun

        self.kind = kind
        self.tokens = LINE[kind]
        self.funs = {t[1]: (new_fun("line_" + t[1], 1, 0, 16 ** t[2] - 1), t[2]) for t in self.tokens if t[0] == "hex" and isinstance(t, tuple)}
        self.data = Sections("line", minlen=1, maxlen=None, known=False)
        self.n = self.data.n
        ctx().inputs["lines"] = ("records", self.n, {k: f for k, (f, _) in self.funs.items()}, self.data.f_len, self.data.f_byte)
        assume(self.n >= 1)
        add_index(self.n - 1)

    def fields(self, i):
        from pyvc.values import term

        return {k: SInt(f(term(i)), 0, 16**w - 1) for k, (f, w) in self.funs.items()}

    def line(self, i):
        f = self.fields(i)
        out = []
        for t in self.tokens:
            if isinstance(t, str):
                out.append(t)
            elif t[0] == "hex":
                out.append(text.fmt_hex(f[t[1]], t[2], True))
            else:
                out.append(text.hexrun(self.data.bytes(i), t[1], True))
        return text.concat(out)


def t_corrupt(kind, log):
    from objutils.hexfile import InvalidRecordChecksumError, InvalidRecordLengthError

    def h(c):
        log.clear()
        a = Lines(kind)
        r = call(codec(kind.split()[0]).Reader, [])
        poison(r)
        data = text.join("\n", VList(Seq([Gen(a.n, a.line)])))
        c.user["plain"] = data
        ok, img = method(r, "loads", b"$" if kind == "fpc" else text.encode(data, "ascii"))
        if not ok:
            cover("refused")
            oblige("a contradicting record raises the checksum or length error", isinstance(img, (InvalidRecordChecksumError, InvalidRecordLengthError)), why(img))
            return
        cover("accepted")
        oblige("the sections read are joined", len(log) >= 1)
        got = log[0][0]

        def one():
            i = fresh_int("line", 0)
            assume(i < a.n)
            add_index(i)
            f, d = a.fields(i), a.data.bytes(i)
            for nm, eq in agrees(kind, f, d):
                oblige(f"the {nm} of an accepted record agrees with it", eq)
            s, b = state(got.get(i))
            oblige("an accepted record is read at its address", wrap(s) == f["address"])
            same("an accepted record is read with its bytes", b, d if kind != "fpc" else d.slice(0, f["length"] - 4))

        oblige("every record read is accepted", wrap(got.length()) == a.n)
        side(one)

    return h


def task_corrupt(kinds):
    out = []
    for kind in kinds:
        log = []
        more = {}
        if kind == "fpc":  # the coding of the lines is undone before
            more[codec("fpc").Reader.decode] = lambda self, fp: ctx().user["plain"]
        out.append(Task(f"corrupt {kind}", t_corrupt(kind, log), covers=("accepted", "refused"), contracts={**contracts(log, join_any), **more}, replay=record_case(kind)))
    return out


# -- counter-models as inputs for the real code ------------------------------------------------------------------------------


def in_range(secs, fmt):
    return secs and disjoint(secs) and all(d for _, d in secs) and all(a >= 0 and a + len(d) <= 1 << BITS[fmt] for a, d in secs)


def roundtrip(fmt, key):
    """A case of bounded/codecs.py."""

    def replay(i):
        secs = i.get(key)
        row = i.get("row_length", MAXROW[fmt])
        if not in_range(secs, fmt) or not 1 <= row <= MAXROW[fmt]:
            return None
        case = dict(codec=fmt, secs=[[a, hx(d)] for a, d in secs], row=row)
        out = [case]
        if i.get("header") and len(i["header"]) <= 252:
            out.append({**case, "header": bytes(i["header"]).decode("latin1")})
        return out

    return replay


def ranged(fmt):
    """A case of bounded/c13.py."""

    def replay(i):
        secs = i.get("image")
        if not secs or not disjoint(secs) or not all(d for _, d in secs):
            return None
        return [dict(codec=fmt, secs=[[a, hx(d)] for a, d in secs], kind="image")]

    return replay


def record_case(kind):
    """A case of bounded/c12.py: one line of the counter-model."""

    def replay(i):
        out = []
        for fields, data in i.get("lines", []):
            if kind == "fpc" and len(data) % 4:  # not groups of four bytes
                continue
            s = ""
            for t in LINE[kind]:
                if isinstance(t, str):
                    s += t
                elif t[0] == "hex":
                    s += f"{fields[t[1]]:0{t[2]}X}"
                else:
                    s += t[1].join(f"{b:02X}" for b in data)
            out.append(dict(op="line", codec=kind.replace(" S", ""), line=s))
        return out

    return replay
