"""C11: raw binary and S-Hexdump.

  bin dumps   the dump is, for every section in order, the filler for every byte between it and the section before, then its bytes;
              that is the image from its lowest to its highest address
  bin load    arbitrary data at an arbitrary address is read as the one section (address, data)
  shf         the document written for an arbitrary image (32-bit addresses) has a block for every section with its address, length,
              SHA-1 and bytes; the reader, given the document, makes exactly these sections and joins them (C06)
  corrupt shf (C12) a block is loaded only if its length and checksum agree with its data
"""

import re
import types

from pyvc import folds, regex, text, xmltree
from pyvc.core import Unsupported
from pyvc.heap import VDict, VFile
from pyvc.models import add_index, m_len, seq_eq
from pyvc.values import Gen, SInt, term

from . import codec
from .common import (
    Seq,
    Task,
    VBytes,
    VBuf,
    assume,
    call,
    cover,
    ctx,
    disjoint,
    every,
    fresh_int,
    hx,
    input_bytes,
    input_int,
    method,
    oblige,
    same,
    sections_cell,
    side,
    state,
    to_seq,
    truth,
    why,
    wrap,
)


def cls(fmt):
    from objutils import binfile, shf

    return {"bin": binfile, "shf": shf}[fmt]


def t_bin_dumps(kind):
    def h(c):
        W = cls("bin").Writer
        a, img = codec.arbitrary_image("image")
        cell = sections_cell(img)
        w = call(W, [])
        codec.poison(w)
        if kind == "default":
            fill = 255
            ok, r = method(w, "dumps", img)
        else:
            fill = input_int("filler", 0, 255)
            ok, r = method(w, "dumps", img, fill if kind == "int" else VBytes(Seq([[fill]])))
        oblige("dumping leaves the image as it is", cell is sections_cell(img) and to_seq(cell).segs == [a.gen])
        oblige("dumping does not raise", ok, why(r))
        s = to_seq(r)
        if not truth(a.n >= 1):
            cover("empty")
            oblige("nothing is written for an empty image", wrap(s.length()) == 0)
            return
        cover("dumped")
        flat = [g for g in s.segs if isinstance(g, folds.Flat)]
        if len(flat) != 1 or s.segs[-1] is not flat[0] and len(s.segs) > 1:
            if not flat and not truth(a.n >= 2):
                same("the section's bytes are dumped", s, a.bytes(0))
                return
            raise Unsupported("shape of the dump")
        g = flat[0]
        first = Seq(s.segs[:-1])
        k = a.n - wrap(g.count)  # sections written before the rows
        k = 0 if text.same(k, 0) else 1 if text.same(k, 1) else None
        if k is None:
            raise Unsupported("number of parts")
        if k:
            same("the first section's bytes come first", first, a.bytes(0))
        else:
            oblige("nothing comes first", wrap(first.length()) == 0)

        def row():
            i = fresh_int("sec", 0)
            assume(i + k < a.n)
            j = i + k
            add_index(j)
            q = g.row(i)
            if not k and truth(j == 0):
                same("the first section's bytes come first", q, a.bytes(0))
                return
            add_index(j - 1)
            gap = a.start(j) - a.end(j - 1)
            oblige("a section's part is the gap and its bytes", wrap(q.length()) == gap + a.length(j))
            x = fresh_int("gap", 0)
            same("the gap is filled", q.slice(0, gap), Seq([Gen(gap, lambda x: fill)]))
            same("the section's bytes follow the gap", q.slice(gap, gap + a.length(j)), a.bytes(j))

        side(row)

    return h


def t_bin_bad(c):
    """No other filler is accepted."""
    a, img = codec.arbitrary_image("image")
    w = call(cls("bin").Writer, [])
    if c.choose(2):
        f = input_int("filler")
        assume((f < 0) | (f > 255))
        ok, r = method(w, "dumps", img, f)
    else:
        d = input_bytes("filler")
        assume(wrap(d.length()) != 1)
        ok, r = method(w, "dumps", img, VBytes(d))
    if truth(a.n >= 1):
        cover("refused")
        oblige("only a single byte is accepted as filler", not ok and isinstance(r, (TypeError, ValueError)), why(r))


def t_bin_load(how):
    def h(c):
        R = cls("bin").Reader
        d = input_bytes("data")
        r = call(R, [])
        codec.poison(r)
        default = how == "default"
        addr = 0 if default else input_int("address", 0)
        args = [] if default else [addr]
        if how in ("bytes", "default"):
            ok, img = method(r, "loads", VBytes(d), *args)
        elif how == "bytearray":
            buf = VBuf(d)
            ok, img = method(r, "loads", buf, *args)
        elif how == "file":
            ok, img = method(r, "load", VFile(VBytes(d)), *args)
        else:
            disk = c.user["vfs"] = codec.Disk("source", VBytes(d))
            ok, img = method(r, "load", "source", *args)
            oblige("the file is opened once", disk.opened == 1)
        oblige("loading raw data does not raise", ok, why(img))
        cover("loaded")
        secs = to_seq(sections_cell(img))
        oblige("raw data is one section", wrap(secs.length()) == 1)
        s, b = state(secs.get(0))
        oblige("raw data stands at the given address", wrap(s) == addr)
        same("raw data is loaded as it is", b, d)

    return h


def bin_case(kind):
    """A case of bounded/c11.py."""

    def replay(i):
        secs = i.get("image")
        if not secs or not disjoint(secs) or not all(d for _, d in secs) or secs[-1][0] - secs[0][0] > 1 << 22:
            return None
        f = i.get("filler", 255)
        return dict(op="bin", secs=[[a, hx(d)] for a, d in secs], filler={"default": None, "int": f, "bytes": {"b": f"{f:02x}"}}[kind], join=False)

    return replay


def load_case(i):
    return dict(op="load", data=hx(i["data"]), addr=i.get("address", 0)) if i.get("address", 0) >= 0 else None


def shf_case(i):
    secs = i.get("image")
    if not secs or not disjoint(secs) or not all(d for _, d in secs) or secs[-1][0] + len(secs[-1][1]) > 1 << 32:
        return None
    return dict(op="shf", secs=[[a, hx(d)] for a, d in secs])


def tasks_bin():
    out = [Task(f"bin dumps ({k})", t_bin_dumps(k), covers=("dumped", "empty"), replay=bin_case(k)) for k in ("default", "int", "bytes")]
    out.append(Task("bin dumps (bad filler)", t_bin_bad, covers=("refused",)))
    return out + [Task(f"bin load ({k})", t_bin_load(k), covers=("loaded",), replay=load_case) for k in ("bytes", "bytearray", "default", "file", "name")]


# -- S-Hexdump ------------------------------------------------------------------------------------------------------------------


def t_shf_trip(log, how="bytes"):
    def h(c):
        log.clear()
        C = cls("shf")
        a, img = codec.arbitrary_image("image", top=(1 << 32) - 1, maxlen=1 << 32)
        every(0, a.n, lambda j: a.end(j) <= 1 << 32)
        assume(a.n >= 1)
        cell = sections_cell(img)
        w = call(C.Writer, [])
        codec.poison(w)
        ok, data = method(w, "dumps", img)
        oblige("dumping does not raise", ok, why(data))
        oblige("dumping leaves the image as it is", cell is sections_cell(img) and to_seq(cell).segs == [a.gen])
        r = call(C.Reader, [])
        codec.poison(r)
        if how == "bytes":
            ok, got = method(r, "loads", data)
        elif how == "text":
            ok, got = method(r, "loads", text.decode(data, "ascii"))
        elif how == "file":
            ok, got = method(r, "load", VFile(data))
        else:
            disk = c.user["vfs"] = codec.Disk("source", data)
            ok, got = method(r, "load", "source")
            oblige("the file is opened once", disk.opened == 1)
        oblige("loading what the writer wrote does not raise", ok, why(got))
        cover("loaded")
        codec.loaded(a, got, log)

    return h


def t_shf_document(c):
    """The document itself: one block per section, in order, with the attributes RFC 4149 requires."""
    a, img = codec.arbitrary_image("image", top=(1 << 32) - 1, maxlen=1 << 32)
    every(0, a.n, lambda j: a.end(j) <= 1 << 32)
    w = call(cls("shf").Writer, [])
    codec.poison(w)
    ok, data = method(w, "dumps", img)
    oblige("dumping does not raise", ok, why(data))
    if not truth(a.n >= 1):
        cover("empty")
        oblige("nothing is written for an empty image", wrap(m_len(data)) == 0)
        return
    cover("dumped")
    root = xmltree.fromstring(data)
    oblige("the root element is a dump", root.tag == "dump")
    oblige("the dump has as many blocks as the image has sections", wrap(root.children.length()) == a.n)

    def block():
        i = fresh_int("block", 0)
        assume(i < a.n)
        add_index(i)
        b = root.children.get(i)
        oblige("a section is a block", b.tag == "block")
        for k in ("name", "address", "word_size", "length", "checksum"):
            oblige(f"a block has the attribute {k}", k in b.attrib.d)
        at = b.attrib.d
        oblige("a block has the section's address", text.parse_int(at["address"], 16) == a.start(i))
        oblige("a block's length counts its words", text.parse_int(at["length"], 16) * text.parse_int(at["word_size"], 16) == a.length(i))
        ps = text.pieces(at["checksum"])
        if len(ps) != 1 or not isinstance(ps[0], text.Digest):
            raise Unsupported("form of the checksum")
        oblige("the checksum is a SHA-1", ps[0].algo == "sha1")
        same("the checksum is that of the section's bytes", ps[0].seq, a.bytes(i))
        same("a block has the section's bytes", text.fromhex(regex.sub(re.compile(r"\s+"), "", b.text)), a.bytes(i))

    side(block)


class Blocks:
    """Any number of blocks with arbitrary attributes and data."""

    def __init__(self):
        from pyvc.values import new_fun

        self.f = {k: new_fun("block_" + k, 1, 0, 16**w - 1) for k, w in WIDTH.items()}
        self.agree = new_fun("block_agrees", 1, 0, 1)  # is the checksum given the SHA-1 of the data?
        self.data = codec.Sections("block", minlen=1, known=False)
        self.n = self.data.n
        assume(self.n >= 1)
        add_index(self.n - 1)

    def field(self, k, i):
        return SInt(self.f[k](term(i)), 0, 16 ** WIDTH[k] - 1)

    def child(self, i):
        at = {k: text.fmt_hex(self.field(k, i), w, False) for k, w in WIDTH.items()}
        at["name"] = "block"
        at["checksum"] = text.SStr([text.Digest("claimed", 40, Seq([[wrap(i)]]))])
        return xmltree.Elem("block", VDict(at), text.hexrun(self.data.bytes(i), "", False), Seq())

    def equal(self, pa, pb):
        """Comparison of a digest computed with the one given for block i."""
        if len(pa) == len(pb) == 1 and all(isinstance(p, text.Digest) for p in pa + pb):
            x, y = (pa[0], pb[0]) if pb[0].algo == "claimed" else (pb[0], pa[0])
            if x.algo == "sha1" and y.algo == "claimed":
                i = y.seq.get(0)
                if truth(seq_eq(x.seq, self.data.bytes(i))):
                    return wrap(SInt(self.agree(term(i)), 0, 1)) == 1
                raise Unsupported("digest of other data")
        raise Unsupported("comparison of a checksum")


WIDTH = dict(address=8, length=8, word_size=2)


def t_shf_corrupt(log):
    def h(c):
        log.clear()
        a = Blocks()
        c.user["xml"] = lambda data: xmltree.Elem("dump", VDict({}), None, Seq([Gen(a.n, a.child)]))
        c.user["digest_eq"] = a.equal
        r = call(cls("shf").Reader, [])
        codec.poison(r)
        ok, img = method(r, "loads", VBytes(input_bytes("document")))
        if not ok:
            cover("rejected")
            return
        cover("loaded")
        oblige("the sections read are joined", len(log) >= 1)
        got = log[0]

        def one():
            """Block i: the sections loaded for it."""
            flat = [g for g in got.segs if not isinstance(g, list)]
            if len(flat) != 1 or len(got.segs) != 1 or not isinstance(flat[0], folds.Flat):
                raise Unsupported("shape of the sections read")
            g = flat[0]
            oblige("every block is read", wrap(g.count) == a.n)
            i = fresh_int("block", 0)
            assume(i < a.n)
            row = g.row(i).concrete()
            if row is None:
                raise Unsupported("sections of a block")
            if not row:
                cover("dropped")
                return
            cover("kept")
            oblige("a block is one section", len(row) == 1)
            s, b = state(row[0])
            oblige("a section stands at the block's address", wrap(s) == a.field("address", i))
            same("a section has the block's bytes", b, a.data.bytes(i))
            oblige("a block whose length is not its data's is refused", a.field("length", i) * a.field("word_size", i) == a.data.length(i))
            oblige("a block whose checksum is not its data's is refused", wrap(SInt(a.agree(term(i)), 0, 1)) == 1)

        side(one)

    return h


def tasks_shf():
    from objutils.section import join_sections

    out = []
    for how in ("bytes", "text", "file", "name"):
        log = []
        out.append(Task(f"shf dumps, loads ({how})", t_shf_trip(log, how), covers=("loaded",), contracts={join_sections: codec.join_spec(log)}, replay=shf_case))
    out.append(Task("shf document", t_shf_document, covers=("dumped", "empty"), replay=shf_case))
    return out


def task_corrupt():
    from objutils.image import Image
    from objutils.logger import Logger

    log = []
    quiet = {f: lambda self, *a, **kw: None for k, f in vars(Logger).items() if isinstance(f, types.FunctionType) and k[0] != "_"}  # messages do not count

    def image(self, sections=None, join=False, *a, **kw):
        log.append(to_seq(sections))

    return [Task("corrupt shf", t_shf_corrupt(log), covers=("loaded", "kept", "dropped"), contracts={Image.__init__: image, **quiet})]


def tasks():
    return tasks_bin() + tasks_shf()
