"""C19: the image of an ELF file holds exactly its allocated contents.

parse, for every file of either class and byte order whose headers lie inside the file:
  the database holds exactly one Elf_Section for each section header; its fields are the header's, its name the string named by sh_name,
  its image the section's bytes in the file (as far as the file goes), NULL for SHT_NULL, SHT_NOBITS and empty sections.
init: the rest of the constructor leaves the database as it is.
create_image, for every table of sections (any number, any fields, any contents, any names), both patterns absent or arbitrary,
joining or not, with and without a callback:
  exactly one Section goes to Image for each row with contents (section_image not NULL) whose flags have SHF_ALLOC, whose name matches
  the include pattern (if any) and does not match the exclude pattern (if any): its address and its bytes; nothing else goes there;
  the image returned is the one made of them, joined as asked.
"""

import os

from objutils import Image, Section, elf
from objutils.elf import ElfParser, create_memorymapped_fileview, model

from pyvc import binfmt, core, folds, heap, sql, text
from pyvc.heap import set_attr
from pyvc.interp import Lazy, call_vfunc, real_function
from pyvc.binfmt import Rec
from pyvc.models import CALLABLES, OBJECTS, VView, Wrapped, add_index, new_object
from pyvc.values import imin, new_fun

from .c02 import dec
from .common import attempt, get_attr, Gen, Seq, SInt, Task, Unsupported, VBytes, VList, assume, cover, fresh_int, input_bytes, input_int, land, lnot, oblige, same, side, term, to_seq, truth, v_eq, method, why, wrap


FIELDS32 = ("sh_name", "sh_type", "sh_link", "sh_info")
FIELDS64 = ("sh_flags", "sh_addr", "sh_offset", "sh_size", "sh_addralign", "sh_entsize")
ALLOC = 2
EMPTY = (0, 8)  # SHT_NULL, SHT_NOBITS


class Called:
    """An argument that can be called; records what it is called with."""

    def __init__(self):
        self.log = VList([])


CALLABLES[Called] = lambda f, a, k: f.log.set(f.log.seq + Seq([[tuple(a)]]))


class Rows:
    """The section table of a parsed file: what _parse_section_headers leaves (its contract)."""

    def __init__(self):
        self.n = input_int("n", 0)
        self.f = {nm: new_fun(nm, 1, 0, 2**32 - 1) for nm in FIELDS32}
        self.f.update({nm: new_fun(nm, 1, 0, 2**64 - 1) for nm in FIELDS64})
        self.len = new_fun("len", 1, 1)  # less than sh_size where the file is cut off
        self.byte = new_fun("byte", 2, 0, 255)
        self.matches = {}
        self.table = sql.Table(model.Elf_Section, self.n, self.row, self.match)

    def field(self, nm, i):
        return SInt(self.f[nm](term(i)), 0, 2**32 - 1 if nm in FIELDS32 else 2**64 - 1)

    def filled(self, i):
        """Does row i have contents?"""
        return land(*[self.field("sh_type", i) != x for x in EMPTY], self.field("sh_size", i) > 0)

    def bytes(self, i):
        f = self.byte
        return Seq([Gen(SInt(self.len(term(i)), 1), lambda j: SInt(f(term(i), term(j)), 0, 255))])

    def row(self, i):
        o = object.__new__(model.Elf_Section)
        d = o.__dict__
        d["index"] = i
        for nm in self.f:
            d[nm] = self.field(nm, i)
        d["section_image"] = Lazy(lambda: VBytes(self.bytes(i)) if truth(self.filled(i)) else None)
        return o

    def matched(self, pattern, i):
        f = self.matches.get(id(pattern))
        if f is None:
            f = self.matches[id(pattern)] = new_fun("matches", 1, 0, 1), pattern
        return SInt(f[0](term(i)), 0, 1) == 1

    def match(self, args, row):
        if len(args) != 2 or args[0] is not model.Elf_Section.section_name:
            raise Unsupported("REGEXP of something else than the section's name")
        return self.matched(args[1], row.__dict__["index"])

    def due(self, i, include, exclude):
        """Must row i contribute?"""
        return land(
            self.filled(i),
            (self.field("sh_flags", i) // ALLOC) % 2 == 1,
            True if include is None else self.matched(include, i),
            True if exclude is None else lnot(self.matched(exclude, i)),
        )


def pattern(name):
    """A nonempty text."""
    return text.decode(VBytes(input_bytes(name, input_int(name + "_len", 1))), "latin1")


def contributions(rows, seq, include, exclude):
    """seq consists of one Section for each row that must contribute."""
    tb = rows.table
    if len(tb.queries) != 1:
        raise Unsupported("number of queries")
    q = tb.queries[0]

    def complete():
        i = fresh_int("row", 0)
        assume(i < rows.n)
        assume(rows.due(i, include, exclude))
        oblige("the query delivers every row that must contribute", q.passes(rows.row(i)))

    side(complete)
    if not truth(rows.n >= 1):
        oblige("nothing comes from an empty table", wrap(seq.length()) == 0)
        return
    gs = [g for g in seq.segs if not (isinstance(g, list) and not g)]
    if len(gs) != 1 or isinstance(gs[0], list):
        raise Unsupported("shape of the list of sections")
    g = gs[0]
    if not isinstance(g, folds.Flat):
        g = folds.Flat(g.length, lambda i, g=g: Seq([[g.at(i)]]))
    if not text.same(g.count, rows.n):
        raise Unsupported("number of rows considered")

    def row():
        i = fresh_int("row", 0)
        assume(i < rows.n)
        add_index(i)
        assume(q.passes(rows.row(i)))
        part = g.row(i)
        due = rows.due(i, include, exclude)
        if not truth(due):
            oblige("no other row contributes", wrap(part.length()) == 0)
            return
        cover("contributes")
        oblige("a row with allocated contents contributes one section", wrap(part.length()) == 1)
        s = part.get(0)
        oblige("it is a Section", type(s) is Section)
        oblige("at the section's address", wrap(s.__dict__["start_address"]) == rows.field("sh_addr", i))
        same("with the section's bytes", to_seq(s.__dict__["data"]), rows.bytes(i))

    side(row)


def t_create(inc, exc, callback):
    class Result:
        pass

    def h(c):
        rows = Rows()
        p = object.__new__(ElfParser)
        p.__dict__["session"] = sql.Session({model.Elf_Section: rows.table})
        include, exclude = pattern("include") if inc else None, pattern("exclude") if exc else None
        kw = {}
        if inc:
            kw["include_pattern"] = include
        if exc:
            kw["exclude_pattern"] = exclude
        join = (None, True, False)[c.choose(3)]
        if join is not None:
            kw["join"] = join
        if callback:
            kw["callback"] = Called()
        made = []

        def image(sections=None, join=True, meta=None, valid=False):
            made.append((sections, join))
            return made[-1]

        c.run.contracts[Image] = image
        ok, r = method(p, "create_image", **kw)
        oblige("an image is created", ok, why(r))
        oblige("the image of these sections is returned", len(made) == 1 and r is made[0])
        oblige("sections are joined as asked", v_eq(made[0][1], join is not False))
        contributions(rows, to_seq(made[0][0]), include, exclude)

    return h


# -- parsing --------------------------------------------------------------------------------------------------------------

LAYOUT = {  # width of the fields of a section header
    1: [("sh_name", 4), ("sh_type", 4), ("sh_flags", 4), ("sh_addr", 4), ("sh_offset", 4), ("sh_size", 4), ("sh_link", 4), ("sh_info", 4), ("sh_addralign", 4), ("sh_entsize", 4)],
    2: [("sh_name", 4), ("sh_type", 4), ("sh_flags", 8), ("sh_addr", 8), ("sh_offset", 8), ("sh_size", 8), ("sh_link", 4), ("sh_info", 4), ("sh_addralign", 8), ("sh_entsize", 8)],
}
HEADER = {  # offset and width of the fields of the file header that say where the section headers are
    1: {"e_shoff": (32, 4), "e_shnum": (48, 2), "e_shstrndx": (50, 2), "e_type": (16, 2), "e_machine": (18, 2), "e_entry": (24, 4), "e_phoff": (28, 4), "e_phnum": (44, 2)},
    2: {"e_shoff": (40, 8), "e_shnum": (60, 2), "e_shstrndx": (62, 2), "e_type": (16, 2), "e_machine": (18, 2), "e_entry": (24, 8), "e_phoff": (32, 8), "e_phnum": (56, 2)},
}
EHSIZE = {1: 52, 2: 64}


class File:
    """An arbitrary ELF file with its headers inside the file (contents that are cut off by its end are what there is of them)."""

    def __init__(self, bits, order):
        self.bits, self.order = bits, "le" if order == 1 else "be"
        d = self.d = input_bytes("file")
        n = self.n = d.length()
        assume(n >= EHSIZE[bits])
        for k, x in enumerate(b"\x7fELF" + bytes([bits, order])):
            assume(d.get(k) == x)
        for nm, (o, w) in HEADER[bits].items():
            setattr(self, nm, self.num(o, w))
        self.width = sum(w for _, w in LAYOUT[bits])
        assume(self.e_shoff >= EHSIZE[bits])
        assume(self.e_shoff + self.e_shnum * self.width <= n)
        assume(self.e_shstrndx < self.e_shnum)

    def num(self, o, w):
        return dec([self.d.get(wrap(o) + k) for k in range(w)], self.order, False)

    def field(self, nm, i):
        o = wrap(self.e_shoff) + wrap(i) * self.width
        for f, w in LAYOUT[self.bits]:
            if f == nm:
                return self.num(o, w)
            o = o + w

    def filled(self, i):
        return land(*[wrap(self.field("sh_type", i)) != x for x in EMPTY], wrap(self.field("sh_size", i)) > 0)


def t_parse(bits, order):
    """The constructor up to the filled database."""

    def h(c):
        f = File(bits, order)
        session = sql.Session()
        db = object.__new__(model.Model)
        db.__dict__["_session"] = session
        strlen, strbyte = new_fun("name_len", 1, 0), new_fun("name_byte", 2, 1, 127)

        def named(entry):
            return text.decode(VBytes(Seq([Gen(SInt(strlen(term(entry)), 0), lambda j: SInt(strbyte(term(entry), term(j)), 1, 127))])), "latin1")

        def get_string(self, table_index, entry):
            oblige("names come from the string table of section names", wrap(table_index) == f.e_shstrndx)
            return named(entry)

        def parse_note(self, data):
            if c.choose(2):
                return None
            r = new_object(Rec)
            r.__dict__.update(type=fresh_int("note_type", 0), name="note", desc="")
            return r

        def parse_comment(self, data):
            return "a comment" if c.choose(2) else ""

        k = c.run.contracts
        k[create_memorymapped_fileview] = lambda filename, *a: VView(VBytes(f.d))
        k[elf.calculate_crypto_hash] = lambda data: "hash"
        k[model.Model] = lambda filename=":memory:", debug=False: db
        for nm, spec in (("get_string", get_string), ("_parse_note", parse_note), ("_parse_comment", parse_comment)):
            if hasattr(ElfParser, nm):
                k[getattr(ElfParser, nm)] = spec
        for nm in ("_parse_program_headers", "create_section_to_segment_mapping"):
            if hasattr(ElfParser, nm):
                k[getattr(ElfParser, nm)] = lambda self: None
        if hasattr(ElfParser, "_parse_symbol_section"):
            k[ElfParser._parse_symbol_section] = lambda self, section: None

        def create_db_on_demand(self):
            call_vfunc(real_function(ElfParser.create_db_on_demand), [self], {})
            raise Loaded

        class Loaded(core.Control):
            pass

        k[ElfParser.create_db_on_demand] = create_db_on_demand
        try:
            ok, r = attempt(ElfParser, "/nonexistent/file.elf")
        except Loaded:
            ok, r = True, None
        oblige("a well-formed file is accepted", ok, why(r))
        cover("parsed")
        sections(f, session.saved.seq, named)

    return h


def t_init(c):
    """The rest of the constructor: the database stays as it is."""
    session = sql.Session()
    data = input_bytes("file")
    k = c.run.contracts
    k[create_memorymapped_fileview] = lambda filename, *a: VView(VBytes(data))
    loaded = []

    def create_db_on_demand(self):
        loaded.append(1)
        set_attr(self, "session", session)

    k[ElfParser.create_db_on_demand] = create_db_on_demand
    for nm in ("e_machine", "e_flags"):
        k[getattr(ElfParser, nm).fget] = lambda self, v=input_int(nm, 0, 2**32 - 1): v
    for nm in ("MachineData", "AvrMachineData", "ArmMachineData"):
        k[getattr(elf.defs, nm)] = lambda machine, flags: None
    ok, p = attempt(ElfParser, "/nonexistent/file.elf")
    oblige("a parser is made", ok, why(p))
    cover("made")
    oblige("the file is loaded once", len(loaded) == 1)
    oblige("the sections come from the database it was loaded into", get_attr(p, "session") is session)
    oblige("nothing is added to it", not session.saved.seq.segs)


def sections(f, saved, named):
    """Among the objects saved there is one Elf_Section for each section header, and no other."""
    count = 0
    for g in saved.segs:
        if isinstance(g, list):
            oblige("no section without a header", not any(isinstance(o, model.Elf_Section) for o in g))
            continue
        if not isinstance(g, folds.Flat):
            g = folds.Flat(g.length, lambda i, g=g: Seq([[g.at(i)]]))

        def own(g=g):
            i = fresh_int("header", 0)
            assume(i < g.count)
            add_index(i)
            xs = g.row(i).concrete()
            if xs is None:
                raise Unsupported("objects saved for a section header")
            xs = [o for o in xs if isinstance(o, model.Elf_Section)]
            oblige("one section for each header", len(xs) == 1)
            header(f, xs[0].__dict__, i, named)

        oblige("as many sections as headers", wrap(g.count) == f.e_shnum)
        side(own)
        count += 1
    oblige("the sections are saved once", count == 1)


def header(f, d, i, named):
    cover("section")
    oblige("the index is that of the header", v_eq(d.get("index"), i))
    for nm, _ in LAYOUT[f.bits]:
        oblige(f"{nm} is the header's", v_eq(d.get(nm), f.field(nm, i)))
    oblige("the name is the header's", v_eq(d.get("section_name"), named(f.field("sh_name", i))))
    img = d.get("section_image")
    if truth(f.filled(i)):
        cover("filled")
        oblige("a section with contents has an image", isinstance(img, VBytes))
        off = f.field("sh_offset", i)
        same("the image is the section's bytes in the file", to_seq(img), f.d.slice(imin(off, f.n), imin(wrap(off) + f.field("sh_size", i), f.n)))
    else:
        oblige("a section without contents has no image", img is None)


def images(index, v):
    """The contents of the sections, of which one is of interest."""
    d = heap.VDict()
    d.set(heap.Over({}, [(index, v)]))
    return d


def t_get_string(c):
    """The name of a section: for any contents of the string table, the text from the entry to the next NUL."""
    session = sql.Session()
    p = object.__new__(ElfParser)
    p.__dict__.update(session=session, _images={}, asciiCString=binfmt.cstring("ascii"))
    index = input_int("table_index", 0, 2**32 - 1)
    before, after = input_bytes("before"), input_bytes("after")
    n, byte = input_int("length", 0), new_fun("name", 1, 1, 127)
    nm = Seq([Gen(n, lambda j: SInt(byte(term(j)), 1, 127))])
    kind = c.choose(4)  # no table, an empty one, an entry behind its end, a string
    if kind:
        p.__dict__["_images"] = images(index, None if kind == 1 else VBytes(before) if kind == 2 else VBytes(before + nm + Seq([[0]]) + after))
    entry = before.length()
    if kind < 3:
        entry = wrap(entry) + input_int("beyond", 0)
    ok, r = method(p, "get_string", index, entry)
    oblige("there is a name", ok, why(r))
    if kind < 3:
        cover("none")
        oblige("without a string the name is empty", v_eq(r, ""))
    else:
        cover("named")
        oblige("the name is the text up to the NUL", v_eq(r, text.decode(VBytes(nm), "latin1")))
    oblige("nothing is saved", not session.saved.seq.segs)


class DbName:
    """The name of the database file; there: it exists."""

    def __init__(self, there):
        self.there = there

    def gone(self, *a, **k):
        if not self.there:
            raise Unsupported("removal of a file that does not exist")
        self.there = False


OBJECTS[DbName] = lambda x, nm: Wrapped({"exists": lambda: x.there, "is_file": lambda: x.there, "unlink": x.gone}[nm])


def t_database(c):
    """create_db_on_demand: the database of these very contents is used, any other one is replaced by that of the file."""
    there = bool(c.choose(2))
    meta = c.choose(3) if there else 0  # no hash in it, the hash of the contents, another hash
    row = object.__new__(model.Meta)
    row.__dict__["hash_value"] = "hash" if meta == 1 else "other"
    header = object.__new__(model.Elf_Header)
    old = sql.Session({model.Meta: sql.Table(model.Meta, 1 if meta else 0, lambda i: row), model.Elf_Header: sql.Table(model.Elf_Header, 1, lambda i: header), model.Elf_ProgramHeaders: sql.Table(model.Elf_ProgramHeaders, 0, lambda i: None)})
    name = DbName(there)
    data = input_bytes("file")
    p = object.__new__(ElfParser)
    p.__dict__.update(fp=VView(VBytes(data)), db_name=name, filename="file.elf")
    loaded, opened = [], []

    def database(filename=":memory:", debug=False):
        oblige("the database is that of the file", filename is name)
        db = object.__new__(model.Model)
        db.__dict__["_session"] = old if name.there else sql.Session()
        name.there = True
        opened.append(db)
        return db

    def digest(d):
        same("the hash is that of the contents", to_seq(d), data)
        return "hash"

    def load_data(self):
        loaded.append(get_attr(self, "session"))

    def unlink(x):
        oblige("only the database is removed", x is name)
        x.gone()

    k = c.run.contracts
    k[elf.calculate_crypto_hash] = digest
    k[model.Model] = database
    k[model.Model.close] = lambda self: None
    k[ElfParser.load_data] = load_data
    k[ElfParser.set_data_types] = lambda self, source: None
    k[os.unlink] = k[os.remove] = unlink
    ok, r = method(p, "create_db_on_demand")
    oblige("there is a database", ok, why(r))
    s = get_attr(p, "session")
    oblige("its session is used", s is get_attr(opened[-1], "session"))
    if meta == 1:
        cover("kept")
        oblige("the database of these contents is kept", s is old)
        oblige("nothing is loaded or added", not loaded and not old.saved.seq.segs)
    else:
        cover("loaded")
        oblige("another database is replaced", s is not old)
        oblige("the file is loaded once", len(loaded) == 1 and loaded[0] is s)
        xs = s.saved.seq.concrete()
        oblige("the hash of the contents goes with it", xs is not None and len(xs) == 1 and isinstance(xs[0], model.Meta) and xs[0].__dict__.get("hash_value") == "hash")


def tasks():
    out = [
        Task("get_string", t_get_string, seconds=60, covers=("none", "named")),
        Task("database", t_database, seconds=60, covers=("kept", "loaded")),
        Task("init", t_init, seconds=60, covers=("made",)),
    ]
    for bits in (1, 2):
        for order in (1, 2):
            out.append(Task(f"parse/{32 * bits}{' lb'[order]}e", t_parse(bits, order), seconds=300, covers=("parsed", "section", "filled")))
    for inc in (False, True):
        for exc in (False, True):
            for cb in (False, True):
                nm = "create_image/" + ("include" if inc else "") + ("exclude" if exc else "") + ("callback" if cb else "")
                out.append(Task(nm.rstrip("/") or nm, t_create(inc, exc, cb), seconds=60, covers=("contributes",)))
    return out
