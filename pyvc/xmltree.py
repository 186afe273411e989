"""xml.etree.ElementTree on ropes: a parser for the markup that literal text contains; symbolic pieces are character data or attribute values."""

from . import text
from .core import Unsupported
from .values import Gen, Seq, SInt, ctx
from .text import Blocks, Digest, Hex, HexSeq, Dec, Many, Opaque, SStr, concat, pieces

NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:")
WS = " \t\r\n"


class Elem:
    """An element; children: Seq of elements."""

    def __init__(self, tag, attrib, text, children):
        self.tag, self.attrib, self.text, self.children = tag, attrib, text, children

    def get(self, key, default=None):
        return self.attrib.d.get(key, default)


class Parser:
    def __init__(self, s):
        self.toks = []
        for p in pieces(s):
            self.toks += list(p) if isinstance(p, str) else [p]
        self.i = 0

    def bad(self, why="document"):
        raise Unsupported(f"XML: {why}")

    def peek(self, s):
        t = self.toks[self.i : self.i + len(s)]
        return len(t) == len(s) and all(isinstance(x, str) for x in t) and "".join(t) == s

    def eat(self, s):
        if not self.peek(s):
            self.bad(f"{s!r} expected")
        self.i += len(s)

    def ws(self):
        k = self.i
        while self.i < len(self.toks) and isinstance(self.toks[self.i], str) and self.toks[self.i] in WS:
            self.i += 1
        return self.i > k

    def until(self, s):
        while not self.peek(s):
            if self.i >= len(self.toks) or not isinstance(self.toks[self.i], str):
                self.bad()
            self.i += 1
        self.i += len(s)

    def name(self):
        k = self.i
        while self.i < len(self.toks) and isinstance(self.toks[self.i], str) and self.toks[self.i] in NAME:
            self.i += 1
        n = "".join(self.toks[k : self.i])
        if not n or not (n[0].isalpha() or n[0] == "_") or ":" in n:
            self.bad("name")
        return n

    def data(self, p):
        """May the piece stand in character data or attribute values?"""
        if isinstance(p, (Hex, HexSeq, Dec, Digest)):
            if isinstance(p, HexSeq) and any(ch in "<&\"'" for ch in p.sep):
                self.bad()
        elif isinstance(p, Opaque):
            if not (isinstance(p.v, SInt) and p.spec[-1:] in ("x", "X", "d", "")):
                self.bad("text of unknown form")
        else:
            self.bad("text of unknown form")
        return p

    def document(self):
        self.ws() if not self.peek("<?xml") else None
        if self.peek("<?xml"):
            self.until("?>")
        self.misc()
        e = self.element()
        self.misc()
        if self.i != len(self.toks):
            self.bad("content after the root element")
        return e

    def misc(self):
        while True:
            self.ws()
            if self.peek("<!--"):
                self.until("-->")
            elif self.peek("<!") or self.peek("<?"):
                self.bad("declaration")
            else:
                return

    def element(self):
        from .heap import VDict

        self.eat("<")
        tag = self.name()
        attrib = {}
        while True:
            w = self.ws()
            if self.peek("/>"):
                self.i += 2
                return Elem(tag, VDict(attrib), None, Seq())
            if self.peek(">"):
                self.i += 1
                break
            if not w:
                self.bad("attribute")
            k = self.name()
            self.ws()
            self.eat("=")
            self.ws()
            q = self.toks[self.i] if self.i < len(self.toks) else None
            if q not in ('"', "'"):
                self.bad("attribute value")
            self.i += 1
            out = []
            while not self.peek(q):
                if self.i >= len(self.toks):
                    self.bad("end of document")
                x = self.toks[self.i]
                if isinstance(x, str):
                    if x in "<&":
                        self.bad("markup in an attribute value")
                    out.append(" " if x in WS else x)
                else:
                    out.append(self.data(x))
                self.i += 1
            self.i += 1
            if k in attrib:
                self.bad("attribute given twice")
            attrib[k] = concat(out)
        txt, children = self.content()
        self.eat("</")
        if self.name() != tag:
            self.bad("end tag")
        self.ws()
        self.eat(">")
        return Elem(tag, VDict(attrib), txt, children)

    def content(self, top=False):
        """Text before the first child, children; stops at an end tag (top: at the end)."""
        out, segs, first = [], [], True
        while True:
            if self.i >= len(self.toks):
                if top:
                    break
                self.bad("end of document")
            x = self.toks[self.i]
            if isinstance(x, Many):
                kids = self.many(x)
                self.i += 1
                if kids is None:
                    if first:
                        out.append(x)
                    continue
                first = False
                segs.append(kids)
                continue
            if not isinstance(x, str):
                if first:
                    out.append(self.data(x))
                self.i += 1
                continue
            if self.peek("</"):
                if top:
                    self.bad("end tag")
                break
            if self.peek("<!--"):
                self.until("-->")
                continue
            if x == "<":
                first = False
                segs.append([self.element()])
                continue
            if x in "&\r" or x == "]" and self.peek("]]>"):
                self.bad("entity")
            if first:
                out.append(x)
            self.i += 1
        txt = concat(out)
        return (txt if not isinstance(txt, str) or txt else None), Seq(segs)

    def many(self, p):
        """The elements that symbolically many parts consist of, or None if they are character data."""
        if any(ch in "<&" for ch in p.sep):
            self.bad("separator")
        g = p.gen

        def part(i):
            from .folds import Flat

            if isinstance(g, Flat):
                from .heap import VList

                return text.join(p.sep, VList(g.row(i)))
            if not isinstance(g, Gen):
                self.bad("parts of unknown form")
            return g.at(i)

        n = g.length if isinstance(g, Gen) else g.count

        def markup():
            from .values import fresh_int, land, wrap

            i = fresh_int("xm", 0)
            ctx().assume(land(wrap(i) < n).t)
            x = part(i)
            ps = pieces(x)
            lit = "".join(q for q in ps if isinstance(q, str))
            if "<" not in lit and "&" not in lit and "\r" not in lit:
                for q in ps:
                    if not isinstance(q, str):
                        self.data(q)
                return "text"
            one(i)
            return "element"

        def one(i):
            q = Parser(part(i))
            txt, kids = q.content(top=True)
            xs = kids.concrete()
            if xs is None or len(xs) != 1 or txt is not None and not (isinstance(txt, str) and not txt.strip()):
                self.bad("parts that are not one element each")
            return xs[0]

        kinds = set(ctx().sub(markup))
        if kinds == {"text"}:
            return None
        if kinds != {"element"}:
            self.bad("parts of different kinds")
        return Gen(n, one)


def fromstring(data, parser=None):
    from . import models

    models.trust("xml.etree.ElementTree.fromstring: parses well-formed XML (modelled for the markup in literal text)")
    hook = ctx().user.get("xml")
    if hook is not None:
        return hook(data)
    return Parser(data if isinstance(data, (str, SStr)) else text.as_text(data)).document()
