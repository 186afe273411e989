"""Regular expressions on ropes.

Patterns are compiled by CPython (they are concrete); matching a rope is modelled by backtracking in CPython's order of priority over
the parsed pattern (re._parser).  A text piece of symbolic length whose characters are known only by their set (hexadecimal digits of a byte
sequence) is passed as a whole; where the order of priority would have to stop inside of it, the text is unsupported.
"""

import re
import re._constants as sre
import re._parser as sre_parser

from . import text
from .core import Unsupported
from .heap import VDict, VList
from .interp import ProgExc
from .text import Chars, Hex, HEXL, HEXU, HexSeq, SStr, concat, pcut, pieces, plen
from .values import SInt, concrete_value, ctx, lor, land, lnot, wrap

ALWAYS = object()


class Atom:
    """One character (piece, offset), or a run: all of a piece of symbolic length but its last byte when bytes are separated."""

    __slots__ = ("piece", "k", "off", "chars", "run", "count")

    def __init__(self, piece, k, off, chars, run=False, count=None):
        self.piece, self.k, self.off, self.chars, self.run, self.count = piece, k, off, chars, run, count

    def code(self):
        return text.pcode(self.piece, self.off)


def atoms(s):
    out = []
    for k, p in enumerate(pieces(s)):
        if isinstance(p, str):
            out += [Atom(p, k, i, {ord(ch)}) for i, ch in enumerate(p)]
        elif isinstance(p, Hex):
            cs = HEXU if p.upper else HEXL
            out += [Atom(p, k, i, cs) for i in range(p.width)]
        elif isinstance(p, HexSeq):
            cs = (HEXU if p.upper else HEXL) | set(map(ord, p.sep))
            n = p.seq.length()
            if not truth(wrap(n) >= 1):
                continue
            if p.sep:
                if truth(wrap(n) >= 2):
                    out.append(Atom(p, k, 0, cs, True, n - 1))
                end = (n - 1) * (2 + len(p.sep))
                out += [Atom(p, k, end + i, HEXU if p.upper else HEXL) for i in range(2)]
            else:
                m = 0
                if isinstance(p.seq.segs[0], list):
                    m = len(p.seq.segs[0])
                    out += [Atom(p, k, i, cs) for i in range(2 * m)]
                if m == 0 or truth(wrap(n) > m):
                    out.append(Atom(p, k, 2 * m, cs, True, n - m))
        elif isinstance(p, Chars) and p.seq.concrete() is not None:
            out += [Atom(p, k, i, {c} if isinstance(c, int) else None) for i, c in enumerate(p.seq.concrete())]
        else:
            raise Unsupported("pattern matching on a text of unknown form")
    return out


def truth(x):
    return x if isinstance(x, bool) else bool(x)


CATEGORY = {
    sre.CATEGORY_DIGIT: lambda c: 48 <= c <= 57,
    sre.CATEGORY_NOT_DIGIT: lambda c: not 48 <= c <= 57,
    sre.CATEGORY_SPACE: lambda c: c in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32),
    sre.CATEGORY_NOT_SPACE: lambda c: c not in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32),
    sre.CATEGORY_WORD: lambda c: chr(c).isalnum() or c == 95,
    sre.CATEGORY_NOT_WORD: lambda c: not (chr(c).isalnum() or c == 95),
}


def member(op, av, c, flags):
    """Does the one-character item match the ASCII character c?"""
    if flags & re.IGNORECASE:
        raise Unsupported("case-insensitive pattern")
    if op is sre.LITERAL:
        return c == av
    if op is sre.NOT_LITERAL:
        return c != av
    if op is sre.ANY:
        return bool(flags & re.DOTALL) or c != 10
    if op is sre.IN:
        neg = False
        hit = False
        for o, a in av:
            if o is sre.NEGATE:
                neg = True
            elif o is sre.LITERAL:
                hit = hit or c == a
            elif o is sre.RANGE:
                hit = hit or a[0] <= c <= a[1]
            elif o is sre.CATEGORY:
                hit = hit or CATEGORY[a](c)
            else:
                raise Unsupported("character class")
        return hit != neg
    raise Unsupported("pattern item")


SINGLE = (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN)


class Matcher:
    def __init__(self, pattern, s):
        self.flags = pattern.flags
        self.tree = sre_parser.parse(pattern.pattern, pattern.flags & ~re.UNICODE if isinstance(pattern.pattern, bytes) else pattern.flags)
        self.pattern = pattern
        self.s = s
        self.atoms = atoms(s)
        self.memo = {}

    def fits(self, op, av, i):
        """Does the character (every character of a run) at i match?  Decided on the path."""
        key = (id(av) if op is sre.IN else av, op, i)
        if key not in self.memo:
            self.memo[key] = self._fits(op, av, self.atoms[i])
        return self.memo[key]

    def _fits(self, op, av, a):
        cs = a.chars
        if cs is None:
            code = a.code()
            if not ctx().proves(_term(land(wrap(code) >= 0, wrap(code) < 128))):
                raise Unsupported("pattern matching beyond ASCII")
            cs = range(128)
        yes = [c for c in cs if member(op, av, c, self.flags)]
        if len(yes) == len(cs):
            return True
        if not yes:
            return False
        if a.run:
            raise Unsupported("pattern that splits a text of symbolic length")
        code = wrap(a.code())
        return truth(lor(*[land(code >= lo, code <= hi) for lo, hi in ranges(yes)]))

    def match(self, start=0):
        for end, groups in self.seq(list(self.tree), 0, start, {}):
            return end, groups
        return None

    def seq(self, items, n, pos, groups):
        """All ways to match items[n:] at pos, in order of priority."""
        if n == len(items):
            yield pos, groups
            return
        op, av = items[n]
        for p, g in self.item(op, av, pos, groups, items[n + 1] if n + 1 < len(items) else None):
            yield from self.seq(items, n + 1, p, g)

    def item(self, op, av, pos, groups, follow):
        at = self.atoms
        if op in SINGLE:
            if pos < len(at):
                if at[pos].run:
                    if self.fits(op, av, pos):
                        raise Unsupported("single character of a text of symbolic length")
                    return
                if self.fits(op, av, pos):
                    yield pos + 1, groups
        elif op is sre.AT:
            if self.position(av, pos):
                yield pos, groups
        elif op is sre.SUBPATTERN:
            num, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline flags")
            for p, g in self.seq(list(sub), 0, pos, groups):
                if num is not None:
                    g = dict(g)
                    g[num] = (pos, p)
                yield p, g
        elif op is sre.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, pos, groups)
        elif op is sre.MAX_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] in SINGLE:
                yield from self.greedy(sub[0], lo, hi, pos, groups)
            else:
                yield from self.repeat(sub, lo, hi, pos, groups)
        elif op is sre.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) != 1 or sub[0][0] not in SINGLE:
                raise Unsupported("lazy repetition of a group")
            yield from self.lazy(sub[0], lo, hi, pos, groups, follow)
        else:
            raise Unsupported(f"pattern item {op}")

    def position(self, av, pos):
        at = self.atoms
        multi = bool(self.flags & re.MULTILINE)
        if av is sre.AT_BEGINNING_STRING or av is sre.AT_BEGINNING and not multi:
            return pos == 0
        if av is sre.AT_BEGINNING:
            return pos == 0 or not at[pos - 1].run and self.fits(sre.LITERAL, 10, pos - 1) or at[pos - 1].run and 10 in at[pos - 1].chars
        if av is sre.AT_END_STRING:
            return pos == len(at)
        if av is sre.AT_END:
            if pos == len(at):
                return True
            if not multi and pos != len(at) - 1:
                return False
            return not at[pos].run and self.fits(sre.LITERAL, 10, pos)
        raise Unsupported("pattern position")

    def greedy(self, item, lo, hi, pos, groups):
        op, av = item
        at = self.atoms
        stops = [(pos, 0)]
        p, n = pos, 0
        while p < len(at):
            a = at[p]
            if hi is not sre.MAXREPEAT and truth(wrap(n) >= hi):
                break
            if not self.fits(op, av, p):
                break
            if a.run:
                m = a.count * (2 + len(a.piece.sep))
                if hi is not sre.MAXREPEAT and not truth(wrap(n + m) <= hi):
                    raise Unsupported(f"repetition that ends inside a text of symbolic length {[(a.k, a.run, a.off) for a in at]} {pieces(self.s)}")
                n = n + m
            else:
                n = n + 1
            p += 1
            stops.append((p, n))
        while stops:
            p, n = stops.pop()
            if not truth(wrap(n) >= lo):
                return
            yield p, groups
            if p > pos and at[p - 1].run:
                raise Unsupported("backtracking into a text of symbolic length")

    def lazy(self, item, lo, hi, pos, groups, follow):
        op, av = item
        at = self.atoms
        p, n = pos, 0
        while True:
            if n >= lo:
                yield p, groups
            if p >= len(at) or hi is not sre.MAXREPEAT and n >= hi:
                return
            if not self.fits(op, av, p):
                return
            if at[p].run:
                # no line ends inside of it
                if hi is not sre.MAXREPEAT or n < lo or follow is None or follow != (sre.AT, sre.AT_END) or 10 in at[p].chars:
                    raise Unsupported("lazy repetition over a text of symbolic length")
            n += 1
            p += 1

    def repeat(self, sub, lo, hi, pos, groups, n=0):
        at = self.atoms
        if n < lo:
            for p, g in self.seq(sub, 0, pos, groups):
                yield from self.repeat(sub, lo, hi, p, g, n + 1)
            return
        if hi is sre.MAXREPEAT or n < hi:
            if pos < len(at) and at[pos].run and self.impossible(sub, at[pos]):
                yield pos, groups
                return
            if pos < len(at) and at[pos].run:
                if not (lo <= 1 and hi is sre.MAXREPEAT and self.period(sub, at[pos])):
                    raise Unsupported("repeated group on a text of symbolic length")
                yield from self.repeat(sub, lo, hi, pos + 1, groups, n + 1)
                raise Unsupported("backtracking into a text of symbolic length")
            for p, g in self.seq(sub, 0, pos, groups):
                if p == pos:
                    continue
                yield from self.repeat(sub, lo, hi, p, g, n + 1)
        yield pos, groups

    def impossible(self, sub, run):
        """The group begins with a character that does not occur in the text."""
        if not len(sub):
            return False
        op, av = list(sub)[0]
        if op is sre.SUBPATTERN:
            return self.impossible(av[3], run)
        return op in SINGLE and run.chars is not None and not any(member(op, av, c, self.flags) for c in run.chars)

    def period(self, sub, run):
        """The group first matches exactly one byte's worth of characters, whatever the digits are."""
        hexs = HEXU if run.piece.upper else HEXL
        one = [Atom(None, 0, 0, hexs), Atom(None, 0, 0, hexs)] + [Atom(None, 0, 0, {ord(ch)}) for ch in run.piece.sep]
        m = Matcher.__new__(Matcher)
        m.flags, m.atoms, m.memo = self.flags, one + one[:2], {}
        m.fits = m.sure
        for p, g in m.seq(sub, 0, 0, {}):
            return p == len(one) and not g
        return False

    def sure(self, op, av, i):
        a = self.atoms[i]
        yes = [member(op, av, c, self.flags) for c in a.chars]
        if all(yes):
            return True
        if not any(yes):
            return False
        raise Unsupported("pattern that depends on the digits of a text of symbolic length")

    def cut(self, a, b):
        """The text of atoms a..b-1."""
        out = []
        at = self.atoms
        ps = pieces(self.s)
        i = a
        while i < b:
            k = at[i].k
            j = i
            while j < b and at[j].k == k:
                j += 1
            p = ps[k]
            whole = (i == 0 or at[i - 1].k != k) and (j == len(at) or at[j].k != k)
            if whole:
                out.append(p)
            elif isinstance(p, HexSeq):
                lo = at[i].off
                hi = at[j].off if j < len(at) and at[j].k == k else plen(p)
                out.append(pcut(p, lo, hi))
            else:
                out.append(pcut(p, at[i].off, at[j - 1].off + 1))
            i = j
        return concat(out)


def _term(x):
    from .values import boolterm

    return boolterm(x)


def ranges(cs):
    cs = sorted(cs)
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


class VMatch:
    def __init__(self, m, end, groups, start=0):
        self.m, self.begin, self.stop, self.groups = m, start, end, groups
        self.names = m.pattern.groupindex

    def get(self, k=0):
        if isinstance(k, str):
            if k not in self.names:
                raise ProgExc(IndexError("no such group"))
            k = self.names[k]
        if k == 0:
            return self.m.cut(self.begin, self.stop)
        if k > self.m.pattern.groups:
            raise ProgExc(IndexError("no such group"))
        if k not in self.groups:
            return None
        return self.m.cut(*self.groups[k])


def match_attr(o, name):
    from .models import Wrapped

    if name == "group":
        return Wrapped(lambda *ks: o.get(*ks) if len(ks) <= 1 else tuple(o.get(k) for k in ks))
    if name == "groupdict":
        return Wrapped(lambda default=None: VDict({n: (o.get(n) if o.names[n] in o.groups else default) for n in o.names}))
    if name == "groups":
        return Wrapped(lambda default=None: tuple(o.get(k) if k in o.groups else default for k in range(1, o.m.pattern.groups + 1)))
    raise Unsupported(f"match attribute {name}")


def pattern_attr(o, name):
    from .models import Wrapped, lower, native

    if name not in ("match", "fullmatch", "search", "split", "sub", "findall", "finditer"):
        return getattr(o, name)

    def run(s, *args, **kw):
        if name == "sub":
            s, args = args[0], (s,) + tuple(args[1:])
        if not isinstance(s, SStr):
            if isinstance(s, str):
                return native(getattr(o, name), ([s] if name != "sub" else [args[0], s]) + list(args[1 if name == "sub" else 0:]), kw)
            if s is None or isinstance(s, (int, SInt, bytes)):
                raise ProgExc(TypeError("expected string or bytes-like object"))
            raise Unsupported("pattern matching on bytes")
        if isinstance(o.pattern, bytes):
            raise ProgExc(TypeError("cannot use a bytes pattern on a string-like object"))
        if args and name != "sub" or kw:
            raise Unsupported("pattern matching with bounds")
        if name in ("match", "fullmatch"):
            m = Matcher(o, s)
            for end, groups in m.seq(list(m.tree), 0, 0, {}):
                if name == "fullmatch" and end != len(m.atoms):
                    continue
                return VMatch(m, end, groups)
            return None
        if name == "split":
            return split(o, s)
        if name == "sub":
            return sub(o, lower(args[0]), s)
        raise Unsupported(f"pattern method {name} on a symbolic text")

    return Wrapped(run)


def single_class(o):
    """(op, av, may repeat) of a pattern that is one character class, possibly repeated."""
    tree = list(sre_parser.parse(o.pattern, o.flags))
    if len(tree) != 1:
        raise Unsupported("pattern")
    op, av = tree[0]
    rep = False
    if op is sre.MAX_REPEAT and len(av[2]) == 1 and av[1] is sre.MAXREPEAT and av[0] <= 1:
        rep = True
        op, av = list(av[2])[0]
    if op not in SINGLE:
        raise Unsupported("pattern")
    return op, av, rep


def split(o, s):
    """Splitting at single characters of a class."""
    from .values import Gen, Seq

    op, av, rep = single_class(o)
    if rep:
        raise Unsupported("split at repeated characters")
    out = []
    cur = []
    seqs = []

    def done():
        out.append(concat(cur))
        cur.clear()

    for p in pieces(s):
        if isinstance(p, HexSeq) and p.sep:
            hexs = HEXU if p.upper else HEXL
            if any(member(op, av, c, o.flags) for c in hexs):
                raise Unsupported("split at hexadecimal digits")
            if all(member(op, av, ord(c), o.flags) for c in p.sep) and len(p.sep) == 1 and p.seq.concrete() is None:
                n = p.seq.length()
                first = concat(cur + [p.group(0)])
                cur.clear()
                if not truth(wrap(n) >= 2):
                    cur.append(first)
                    continue
                if out:
                    seqs.append(list(out))
                    out.clear()
                if isinstance(first, SStr) and len(first.ps) == 1:
                    seqs.append(Gen(n - 1, lambda i, p=p: p.group(i)))
                else:
                    seqs.append([first])
                    seqs.append(Gen(n - 2, lambda i, p=p: p.group(i + 1)))
                cur.append(p.group(n - 1))
                continue
            if any(member(op, av, ord(c), o.flags) for c in p.sep):
                raise Unsupported("split of a symbolic text")
            cur.append(p)
            continue
        if isinstance(p, str):
            for ch in p:
                if member(op, av, ord(ch), o.flags):
                    done()
                else:
                    cur.append(ch)
            continue
        m = Matcher(o, SStr([p]))
        for i, a in enumerate(m.atoms):
            if m.fits(op, av, i):
                if a.run:
                    raise Unsupported("split of a symbolic text")
                done()
            else:
                cur.append(m.cut(i, i + 1))
        continue
    done()
    return VList(Seq(seqs + [list(out)]))


def sub(o, repl, s):
    """Removing the characters of a class."""
    op, av, rep = single_class(o)
    if repl != "":
        raise Unsupported("pattern replacement")
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.append("".join(ch for ch in p if not member(op, av, ord(ch), o.flags)))
            continue
        if isinstance(p, HexSeq) and p.sep:
            if any(member(op, av, c, o.flags) for c in (HEXU if p.upper else HEXL)):
                raise Unsupported("replacement of hexadecimal digits")
            rest = "".join(ch for ch in p.sep if not member(op, av, ord(ch), o.flags))
            out.append(text.hexrun(p.seq, rest, p.upper))
            continue
        if isinstance(p, Hex) and not any(member(op, av, c, o.flags) for c in (HEXU if p.upper else HEXL)):
            out.append(p)
            continue
        if isinstance(p, text.Digest):
            if any(member(op, av, c, o.flags) for c in HEXL):
                raise Unsupported("replacement of hexadecimal digits")
            out.append(p)
            continue
        if isinstance(p, text.Many):
            from .values import Gen, Seq

            if not isinstance(p.gen, Gen):
                raise Unsupported("replacement in a text of unknown form")
            rest = "".join(ch for ch in p.sep if not member(op, av, ord(ch), o.flags))
            out.append(text.join_seq(rest, Seq([Gen(p.gen.length, lambda i, p=p: sub(o, repl, p.gen.at(i)))])))
            continue
        m = Matcher(o, SStr([p]))
        out.append(concat([m.cut(i, i + 1) for i in range(len(m.atoms)) if not m.fits(op, av, i)]))
    return concat(out)
