"""SQLAlchemy: tables of arbitrary content, and queries over them.

A table is a number of rows, each an object of the mapped class whose fields are functions of the row's index.  Expressions over
columns become Clause terms; a query collects clauses, and all() delivers the rows for which they hold (SQL's three-valued logic),
each once.  What the database delivers for a query is the trusted contract of SQLAlchemy and SQLite.
"""

import ast

import z3
from sqlalchemy import and_, asc, desc, func, not_, or_
from sqlalchemy.ext.hybrid import hybrid_method, hybrid_property
from sqlalchemy.orm.attributes import InstrumentedAttribute

from . import interp, models
from .core import Unsupported
from .heap import VBytes, VList
from .interp import Bound, Thunk, call
from .models import Wrapped
from .values import Gen, SBool, Seq, boolterm, ctx, land, lnot, lor, wrap


class Clause:
    """op applied to args (columns, clauses, values)."""

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __bool__(self):
        raise Unsupported("truth value of an SQL expression")


COLUMN = (InstrumentedAttribute, Clause)
BIN = {
    ast.Eq: "eq",
    ast.NotEq: "ne",
    ast.Lt: "lt",
    ast.LtE: "le",
    ast.Gt: "gt",
    ast.GtE: "ge",
    ast.BitAnd: "and",
    ast.BitOr: "or",
    ast.Add: "add",
    ast.Sub: "sub",
    ast.Mult: "mul",
    ast.Mod: "mod",
}
SWAP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
CMP = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
ARITH = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "bitand": ast.BitAnd, "bitor": ast.BitOr}


def column(x):
    return isinstance(x, COLUMN)


def operator(op, a, b):
    """a op b where a or b is a column or clause."""
    if op is ast.Invert:
        return Clause("not", a)
    nm = BIN.get(op)
    if nm is None:
        raise Unsupported(f"SQL operator {op.__name__}")
    return Clause(nm, a, b)


def column_attr(o, name):
    def method(*args):
        if name in ("is_", "is_not", "isnot"):
            return Clause("eq" if name == "is_" else "ne", o, *args)
        if name in ("in_", "not_in", "notin_"):
            c = Clause("in", o, *args)
            return c if name == "in_" else Clause("not", c)
        if name == "bitwise_and":
            return Clause("bitand", o, *args)
        if name == "bitwise_or":
            return Clause("bitor", o, *args)
        if name == "between":
            return Clause("and", Clause("ge", o, args[0]), Clause("le", o, args[1]))
        if name == "op":
            sym = args[0].strip()
            nm = {"&": "bitand", "|": "bitor", "=": "eq", "==": "eq", "!=": "ne", "<>": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge"}.get(sym)
            if nm is None:
                raise Unsupported(f"SQL operator {sym}")
            return Wrapped(lambda x: Clause(nm, o, x))
        if name in ("regexp_match", "asc", "desc"):
            return Clause(name, o, *args)
        raise Unsupported(f"SQL method {name}")

    if name in ("key", "name"):
        return o.key
    return Wrapped(method)


def func_attr(o, name):
    return Wrapped(lambda *args: Clause("fn:" + name, *args))


def hybrid(v, o, on_class):
    if isinstance(v, hybrid_property):
        f = v.fget if not on_class or v.expr is None else v.expr
        return call(f, [o])
    f = v.func if not on_class or v.expr is None else v.expr
    return Bound(f, o)


# -- evaluation -----------------------------------------------------------------------------------------------------------


class Null:
    pass


NULL = Null()


def tv_not(x):
    t, u = x
    return land(lnot(t), lnot(u)), u


def tv_and(xs):
    t, f = True, False
    for a, u in xs:
        t = land(t, a)
        f = lor(f, land(lnot(a), lnot(u)))
    return t, land(lnot(t), lnot(f))


def tv_or(xs):
    return tv_not(tv_and([tv_not(x) for x in xs]))


def value(e, row):
    """The value of a column expression in a row: an integer, text or NULL."""
    if isinstance(e, InstrumentedAttribute):
        v = row.__dict__[e.key]
        if isinstance(v, Thunk):
            v = v.fn()
        return NULL if v is None else v
    if isinstance(e, Clause):
        if e.op in ARITH:
            a, b = (value(x, row) for x in e.args)
            if a is NULL or b is NULL:
                return NULL
            return models.binop(ARITH[e.op], a, b)
        raise Unsupported(f"SQL expression {e.op} as a value")
    return NULL if e is None else e


def holds(e, row, table):
    """(true, null) of a condition in a row."""
    if isinstance(e, (bool, SBool)):
        return e, False
    if not isinstance(e, Clause):
        raise Unsupported("SQL condition")
    op, args = e.op, e.args
    if op == "not":
        return tv_not(holds(args[0], row, table))
    if op in ("and", "or"):
        return (tv_and if op == "and" else tv_or)([holds(x, row, table) for x in args])
    if op in CMP:
        a, b = (value(x, row) for x in args)
        if any(x is None for x in args):  # IS [NOT] NULL
            if op not in ("eq", "ne"):
                raise Unsupported("SQL comparison with NULL")
            r = a is NULL and b is NULL
            return (r if op == "eq" else not r), False
        if a is NULL or b is NULL:
            return False, True
        if isinstance(a, VBytes) or isinstance(b, VBytes):
            raise Unsupported("SQL comparison of BLOBs")
        return interp.truth_value(models.compare(CMP[op], a, b)), False
    if op == "in":
        x = value(args[0], row)
        ys = models.to_seq(args[1]).concrete() if not isinstance(args[1], (set, frozenset)) else list(args[1])
        if ys is None:
            raise Unsupported("SQL IN of a sequence of unknown length")
        if x is NULL:
            return False, bool(ys)
        return lor(False, *[interp.truth_value(models.compare(ast.Eq, x, y)) for y in ys]), False
    if op in ("fn:regexp", "regexp_match"):
        return table.match(args, row), False
    raise Unsupported(f"SQL expression {op}")


class Table:
    """n rows; row(i) the object at index i; match(args, row): REGEXP in a row."""

    def __init__(self, cls, n, row, match=None):
        self.cls, self.n, self.row, self._match = cls, n, row, match
        self.queries = []  # the queries whose rows were fetched

    def match(self, args, row):
        if self._match is None:
            raise Unsupported("SQL REGEXP")
        return self._match(args, row)


class Session:
    """What is queried is in tables, what is added goes to saved."""

    def __init__(self, tables=()):
        self.tables = dict(tables)
        self.saved = VList([])

    def on_add(self, o):
        self.saved.set(self.saved.seq + Seq([[o]]))

    def on_add_all(self, objs, **kw):
        self.saved.set(self.saved.seq + models.to_seq(objs))

    on_bulk_save_objects = on_add_all

    def on_commit(self):
        pass

    on_flush = on_commit


def mapped(cls):
    return "__mapper__" in cls.__dict__


def construct(cls, args, kw):
    """An object of a mapped class."""
    o = models.new_object(cls)
    if args:
        interp.raise_(TypeError("positional arguments"))
    for k, v in kw.items():
        if not isinstance(cls.__dict__.get(k), InstrumentedAttribute):
            interp.raise_(TypeError(f"{k!r} is an invalid keyword argument for {cls.__name__}"))
        o.__dict__[k] = v
    return o


class Query:
    """Immutable."""

    def __init__(self, session, cls, clauses=(), order=()):
        self.session, self.cls, self.clauses, self.order = session, cls, tuple(clauses), tuple(order)

    def table(self):
        t = self.session.tables.get(self.cls)
        if t is None:
            raise Unsupported(f"query of {getattr(self.cls, '__name__', self.cls)}")
        return t

    def passes(self, row):
        """Does the row satisfy the conditions of the query?"""
        t, _ = tv_and([holds(x, row, self.table()) for x in self.clauses])
        return t

    def filter(self, *cs):
        return Query(self.session, self.cls, self.clauses + cs, self.order)

    def filter_by(self, **kw):
        return self.filter(*[Clause("eq", getattr(self.cls, k), v) for k, v in kw.items()])

    def order_by(self, *cs):
        return Query(self.session, self.cls, self.clauses, self.order + cs)

    def first(self):
        if self.clauses or self.order:
            raise Unsupported("first row of a query with conditions")
        rows = self.rows()
        return rows.get(0) if interp.truth(wrap(rows.length()) >= 1) else None

    def rows(self):
        """The rows delivered."""
        t = self.table()
        t.queries.append(self)
        models.trust("SQLAlchemy/SQLite: a query delivers each row that satisfies its conditions once, and nothing else")

        def at(i):
            row = t.row(i)
            ok = self.passes(row)
            if ok is not True:
                ctx().fact(z3.Implies(boolterm(land(wrap(i) >= 0, wrap(i) < t.n)), boolterm(ok)))
            return row

        return Seq([Gen(t.n, at)])


def query_attr(q, name):
    if name in ("filter", "where"):
        return Wrapped(q.filter)
    if name == "filter_by":
        return Wrapped(q.filter_by)
    if name == "order_by":
        return Wrapped(q.order_by)
    if name == "first":
        return Wrapped(q.first)
    if name == "count":
        return Wrapped(lambda: q.rows().length())
    if name == "all":
        return Wrapped(lambda: VList(q.rows()))
    if name == "__iter__":
        return Wrapped(lambda: models.m_iter(VList(q.rows())))
    raise Unsupported(f"SQLAlchemy Query.{name}")


def session_attr(s, name):
    if name == "query":
        return Wrapped(lambda cls: Query(s, cls))
    h = getattr(s, "on_" + name, None)
    if h is not None:
        return Wrapped(h)
    raise Unsupported(f"SQLAlchemy Session.{name}")


models.SEQUENCES[Query] = lambda q: q.rows()
models.OBJECTS[InstrumentedAttribute] = column_attr
models.OBJECTS[Clause] = column_attr
models.OBJECTS[Query] = query_attr
models.OBJECTS[Session] = session_attr
models.OBJECTS[type(func)] = func_attr
models.FUNCTIONS[and_] = lambda *a: Clause("and", *a)
models.FUNCTIONS[or_] = lambda *a: Clause("or", *a)
models.FUNCTIONS[not_] = lambda a: Clause("not", a)
models.FUNCTIONS[asc] = lambda a: Clause("asc", a)
models.FUNCTIONS[desc] = lambda a: Clause("desc", a)
models.CONSTRUCTORS.append((mapped, construct))
models.OPERATORS.append((column, operator))
interp.DESCRIPTORS.append(((hybrid_property, hybrid_method), hybrid))
