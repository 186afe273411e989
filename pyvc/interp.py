"""Symbolic interpreter for the real Python source of the repository.

Functions are located through their code objects (file and line), parsed with ast, and executed with the globals,
closures, classes and constants of the imported module.  Nothing of the program text is rewritten or transcribed.
"""

import ast
import builtins
import functools
import inspect
import os
import types

import z3

from . import core, heap
from .core import Control, Unsupported
from .heap import (
    Cell,
    VBuf,
    VBytes,
    VDict,
    VFile,
    VIter,
    VList,
    VRange,
    VSet,
    VSorted,
    VTuple,
    del_attr,
    set_attr,
)
from .values import Gen, SBool, Seq, SInt, SRatio, as_int, concrete_value, ctx, isint, ite, land, lnot, mkbool, term, wrap

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep


class ProgExc(Exception):
    """An exception raised by the program under verification."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"ProgExc({self.exc!r})"


def raise_(exc):
    raise ProgExc(exc)


class Dead:
    """Value of a local before its first assignment in a loop iteration."""


DEAD = Dead()


class NeedsValue(Control):
    def __init__(self, what):
        self.what = what


class Thunk:
    """Lazily computed local (value of a loop temporary after the loop)."""

    def __init__(self, fn):
        self.fn = fn


class Env:
    __slots__ = ("vars", "glob", "parent", "func", "fname", "globals_decl", "nonlocals", "yields", "cls", "first", "parts")

    def __init__(self, glob, parent, fname):
        self.vars = {}
        self.glob = glob
        self.parent = parent
        self.fname = fname
        self.nonlocals = {}
        self.globals_decl = set()
        self.yields = None
        self.cls = None
        self.first = None


class VFunc:
    """Function, lambda or nested def of the program."""

    def __init__(self, node, defaults, kwdefaults, glob, parent, name, cls=None, real=None):
        self.node, self.defaults, self.kwdefaults = node, defaults, kwdefaults
        self.glob, self.parent, self.name, self.cls, self.real = glob, parent, name, cls, real
        self.born = heap.CLOCK


class Bound:
    """Bound method."""

    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Method:
    """Method of a modelled value."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VPartial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


# --------------------------------------------------------------------------------------------------------------------
# source lookup
# --------------------------------------------------------------------------------------------------------------------

_FILES = {}


def _index(filename):
    if filename in _FILES:
        return _FILES[filename]
    with open(filename) as f:
        tree = ast.parse(f.read())
    idx = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            line = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                line = min(d.lineno for d in node.decorator_list)
            name = node.name if isinstance(node, ast.FunctionDef) else "<lambda>"
            idx.setdefault((line, name), []).append(node)
    _FILES[filename] = idx
    return idx


def in_repo(code):
    return os.path.realpath(code.co_filename).startswith(REPO)


_REAL = {}


def real_function(f):
    """VFunc of a function object of the repository."""
    v = _REAL.get(f)
    if v is not None:
        return v
    code = f.__code__
    nodes = _index(code.co_filename).get((code.co_firstlineno, code.co_name), [])
    if len(nodes) > 1:
        cols = [p[2] for p in code.co_positions() if p[0] == code.co_firstlineno and p[2] is not None]
        nodes = [n for n in nodes if isinstance(n, ast.Lambda) and n.body.col_offset in cols]
    if len(nodes) != 1:
        raise Unsupported(f"source of {f.__qualname__} not found")
    parent = None
    cls = None
    if f.__closure__:
        parent = Env(f.__globals__, None, f.__qualname__)
        for nm, cell in zip(code.co_freevars, f.__closure__):
            try:
                parent.vars[nm] = cell.cell_contents
            except ValueError:
                pass
        cls = parent.vars.get("__class__")
    kwd = f.__kwdefaults__ or {}
    v = VFunc(nodes[0], list(f.__defaults__ or ()), dict(kwd), f.__globals__, parent, f.__qualname__, cls, f)
    _REAL[f] = v
    return v


RECORDS = set()  # classes of the verifier that behave like classes of the program


def is_program_class(cls):
    if cls in RECORDS:
        return True
    m = getattr(cls, "__module__", None)
    import sys

    mod = sys.modules.get(m)
    fn = getattr(mod, "__file__", None)
    return bool(fn) and os.path.realpath(fn).startswith(REPO)


# --------------------------------------------------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------------------------------------------------

MAX_DEPTH = 60


def call(f, args=(), kw=None):
    from . import models

    args = list(args)
    kw = dict(kw or {})
    c = ctx()
    c.tick()
    if isinstance(f, Bound):
        return call(f.func, [f.self] + args, kw)
    if isinstance(f, types.MethodType):
        return call(f.__func__, [f.__self__] + args, kw)
    if isinstance(f, (VPartial,)):
        return call(f.func, list(f.args) + args, {**f.kw, **kw})
    if isinstance(f, functools.partial):
        return call(f.func, list(f.args) + args, {**f.keywords, **kw})
    if isinstance(f, Method):
        return models.call_method(f.obj, f.name, args, kw)
    if isinstance(f, VFunc):
        return call_vfunc(f, args, kw)
    try:
        spec = c.run.contracts.get(f)
    except TypeError:
        spec = None
    if spec is not None:
        return by_contract(f, spec, args, kw)
    if isinstance(f, types.FunctionType):
        m = models.FUNCTIONS.get(f)
        if m is not None:
            return m(*args, **kw)
        if in_repo(f.__code__):
            return call_vfunc(real_function(f), args, kw)
        return models.native(f, args, kw)
    if isinstance(f, type):
        return models.instantiate(f, args, kw)
    try:
        m = models.FUNCTIONS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    m = models.special_function(f)
    if m is not None:
        return m(*args, **kw)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType)):
        return models.native(f, args, kw)
    cls = type(f)
    if is_program_class(cls):
        m = lookup(cls, "__call__")
        if m is not None:
            return call(m, [f] + args, kw)
    h = models.CALLABLES.get(cls)
    if h is not None:
        return h(f, args, kw)
    return models.native(f, args, kw)


def by_contract(f, spec, args, kw):
    if isinstance(f, types.FunctionType):
        try:
            b = inspect.signature(f).bind(*args, **kw)
        except TypeError as e:
            raise ProgExc(e) from None
        args, kw = b.args, b.kwargs
    try:
        inspect.signature(spec).bind(*args, **kw)
    except TypeError:
        raise Unsupported(f"{getattr(f, '__qualname__', f)} does not have the parameters its contract is written for") from None
    return spec(*args, **kw)


def lookup(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def call_vfunc(f, args, kw):
    c = ctx()
    node = f.node
    if f.real is not None:
        c.run.functions.add(f"{f.real.__module__}.{f.name}")
    if c.depth > MAX_DEPTH:
        raise Unsupported("recursion depth")
    env = Env(f.glob, f.parent, f.name)
    env.cls = f.cls
    bind(f, node.args, args, kw, env.vars)
    if node.args.args or node.args.posonlyargs:
        env.first = (node.args.posonlyargs + node.args.args)[0].arg
    c.depth += 1
    try:
        if isinstance(node, ast.Lambda):
            return ev(node.body, env)
        if is_generator(node):
            env.yields = []
        sig = exec_block(node.body, env)
        if env.yields is not None:
            return VIter(Seq([env.yields]))
        if sig is not None and sig[0] == "return":
            return sig[1]
        return None
    finally:
        c.depth -= 1


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            todo.extend(ast.iter_child_nodes(n))
        _GEN[node] = r
    return r


def bind(f, a, args, kw, out):
    params = [p.arg for p in a.posonlyargs + a.args]
    kw = dict(kw)
    args = list(args)
    rest = []
    star = next((k for k, x in enumerate(args) if isinstance(x, StarSeq)), None)
    if star is not None:
        # a symbolic number of positional arguments: only into *args
        if star < len(params) or not a.vararg or star != len(args) - 1:
            raise Unsupported("symbolic argument list")
        rest = VTuple(Seq([args[len(params) : star]]) + args[star].seq)
        args = args[: len(params)]
    elif len(args) > len(params):
        if not a.vararg:
            raise_(TypeError(f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given"))
        rest = tuple(args[len(params) :])
        args = args[: len(params)]
    else:
        rest = ()
    for n, v in zip(params, args):
        out[n] = v
    nd = len(params) - len(f.defaults)
    for k, n in enumerate(params):
        if n in kw:
            if n in out:
                raise_(TypeError(f"{f.name}() got multiple values for argument {n!r}"))
            out[n] = kw.pop(n)
        elif n not in out:
            if k < nd:
                raise_(TypeError(f"{f.name}() missing required argument {n!r}"))
            out[n] = lift_default(f.defaults[k - nd])
    for p in a.kwonlyargs:
        if p.arg in kw:
            out[p.arg] = kw.pop(p.arg)
        elif p.arg in f.kwdefaults:
            out[p.arg] = f.kwdefaults[p.arg]
        else:
            raise_(TypeError(f"{f.name}() missing keyword-only argument {p.arg!r}"))
    if a.vararg:
        out[a.vararg.arg] = rest
    if a.kwarg:
        out[a.kwarg.arg] = VDict(kw)
    elif kw:
        raise_(TypeError(f"{f.name}() got an unexpected keyword argument {next(iter(kw))!r}"))


def lift_default(v):
    return v


class StarSeq:
    """*args of symbolic length at a call site."""

    def __init__(self, seq):
        self.seq = seq


# --------------------------------------------------------------------------------------------------------------------
# attributes
# --------------------------------------------------------------------------------------------------------------------

DESCRIPTORS = []  # (classes, (descriptor, object, on the class?) -> value)


def described(v):
    for kinds, fn in DESCRIPTORS:
        if isinstance(v, kinds):
            return fn
    return None


class Lazy(Thunk):
    """A field computed at every access (what it is depends on the path)."""


MODELLED = (VBytes, VBuf, VList, VTuple, VDict, VSet, VIter, VFile, VSorted, VRange)


def get_attr(o, name):
    from . import models, text

    if isinstance(o, MODELLED) or isinstance(o, (SInt, SBool, text.SStr, text.VEnc)) or type(o) in (str, bytes, int, bool, tuple, float):
        return models.attr(o, name)
    if isinstance(o, VSuper):
        mro = type(o.obj).__mro__
        for k in mro[mro.index(o.cls) + 1 :]:
            if name in k.__dict__:
                return bind_attr(k.__dict__[name], o.obj, type(o.obj))
        raise_(AttributeError(name))
    if isinstance(o, (Bound, VFunc, Method, VPartial)):
        if isinstance(o, VFunc) and name == "__name__":
            return o.name
        raise Unsupported(f"attribute {name} of a function")
    if isinstance(o, type):
        if is_program_class(o):
            v = lookup(o, name)
            if v is not None:
                if isinstance(v, classmethod):
                    return Bound(v.__func__, o)
                if isinstance(v, staticmethod):
                    return v.__func__
                fn = described(v)
                if fn is not None:
                    return fn(v, o, True)
                return v
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise ProgExc(e) from None
    if isinstance(o, types.ModuleType):
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise ProgExc(e) from None
    cls = type(o)
    if is_program_class(cls) and not isinstance(o, type):
        v = lookup(cls, name)
        if isinstance(v, property):
            if v.fget is None:
                raise_(AttributeError(name))
            return call(v.fget, [o])
        d = getattr(o, "__dict__", None)
        if d is not None and name in d:
            r = d[name]
            if isinstance(r, Thunk):
                lazy = isinstance(r, Lazy)
                r = r.fn()
                if not lazy:
                    d[name] = r
            return r
        fn = described(v)
        if fn is not None:
            return fn(v, o, False)
        if v is not None:
            if name == "__dict__" or name == "__class__":
                return getattr(o, name)
            return bind_attr(v, o, cls)
        ga = lookup(cls, "__getattr__")
        if ga is not None and isinstance(ga, types.FunctionType):
            return call(ga, [o, name])
        try:
            r = getattr(o, name)
        except AttributeError as e:
            raise ProgExc(AttributeError(str(e))) from None
        return r
    h = models.OBJECTS.get(cls)
    if h is not None:
        return h(o, name)
    try:
        return getattr(o, name)
    except AttributeError as e:
        raise ProgExc(e) from None


def bind_attr(v, o, cls):
    if isinstance(v, types.FunctionType):
        return Bound(v, o)
    if isinstance(v, VFunc):
        return Bound(v, o)
    if isinstance(v, staticmethod):
        return v.__func__
    if isinstance(v, classmethod):
        return Bound(v.__func__, cls)
    if isinstance(v, property):
        return call(v.fget, [o])
    if hasattr(type(v), "__get__") and not isinstance(v, type):
        return v.__get__(o, cls)
    return v


def put_attr(o, name, v):
    cls = type(o)
    if isinstance(o, MODELLED):
        raise Unsupported(f"attribute assignment on {cls.__name__}")
    if is_program_class(cls):
        p = lookup(cls, name)
        if isinstance(p, property):
            if p.fset is None:
                raise_(AttributeError(f"can't set attribute {name!r}"))
            call(p.fset, [o, v])
            return
        if getattr(cls, "sealed", False) and name in o.__dict__:
            raise Unsupported("field of a record overwritten")
        set_attr(o, name, v)
        return
    from . import models

    if cls in models.PLAIN:
        setattr(o, name, models.lower(v))
        return
    raise Unsupported(f"attribute assignment on {cls.__name__}")


# --------------------------------------------------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------------------------------------------------


def ev(n, env):
    m = EV.get(type(n))
    if m is None:
        raise Unsupported(f"expression {type(n).__name__} in {env.fname}")
    return m(n, env)


def ev_Constant(n, env):
    return n.value


def ev_Name(n, env):
    name = n.id
    e = env
    while e is not None:
        if name in e.vars and not (e is env and name in env.globals_decl):
            v = e.vars[name]
            if v is DEAD:
                raise NeedsValue(name)
            if isinstance(v, Thunk):
                v = v.fn()
                e.vars[name] = v
            return v
        e = e.parent
    if name in env.glob:
        return env.glob[name]
    if hasattr(builtins, name):
        return getattr(builtins, name)
    raise_(NameError(f"name {name!r} is not defined"))


def ev_Attribute(n, env):
    return get_attr(ev(n.value, env), n.attr)


def ev_args(n, env):
    from . import models

    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            s = models.to_seq(ev(a.value, env))
            xs = s.concrete()
            if xs is None:
                args.append(StarSeq(s))
            else:
                args.extend(xs)
        else:
            args.append(ev(a, env))
    kw = {}
    for k in n.keywords:
        if k.arg is None:
            d = ev(k.value, env)
            d = d.d if isinstance(d, VDict) else d
            kw.update(d)
        else:
            kw[k.arg] = ev(k.value, env)
    return args, kw


def ev_Call(n, env):
    if isinstance(n.func, ast.Name) and n.func.id == "super":
        e = env
        cls = None
        while e is not None:
            cls = e.vars.get("__class__") or e.cls
            if cls is not None:
                break
            e = e.parent
        if n.args:
            cls = ev(n.args[0], env)
            obj = ev(n.args[1], env)
        else:
            obj = env.vars[env.first]
        return VSuper(cls, obj)
    f = ev(n.func, env)
    args, kw = ev_args(n, env)
    return call(f, args, kw)


def ev_BinOp(n, env):
    a = ev(n.left, env)
    b = ev(n.right, env)
    return binop(type(n.op), a, b)


def ev_UnaryOp(n, env):
    v = ev(n.operand, env)
    if isinstance(n.op, ast.Not):
        return lnot(truth_value(v))
    from . import models

    fn = models.overloaded(v, None)
    if fn is not None:
        return fn(type(n.op), v, None)
    v = as_int(v)
    if isinstance(v, (int, float)):
        return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
    if isinstance(v, SInt):
        return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
    raise Unsupported(f"unary operator on {type(v).__name__}")


def ev_BoolOp(n, env):
    isand = isinstance(n.op, ast.And)
    v = None
    for k, x in enumerate(n.values):
        v = ev(x, env)
        if k == len(n.values) - 1:
            return v
        t = truth(v)
        if isand and not t:
            return v
        if not isand and t:
            return v
    return v


def ev_Compare(n, env):
    left = ev(n.left, env)
    res = True
    for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
        right = ev(c, env)
        r = compare(type(op), left, right)
        if len(n.ops) == 1:
            return r
        if k == len(n.ops) - 1:
            return land(res, truth_value(r)) if not isinstance(r, bool) or not isinstance(res, bool) else (r if res else False)
        # short circuit semantics: the remaining comparators are pure names/constants or evaluated after a fork
        if is_simple(n.comparators[k + 1]):
            res = land(res, truth_value(r))
        else:
            if not truth(r):
                return False
        left = right
    return res


def is_simple(n):
    """Evaluation cannot fail or have an effect."""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.Attribute, ast.Add, ast.Sub, ast.Load, ast.Mult, ast.Pow)) for x in ast.walk(n))


def ev_IfExp(n, env):
    return ev(n.body, env) if truth(ev(n.test, env)) else ev(n.orelse, env)


def ev_List(n, env):
    return VList(display(n.elts, env))


def display(elts, env):
    from . import models

    seq = Seq()
    cur = []
    for e in elts:
        if isinstance(e, ast.Starred):
            seq = seq + Seq([cur]) + models.to_seq(ev(e.value, env))
            cur = []
        else:
            cur.append(ev(e, env))
    return seq + Seq([cur])


def ev_Tuple(n, env):
    s = display(n.elts, env)
    xs = s.concrete()
    return tuple(xs) if xs is not None else VTuple(s)


def ev_Dict(n, env):
    d = {}
    for k, v in zip(n.keys, n.values):
        if k is None:
            o = ev(v, env)
            d.update(o.d if isinstance(o, VDict) else o)
        else:
            d[dict_key(ev(k, env))] = ev(v, env)
    return VDict(d)


def ev_Set(n, env):
    return VSet([ev(e, env) for e in n.elts])


def dict_key(k):
    from . import models

    if isinstance(k, (SInt, SBool)):
        v = concrete_value(as_int(k))
        if v is None:
            raise Unsupported("symbolic dictionary key")
        return v
    return models.lower(k)


def ev_Subscript(n, env):
    from . import models

    o = ev(n.value, env)
    if isinstance(n.slice, ast.Slice):
        s = n.slice
        lo = ev(s.lower, env) if s.lower else None
        hi = ev(s.upper, env) if s.upper else None
        st = ev(s.step, env) if s.step else None
        return models.get_slice(o, lo, hi, st)
    return models.get_item(o, ev(n.slice, env))


def ev_Lambda(n, env):
    return VFunc(n, [ev(d, env) for d in n.args.defaults], {}, env.glob, env, "<lambda>", env.cls)


def ev_JoinedStr(n, env):
    from . import text

    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            x = ev(v.value, env)
            spec = ""
            if v.format_spec is not None:
                spec = ev_JoinedStr(v.format_spec, env)
            parts.append(text.format_value(x, spec, v.conversion))
    return text.concat(parts)


def ev_FormattedValue(n, env):
    raise Unsupported("formatted value")


def comp_env(env):
    e = Env(env.glob, env, env.fname)
    e.cls = env.cls
    e.yields = None
    return e


def ev_ListComp(n, env):
    return VList(comprehension(n, env))


def ev_GeneratorExp(n, env):
    return VIter(comprehension(n, env))


def ev_SetComp(n, env):
    s = comprehension(n, env).concrete()
    if s is None:
        raise Unsupported("set comprehension of symbolic length")
    return VSet(s)


def ev_DictComp(n, env):
    class KV(ast.AST):
        pass

    pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
    m = ast.ListComp(elt=pair, generators=n.generators)
    s = comprehension(m, env).concrete()
    if s is None:
        raise Unsupported("dict comprehension of symbolic length")
    return VDict({dict_key(k): v for k, v in s})


def comprehension(n, env):
    from . import loops

    return loops.comprehension(n, env)


def ev_NamedExpr(n, env):
    v = ev(n.value, env)
    assign(n.target, v, env)
    return v


def ev_Yield(n, env):
    e = env
    e.yields.append(ev(n.value, env) if n.value else None)
    return None


def ev_YieldFrom(n, env):
    from . import models

    s = models.to_seq(ev(n.value, env)).concrete()
    if s is None:
        raise Unsupported("yield from a sequence of symbolic length")
    env.yields.extend(s)
    return None


EV = {
    getattr(ast, k[3:]): v
    for k, v in list(globals().items())
    if k.startswith("ev_") and hasattr(ast, k[3:])
}


# --------------------------------------------------------------------------------------------------------------------
# operators
# --------------------------------------------------------------------------------------------------------------------


def truth_value(v):
    """bool or SBool, without forking where possible."""
    from . import text

    if isinstance(v, (bool, SBool)):
        return v
    if v is None:
        return False
    if isinstance(v, SInt):
        return v != 0
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VSorted)):
        n = v.seq.length()
        return n > 0 if not isinstance(n, int) else n > 0
    if isinstance(v, VDict):
        return bool(v.d)
    if isinstance(v, VSet):
        return bool(v.raw())
    if isinstance(v, text.SStr):
        n = text.length(v)
        return n > 0
    if isinstance(v, (Bound, VFunc, Method, VPartial, VIter, VFile, VSuper, type, types.FunctionType, types.ModuleType)):
        return True
    if isinstance(v, VRange):
        from . import models

        return models.range_len(v) > 0
    cls = type(v)
    if is_program_class(cls):
        f = lookup(cls, "__bool__")
        if f is not None:
            return truth_value(call(f, [v]))
        f = lookup(cls, "__len__")
        if f is not None:
            return truth_value(call(f, [v]) if isinstance(f, types.FunctionType) else len(v))
        return True
    if isinstance(v, (int, float, str, bytes, tuple, list, dict, set, frozenset)):
        return bool(v)
    return bool(v)


def truth(v):
    return bool(truth_value(v))


def binop(op, a, b):
    from . import models

    return models.binop(op, a, b)


def compare(op, a, b):
    from . import models

    return models.compare(op, a, b)


# --------------------------------------------------------------------------------------------------------------------
# statements
# --------------------------------------------------------------------------------------------------------------------


def exec_block(stmts, env):
    for s in stmts:
        r = exec_stmt(s, env)
        if r is not None:
            return r
    return None


def exec_stmt(n, env):
    c = ctx()
    c.tick()
    m = ST.get(type(n))
    if m is None:
        raise Unsupported(f"statement {type(n).__name__} in {env.fname}")
    return m(n, env)


def st_Expr(n, env):
    ev(n.value, env)


def st_Return(n, env):
    return ("return", ev(n.value, env) if n.value else None)


def st_Pass(n, env):
    pass


def st_Break(n, env):
    return ("break", None)


def st_Continue(n, env):
    return ("continue", None)


def plain(stmts):
    """Only assignments to local names."""
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            continue
        return False
    return True


def merged(n, env, test):
    """Both branches of an if-statement that only computes numbers, joined into conditional values; None if not possible."""
    c = ctx()
    t = z3.simplify(c.mapped(test.t) if c.maps else test.t)
    if z3.is_true(t) or z3.is_false(t) or c.maps:
        return None
    outs = []
    nf = len(c.fresh)
    for cond, block in ((t, n.body), (z3.Not(t), n.orelse)):
        saved = dict(env.vars)

        def once():
            try:
                c.assume(cond)
                npc, mark = len(c.pc), len(c.undo)
                try:
                    exec_block(block, env)
                except (ProgExc, NeedsValue):
                    return None
                if len(c.undo) != mark:
                    return None
                return {k: v for k, v in env.vars.items() if saved.get(k, None) is not v}, c.pc[npc:]
            finally:
                env.vars.clear()
                env.vars.update(saved)

        rs = c.sub(once, 2)
        if len(rs) != 1 or rs[0] is None:
            return None
        outs.append((cond, *rs[0]))
    if len(c.fresh) != nf:
        return None
    new = {}
    for k in set(outs[0][1]) | set(outs[1][1]):
        a, b = outs[0][1].get(k, env.vars.get(k, DEAD)), outs[1][1].get(k, env.vars.get(k, DEAD))
        if any(isinstance(x, bool) or not isint(x) for x in (a, b)):
            return None
        new[k] = ite(SBool(t), a, b)
    for cond, _, pc in outs:
        for x in pc:
            c.fact(z3.Implies(cond, x))
    env.vars.update(new)
    return True


def st_If(n, env):
    test = ev(n.test, env)
    c = ctx()
    if isinstance(test, SInt):
        test = mkbool(test.t != 0)
    if isinstance(test, SBool) and c.run.merge and plain(n.body) and plain(n.orelse):
        try:
            if merged(n, env, test):
                return None
        except core.Budget:
            pass
    if truth(test):
        return exec_block(n.body, env)
    return exec_block(n.orelse, env)


def st_Assign(n, env):
    v = ev(n.value, env)
    for t in n.targets:
        assign(t, v, env)


def st_AnnAssign(n, env):
    if n.value is not None:
        assign(n.target, ev(n.value, env), env)


def st_AugAssign(n, env):
    from . import models

    t = n.target
    op = type(n.op)
    if isinstance(t, ast.Name):
        old = ev_Name(t, env)
        assign(t, models.inplace(op, old, ev(n.value, env)), env)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        put_attr(o, t.attr, models.inplace(op, get_attr(o, t.attr), ev(n.value, env)))
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, env)
        if isinstance(t.slice, ast.Slice):
            raise Unsupported("augmented slice assignment")
        k = ev(t.slice, env)
        models.set_item(o, k, models.inplace(op, models.get_item(o, k), ev(n.value, env)))
    else:
        raise Unsupported("augmented assignment")


def assign(t, v, env):
    from . import models

    if isinstance(t, ast.Name):
        if t.id in env.globals_decl:
            raise Unsupported("assignment to a global")
        if t.id in env.nonlocals:
            env.nonlocals[t.id].vars[t.id] = v
            return
        env.vars[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        unpack(t.elts, v, env)
    elif isinstance(t, ast.Attribute):
        put_attr(ev(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, env)
        if isinstance(t.slice, ast.Slice):
            s = t.slice
            lo = ev(s.lower, env) if s.lower else None
            hi = ev(s.upper, env) if s.upper else None
            if s.step:
                raise Unsupported("extended slice assignment")
            models.set_slice(o, lo, hi, v)
        else:
            models.set_item(o, ev(t.slice, env), v)
    else:
        raise Unsupported(f"assignment to {type(t).__name__}")


def unpack(elts, v, env):
    from . import models

    s = models.to_seq(v)
    n = s.length()
    if any(isinstance(e, ast.Starred) for e in elts):
        xs = s.concrete()
        if xs is None:
            raise Unsupported("starred unpacking of a symbolic sequence")
        k = next(i for i, e in enumerate(elts) if isinstance(e, ast.Starred))
        tail = len(elts) - k - 1
        if len(xs) < len(elts) - 1:
            raise_(ValueError("not enough values to unpack"))
        for e, x in zip(elts[:k], xs[:k]):
            assign(e, x, env)
        assign(elts[k].value, VList(xs[k : len(xs) - tail]), env)
        for e, x in zip(elts[k + 1 :], xs[len(xs) - tail :]):
            assign(e, x, env)
        return
    if isinstance(n, int):
        if n != len(elts):
            raise_(ValueError("wrong number of values to unpack"))
    elif not (n == len(elts)):
        raise_(ValueError("wrong number of values to unpack"))
    for k, e in enumerate(elts):
        assign(e, s.get(k), env)


def st_Delete(n, env):
    from . import models

    for t in n.targets:
        if isinstance(t, ast.Name):
            env.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            models.del_item(ev(t.value, env), ev(t.slice, env))
        elif isinstance(t, ast.Attribute):
            del_attr(ev(t.value, env), t.attr)
        else:
            raise Unsupported("del")


def st_Raise(n, env):
    if n.exc is None:
        cur = env.vars.get("@exc")
        if cur is None:
            raise Unsupported("bare raise")
        raise ProgExc(cur)
    e = ev(n.exc, env)
    if isinstance(e, type):
        e = call(e, [])
    if n.cause is not None:
        ev(n.cause, env)
    raise ProgExc(e)


def st_Assert(n, env):
    if not truth(ev(n.test, env)):
        raise_(AssertionError())


def st_Try(n, env):
    sig = None
    try:
        try:
            sig = exec_block(n.body, env)
        except ProgExc as p:
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    k = ev(h.type, env)
                    ok = isinstance(p.exc, k)
                if ok:
                    old = env.vars.get("@exc")
                    env.vars["@exc"] = p.exc
                    if h.name:
                        env.vars[h.name] = p.exc
                    try:
                        sig = exec_block(h.body, env)
                    finally:
                        if old is None:
                            env.vars.pop("@exc", None)
                        else:
                            env.vars["@exc"] = old
                        if h.name:
                            env.vars.pop(h.name, None)
                    break
            else:
                raise
        else:
            if sig is None:
                sig = exec_block(n.orelse, env)
    except ProgExc:
        if n.finalbody:
            s2 = exec_block(n.finalbody, env)
            if s2 is not None:
                return s2
        raise
    if n.finalbody:
        s2 = exec_block(n.finalbody, env)
        if s2 is not None:
            return s2
    return sig


def st_With(n, env):
    from . import models

    if len(n.items) != 1:
        raise Unsupported("with several items")
    it = n.items[0]
    m = ev(it.context_expr, env)
    v = models.enter(m)
    if it.optional_vars is not None:
        assign(it.optional_vars, v, env)
    try:
        sig = exec_block(n.body, env)
    except ProgExc:
        models.leave(m)
        raise
    models.leave(m)
    return sig


def st_FunctionDef(n, env):
    if n.decorator_list:
        raise Unsupported("decorated nested function")
    f = VFunc(n, [ev(d, env) for d in n.args.defaults], {k.arg: ev(d, env) for k, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, env.glob, env, n.name, env.cls)
    env.vars[n.name] = f


def st_Import(n, env):
    import importlib

    for a in n.names:
        m = importlib.import_module(a.name)
        if a.asname:
            env.vars[a.asname] = m
        else:
            env.vars[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])


def st_ImportFrom(n, env):
    import importlib

    m = importlib.import_module(n.module)
    for a in n.names:
        env.vars[a.asname or a.name] = getattr(m, a.name)


def st_Global(n, env):
    env.globals_decl |= set(n.names)


def st_Nonlocal(n, env):
    for nm in n.names:
        e = env.parent
        while e is not None and nm not in e.vars:
            e = e.parent
        env.nonlocals[nm] = e


def st_For(n, env):
    from . import loops

    return loops.exec_for(n, env)


def st_While(n, env):
    from . import loops

    return loops.exec_while(n, env)


def st_Match(n, env):
    raise Unsupported("match statement")


ST = {getattr(ast, k[3:]): v for k, v in list(globals().items()) if k.startswith("st_") and hasattr(ast, k[3:])}
