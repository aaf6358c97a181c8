"""Transfer functions of the library calls (numpy, numpy.ma, scipy.linalg, builtins)."""
import ast
import math
from fractions import Fraction
from . import terms as T
from .terms import Poly, Lin, Blk, poly, atom, of_atom, scalar_lin, blk, ONE, ZERO, lin_of_blk
from .facts import Cond, c_ge, c_eq, c_atom, is_int_poly
from . import arrays as A
from .arrays import num
from .values import *
from . import interp as IN
from .interp import BUILTIN_CLASSES, EXC, OBJECT, Partial, PropV, StaticV, ClassMV, SuperV, SymIter, InstDict, Lazy, MISSING

BUILTINS = {}
TABLE = {}          # "numpy.zeros" -> value


def bi(*names):
    def d(fn):
        for n in names:
            BUILTINS[n] = Native(n, fn)
        return fn
    return d


def lib(*names):
    def d(fn):
        for n in names:
            TABLE[n] = Native(n, fn)
        return fn
    return d


for _n, _c in EXC.items():
    BUILTINS[_n] = _c
for _n in ("dict", "list", "tuple", "int", "float", "str", "bool", "set", "slice", "frozenset", "complex"):
    BUILTINS[_n] = BUILTIN_CLASSES[_n]
BUILTINS["object"] = OBJECT
BUILTINS["None"], BUILTINS["True"], BUILTINS["False"], BUILTINS["Ellipsis"] = None, True, False, Ellipsis
BUILTINS["__name__"] = "module"
BUILTINS["__file__"] = "module.py"
BUILTINS["NotImplemented"] = "NotImplemented"


class BoolSeq:
    """Array of booleans: shape and a function of the index tuple."""

    def __init__(self, shape, fn):
        self.shape, self.fn = tuple(shape), fn


class IndexTrick:
    def __init__(self, f):
        self.f = f

    def get(self, it, key):
        return self.f(it, key)


# ------------------------------------------------------------ builtins
@bi("len")
def b_len(it, v):
    if isinstance(v, (tuple, str, range)):
        return len(v)
    if isinstance(v, NT):
        return len(v.vals)
    if isinstance(v, (ListV, SetV, DictV)) or isinstance(v, Inst) and v.cls.native == "dict":
        items = v.d["items"]
        if isinstance(items, Marker):
            raise IN.NeedCarry(items.loc)
        return num(items.length) if isinstance(items, Seq) else len(items)
    if isinstance(v, Arr):
        st = it.read(v)
        if not st.shape:
            it.throw("TypeError", "len() of unsized object")
        return num(st.shape[0])
    if isinstance(v, SRange):
        n = v.hi - v.lo
        return num(n) if A.d_le(0, n) else 0
    if isinstance(v, BoolSeq):
        return num(v.shape[0])
    if isinstance(v, Inst):
        m = v.cls.lookup("__len__")
        if m is not None:
            return it.call(BoundM(v, m), [], {})
    if v is None or isinstance(v, (int, float, Poly, Inst, FuncV, OpaqueFn)):
        it.throw("TypeError", f"object of type '{type(v).__name__}' has no len()")
    raise Undecided(f"len of {type(v).__name__}")


def as_index(it, v):
    if isinstance(v, Marker):
        raise IN.NeedCarry(v.loc)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Poly):
        return num(v)
    if isinstance(v, Arr):
        return num(it.as_poly(v))
    if isinstance(v, float):
        it.throw("TypeError", "'float' object cannot be interpreted as an integer")
    raise Undecided(f"integer expected, got {type(v).__name__}")


@bi("range")
def b_range(it, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    a, b, step = as_index(it, a), as_index(it, b), as_index(it, step)
    if all(isinstance(x, int) for x in (a, b, step)):
        return range(a, b, step)
    if not isinstance(step, int):
        raise Undecided("range step")
    if step == 1:
        return SRange(poly(a), poly(b))
    if step == -1:
        return SRange(poly(b) + 1, poly(a) + 1, True)
    raise Undecided("range step")


def sym_parts(it, v):
    """('list', items) or ('sym', lo, hi, desc, get)."""
    r = it.iterate(v)
    if isinstance(r, list):
        return ("list", r)
    return ("sym",) + tuple(r)


@bi("reversed")
def b_reversed(it, v):
    r = sym_parts(it, v)
    if r[0] == "list":
        return ListV(tuple(reversed(r[1])))
    _, lo, hi, desc, get = r
    return SymIter(lo, hi, not desc, get)


@bi("enumerate")
def b_enumerate(it, v, start=0):
    r = sym_parts(it, v)
    if r[0] == "list":
        return ListV(tuple((num(poly(start) + i), x) for i, x in enumerate(r[1])))
    _, lo, hi, desc, get = r
    if desc:
        return SymIter(lo, hi, True, lambda i: (num(poly(start) + hi - 1 - i), get(i)))
    return SymIter(lo, hi, False, lambda i: (num(poly(start) + i - lo), get(i)))


@bi("zip")
def b_zip(it, *vs, strict=False):
    if not vs:
        return ListV(())
    rs = [sym_parts(it, v) for v in vs]
    if all(r[0] == "list" for r in rs):
        return ListV(tuple(zip(*[r[1] for r in rs])))
    if any(r[0] == "list" for r in rs):
        # truncate to the concrete length when it is the shorter one
        k = min(len(r[1]) for r in rs if r[0] == "list")
        for r in rs:
            if r[0] == "sym" and not A.d_le(k, r[2] - r[1]):
                raise Undecided("zip length")
        cols = []
        for r in rs:
            if r[0] == "list":
                cols.append(r[1][:k])
            else:
                _, lo, hi, desc, get = r
                cols.append([get(lo + i) if not desc else get(hi - 1 - i) for i in range(k)])
        return ListV(tuple(zip(*cols)))
    n = rs[0][2] - rs[0][1]
    for r in rs[1:]:
        m = r[2] - r[1]
        if m != n and A.d_le(m, n):
            n = m
    desc0 = rs[0][3] if all(r[3] == rs[0][3] for r in rs) else None
    if desc0 and all((r[2] - r[1]) == n for r in rs):
        lo0 = rs[0][1]
        return SymIter(lo0, lo0 + n, True, lambda i: tuple(r[4](i - lo0 + r[1]) for r in rs))
    base = rs[0][1] if not rs[0][3] else ZERO

    def at(i):
        k = i - base
        return tuple(r[4](r[1] + k) if not r[3] else r[4](r[2] - 1 - k) for r in rs)
    return SymIter(base, base + n, False, at)


@bi("map")
def b_map(it, f, *vs):
    if len(vs) == 1:
        r = sym_parts(it, vs[0])
        if r[0] == "list":
            return ListV(tuple(it.call(f, [x], {}) for x in r[1]))
        raise Undecided("map over a symbolic range")
    z = b_zip(it, *vs)
    return ListV(tuple(it.call(f, list(x), {}) for x in it.concrete(z)))


@bi("filter")
def b_filter(it, f, v):
    return ListV(tuple(x for x in it.concrete(v) if it.truth(x if f is None else it.call(f, [x], {}))))


@bi("iter")
def b_iter(it, v):
    return v


@bi("next")
def b_next(it, v, *default):
    items = it.concrete(v)
    if not items:
        if default:
            return default[0]
        it.throw("StopIteration")
    if isinstance(v, ListV) and not isinstance(v.d["items"], Seq):
        it.put(v, "items", tuple(items[1:]))
    return items[0]


@bi("sorted")
def b_sorted(it, v, key=None, reverse=False):
    xs = it.concrete(v)
    if all(isinstance(x, (str, int, float)) for x in xs) and key is None:
        return ListV(tuple(sorted(xs, reverse=bool(reverse))))
    raise Undecided("sorted")


@bi("isinstance")
def b_isinstance(it, v, c):
    if isinstance(c, tuple):
        out = False
        for x in c:
            r = b_isinstance(it, v, x)
            if isinstance(r, BoolV):
                r = it.truth(r)
            if r:
                return True
        return False
    if isinstance(c, Native):
        c = NATIVE_TYPES.get(c.name, c)
    if not isinstance(c, ClassV):
        raise Undecided("isinstance")
    n = c.native if c in BUILTIN_CLASSES.values() or c is OBJECT else None
    if c is OBJECT:
        return True
    if isinstance(v, Inst):
        return c in v.cls.mro or (n == "dict" and v.cls.native == "dict")
    if n is None:
        return False
    if isinstance(v, (bool, BoolV)):
        return n in ("bool", "int")
    if isinstance(v, int) or isinstance(v, Poly) and is_int_poly(v):
        return n == "int"
    if isinstance(v, (float, Poly, Fraction)):
        return n == "float"
    if isinstance(v, str):
        return n == "str"
    if isinstance(v, (tuple, NT)):
        return n == "tuple"
    if isinstance(v, ListV):
        return n == "list"
    if isinstance(v, DictV):
        return n == "dict"
    if isinstance(v, SetV):
        return n == "set"
    if isinstance(v, Arr):
        if n == "ndarray":
            return True
        if n == "MaskedArray":
            return it.read(v).mask is not None
        return False
    if isinstance(v, RNGV):
        return n == getattr(v, "kind", "RandomState")
    return False


NATIVE_TYPES = {}


@bi("issubclass")
def b_issubclass(it, a, b):
    if isinstance(b, tuple):
        return any(b_issubclass(it, a, x) for x in b)
    return b in a.mro


@bi("hasattr")
def b_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except PyRaise as e:
        if EXC["AttributeError"] in e.exc.cls.mro:
            return False
        raise


@bi("getattr")
def b_getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except PyRaise as e:
        if d and EXC["AttributeError"] in e.exc.cls.mro:
            return d[0]
        raise


@bi("setattr")
def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


@bi("callable")
def b_callable(it, v):
    if isinstance(v, (FuncV, Native, OpaqueFn, BoundM, ClassV, Partial, NTCls)):
        return True
    if isinstance(v, Inst):
        return v.cls.lookup("__call__") is not None
    return False


@bi("vars")
def b_vars(it, o):
    return InstDict(o) if isinstance(o, Inst) else DictV({})


@bi("type")
def b_type(it, o):
    if isinstance(o, Inst):
        return o.cls
    raise Undecided("type()")


@bi("id")
def b_id(it, o):
    return getattr(o, "serial", 0)


@bi("print")
def b_print(it, *a, **k):
    it.events.append(("print",))


@bi("repr", "format")
def b_repr(it, o, *a):
    return it.text(o)


@bi("abs")
def b_abs(it, v):
    if isinstance(v, (int, float)):
        return abs(v)
    return ufunc(it, "abs", v)


@bi("max", "min")
def _mm(it, *a, **k):
    raise Undecided("max/min")


def _minmax(sign):
    def f(it, *a, key=None, default=MISSING):
        xs = list(a) if len(a) > 1 else it.concrete(a[0])
        if key is not None:
            raise Undecided("max key")
        if not xs:
            if default is not MISSING:
                return default
            it.throw("ValueError", "empty sequence")
        best = xs[0]
        for x in xs[1:]:
            if it.truth(it.compare("Gt" if sign > 0 else "Lt", x, best)):
                best = x
        return best
    return f


BUILTINS["max"] = Native("max", _minmax(1))
BUILTINS["min"] = Native("min", _minmax(-1))


@bi("sum")
def b_sum(it, v, start=0):
    r = it.iterate(v)
    if isinstance(r, list):
        acc = start
        for x in r:
            acc = it.binop("Add", acc, x)
        return acc
    lo, hi, desc, get = r
    q = Seq(hi - lo, lambda i: get(lo + i))
    probe = it.list_state(q)
    t = A.total(probe, 0)
    return it.binop("Add", start, it.wrap(t)) if start != 0 else it.wrap(t)


@bi("any")
def b_any(it, v):
    if isinstance(v, (MaskV, BoolSeq)):
        return reduce_bool(it, v, False)
    for x in it.concrete(v):
        if it.truth(x):
            return True
    return False


@bi("all")
def b_all(it, v):
    if isinstance(v, (MaskV, BoolSeq)):
        return reduce_bool(it, v, True)
    for x in it.concrete(v):
        if not it.truth(x):
            return False
    return True


@bi("divmod")
def b_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


@bi("round")
def b_round(it, a, n=None):
    if isinstance(a, (int, float)):
        return round(a, n) if n is not None else round(a)
    raise Undecided("round")


@bi("property")
def b_property(it, f=None, fset=None):
    return PropV(f, fset)


@bi("staticmethod")
def b_static(it, f):
    return StaticV(f)


@bi("classmethod")
def b_classm(it, f):
    return ClassMV(f)


def norm_path(it, p):
    """Repository-relative text of a path object."""
    import os
    if isinstance(p, Inst):
        f = p.cls.lookup("__fspath__")
        if f is None:
            raise Undecided("path object")
        p = it.call(BoundM(p, f), [], {})
    if not isinstance(p, str):
        raise Undecided("path")
    return os.path.normpath(p)


def file_on_disk(it, p):
    """The file a repository-relative path names; FileNotFoundError otherwise."""
    import os
    from .loader import REPO
    full = os.path.join(REPO, p)
    if not os.path.isfile(full):
        it.throw("FileNotFoundError", f"No such file or directory: '{p}'")
    return full


@bi("open")
def b_open(it, path, mode="r", *a, **k):
    p = norm_path(it, path)
    it.events.append(("open", p, mode))
    if any(c in mode for c in "wax+"):
        it.effect("file", p)
    else:
        file_on_disk(it, p)
    f = Inst(FILE)
    f.d["path"] = p
    return f


def file_text(it, o, *a):
    return f"<contents of {o.d['path']}>"


FILE = ClassV("file", [], {
    "read": Native("read", file_text), "close": Native("close", lambda it, o: None), "readable": Native("readable", lambda it, o: True),
    "__enter__": Native("enter", lambda it, o: o), "__exit__": Native("exit", lambda it, o, *a: None)})


def construct(it, name, args, kw):
    if name == "dict":
        d = DictV({})
        dict_init(it, d, *args, **kw)
        return d
    if name in ("list", "tuple", "set", "frozenset"):
        if not args:
            return {"list": ListV(()), "tuple": ()}.get(name, None) if name in ("list", "tuple") else SetV(())
        r = it.iterate(args[0])
        if isinstance(r, tuple):
            lo, hi, desc, get = r
            q = Seq(hi - lo, lambda i: get(lo + i) if not desc else get(hi - 1 - i))
            if name in ("list", "tuple"):
                return ListV(q)
            raise Undecided("symbolic set")
        if name == "list":
            return ListV(tuple(r))
        if name == "tuple":
            return tuple(r)
        return SetV(tuple(r))
    if name == "int":
        if not args:
            return 0
        v = args[0]
        if isinstance(v, Arr):
            v = it.as_poly(v)
            v = num(v)
        if isinstance(v, (bool, int, float, str)):
            return int(v)
        if isinstance(v, BoolV):
            return int(it.truth(v))
        if isinstance(v, Poly) and is_int_poly(v):
            return v
        if isinstance(v, Poly):
            return num(poly(T.fn("trunc", v)))
        raise Undecided("int()")
    if name == "float":
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, (bool, int, float, str)):
            return float(v)
        if isinstance(v, Poly):
            return v
        return it.as_poly(v)
    if name == "bool":
        v = args[0] if args else False
        if isinstance(v, BoolV):
            return v
        return it.truth(v)
    if name == "str":
        return it.text(args[0]) if args else ""
    if name == "slice":
        return slice(*args)
    if name == "RandomState":
        seed = args[0] if args else kw.get("seed")
        return new_rng(it, ("seeded", seed_key(seed)) if seed is not None else ("fresh",))
    raise Undecided(f"{name}()")


def new_rng(it, prov, kind="RandomState"):
    r = RNGV(prov)
    r.level = len(it.loop_syms)
    r.kind = kind
    return r


def seed_key(s):
    if isinstance(s, (int, str, float)) or s is None:
        return ("const", s)
    if isinstance(s, Poly):
        return ("term", s)
    return ("obj", getattr(s, "serial", id(s)))


def dict_init(it, o, *args, **kw):
    d = dict(o.d.get("items", {}))
    if args:
        a = args[0]
        if isinstance(a, DictV) or isinstance(a, Inst) and a.cls.native == "dict":
            d.update(a.d["items"])
        else:
            for x in it.concrete(a):
                k, v = it.unpack(x, 2)
                d[k] = v
    d.update(kw)
    it.put(o, "items", d)


# ------------------------------------------------------------ methods of builtin values
def _items(o):
    return o.d["items"]


def _dget(it, o, k, default=None):
    return _items(o).get(k, default)


def _dsetdefault(it, o, k, default=None):
    if k not in _items(o):
        it.setitem(o, k, default)
    return _items(o)[k]


def _dupdate(it, o, *a, **kw):
    it.list_effect(o)
    dict_init(it, o, *a, **kw)


def _dpop(it, o, k, *default):
    d = dict(_items(o))
    if k not in d:
        if default:
            return default[0]
        it.throw("KeyError", k)
    v = d.pop(k)
    it.list_effect(o)
    it.put(o, "items", d)
    return v


DICT_METHODS = {k: Native(k, f) for k, f in {
    "items": lambda it, o: ListV(tuple(_items(o).items())),
    "keys": lambda it, o: SetV(tuple(_items(o).keys())),
    "values": lambda it, o: ListV(tuple(_items(o).values())),
    "get": _dget, "setdefault": _dsetdefault, "update": _dupdate, "pop": _dpop,
    "copy": lambda it, o: DictV(dict(_items(o))),
}.items()}


def _lext(it, l, v):
    r = it.iterate(v)
    items = _items(l)
    it.list_effect(l)
    if isinstance(r, tuple) or isinstance(items, Seq):
        y = v.d["items"] if isinstance(v, ListV) else (tuple(r) if isinstance(r, list) else Seq(r[1] - r[0], lambda i: r[3](r[0] + i)))
        it.put(l, "items", it.seq_concat(items, y))
        return
    it.put(l, "items", items + tuple(r))


def _linsert(it, l, i, v):
    items = list(_items(l))
    it.list_effect(l)
    if isinstance(_items(l), Seq):
        raise Undecided("insert")
    items.insert(i, v)
    it.put(l, "items", tuple(items))


def _lpop(it, l, i=-1):
    if isinstance(_items(l), Seq):
        raise Undecided("pop of a symbolic list")
    items = list(_items(l))
    if not items:
        it.throw("IndexError", "pop from empty list")
    v = items.pop(i)
    it.list_effect(l)
    it.put(l, "items", tuple(items))
    return v


def _lreverse(it, l):
    items = _items(l)
    it.list_effect(l)
    if isinstance(items, Seq):
        it.put(l, "items", Seq(items.length, lambda i: A.seq_get(items, items.length - 1 - i)))
    else:
        it.put(l, "items", tuple(reversed(items)))


def _lindex(it, l, v):
    for k, x in enumerate(it.concrete(l)):
        if it.truth(it.compare("Eq", x, v)):
            return k
    it.throw("ValueError", "not in list")


def _lremove(it, l, v):
    k = _lindex(it, l, v)
    _lpop(it, l, k)


LIST_METHODS = {
    "append": lambda it, l, v: it.list_append(l, v), "extend": _lext, "insert": _linsert, "pop": _lpop,
    "reverse": _lreverse, "index": _lindex, "remove": _lremove,
    "copy": lambda it, l: ListV(_items(l)),
    "count": lambda it, l, v: sum(1 for x in it.concrete(l) if it.truth(it.compare("Eq", x, v))),
    "clear": lambda it, l: it.put(l, "items", ()),
}


def _sadd(it, s, v):
    it.list_effect(s)
    it.put(s, "items", tuple(dict.fromkeys(_items(s) + (v,))))


def _sset(it, v):
    return tuple(it.concrete(v))


SET_METHODS = {
    "add": _sadd,
    "union": lambda it, s, *o: SetV(_items(s) + tuple(x for y in o for x in _sset(it, y))),
    "difference": lambda it, s, *o: SetV(tuple(x for x in _items(s) if not any(x in _sset(it, y) for y in o))),
    "intersection": lambda it, s, o: SetV(tuple(x for x in _items(s) if x in _sset(it, o))),
    "issubset": lambda it, s, o: all(x in _sset(it, o) for x in _items(s)),
    "issuperset": lambda it, s, o: all(x in _items(s) for x in _sset(it, o)),
    "copy": lambda it, s: SetV(_items(s)),
    "discard": lambda it, s, v: it.put(s, "items", tuple(x for x in _items(s) if x != v)),
    "update": lambda it, s, o: it.put(s, "items", tuple(dict.fromkeys(_items(s) + _sset(it, o)))),
    "symmetric_difference": lambda it, s, o: SetV(tuple(x for x in _items(s) if x not in _sset(it, o)) + tuple(x for x in _sset(it, o) if x not in _items(s))),
}

STR_METHODS = ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "lstrip", "rstrip", "isdigit", "title", "capitalize", "rsplit", "splitlines", "isidentifier", "zfill", "partition")


def str_attr(it, s, name):
    if name == "format":
        def fmt(it, *a, **k):
            try:
                return s.format(*[x if isinstance(x, (int, float, str)) else it.text(x) for x in a], **{n: x if isinstance(x, (int, float, str)) else it.text(x) for n, x in k.items()})
            except (ValueError, IndexError, KeyError):
                return s
        return Native("format", fmt)
    if name == "join":
        return Native("join", lambda it, v: s.join(it.text(x) for x in it.concrete(v)))
    if name in STR_METHODS:
        def m(it, *a):
            r = getattr(s, name)(*[tuple(x) if isinstance(x, tuple) else x for x in a])
            return ListV(r) if isinstance(r, list) else r
        return Native(name, m)
    it.throw("AttributeError", f"'str' object has no attribute '{name}'")


# ------------------------------------------------------------ dtypes
def dtype_kind(it, d):
    if d is None:
        return None
    if isinstance(d, DTypeV):
        return d.k
    if isinstance(d, ClassV) and d.native in ("float", "int", "bool", "complex"):
        return {"float": "f", "int": "i", "bool": "b", "complex": "c"}[d.native]
    if d is OBJECT:
        return "o"
    if isinstance(d, str):
        s = d.lower()
        if s in ("o", "object"):
            return "o"
        if s.startswith("f") or s in ("d", "double", "<f8", ">f8", "=f8"):
            return "f"
        if s.startswith("i") or s in ("l", "q"):
            return "i"
        if s.startswith("b") or s == "?":
            return "b"
    if isinstance(d, Native) and d.name in DTYPE_NAMES:
        return DTYPE_NAMES[d.name]
    raise Undecided("dtype")


DTYPE_NAMES = {}
for _n, _k in [("float64", "f"), ("float32", "f32"), ("float_", "f"), ("double", "f"), ("floating", "f"), ("int64", "i"), ("int32", "i"), ("integer", "i"), ("intp", "i"), ("bool_", "b"), ("object_", "o"), ("longdouble", "f"), ("number", "f")]:
    DTYPE_NAMES["numpy." + _n] = _k

    def _mk(name, k):
        def f(it, v=0):
            if k == "f" and not isinstance(v, Arr):
                return construct(it, "float", [v], {})
            if k == "i":
                return construct(it, "int", [v], {})
            return it.wrap(cast(it, it.to_st(v), k))
        return f
    TABLE["numpy." + _n] = Native("numpy." + _n, _mk(_n, _k))
NATIVE_TYPES["numpy.integer"] = ClassV("np.integer", [], {})
for _n in ("numpy.floating", "numpy.float64", "numpy.int64", "numpy.number", "numpy.bool_"):
    NATIVE_TYPES[_n] = ClassV(_n, [], {})


def cast(it, st, k):
    """Value conversion of a state to a dtype kind."""
    if k is None or k == st.dtype:
        return st
    if k == "f32":
        if st.dtype == "o":
            raise Undecided("cast")
        return St(st.shape, A.ew("round32", st).c, "f", st.mask)
    if k == "f":
        if st.dtype == "o":
            raise Undecided("cast of objects")
        return St(st.shape, st.c, "f", st.mask)
    if k == "i":
        if st.dtype in ("f", "u"):
            it.effect("truncate", "cast")
            if st.dtype == "f":
                return St(st.shape, A.ew("trunc", st).c, "i", st.mask)
        return St(st.shape, st.c, "i", st.mask)
    if k == "o":
        if not st.shape:
            return St((), ("obj", it.wrap(st)), "o")
        raise Undecided("cast to object")
    if k == "u":
        if st.dtype == "f":
            it.effect("truncate", "cast")
        return St(st.shape, st.c, "u", st.mask)
    if k == "b" and st.dtype == "i" and not st.shape and st.c.is_const():
        return St((), poly(int(not st.c.is_zero())), "b")
    if k == "b":
        raise Undecided("cast to bool")
    raise Undecided("cast")


# ------------------------------------------------------------ array construction
def shape_of(it, v):
    if isinstance(v, (tuple, ListV)):
        return tuple(poly(as_index(it, x)) for x in it.concrete(v))
    if isinstance(v, NT):
        return tuple(poly(as_index(it, x)) for x in v.vals)
    if isinstance(v, Arr):
        st = it.read(v)
        if st.shape:
            return tuple(poly(as_index(it, x)) for x in it.concrete(v))
    return (poly(as_index(it, v)),)


def check_sizes(it, shape):
    for s in shape:
        if not T.known_nonneg(s) and not A.d_le(0, s):
            it.throw("ValueError", "negative dimensions are not allowed")


def filled(it, shape, v, dtype, default="f"):
    shape = shape_of(it, shape)
    check_sizes(it, shape)
    k = dtype_kind(it, dtype) or default
    if k == "o":
        return Arr(St(shape, obj_fill(shape, v), "o"))
    if k == "b":
        return Arr(St(shape, A.fill(shape, 1 if it.truth(v) else 0), "b")) if shape else it.truth(v)
    return Arr(St(shape, A.fill(shape, v), k if k != "f32" else "f"))


def obj_fill(shape, v):
    if not shape:
        return v
    return Seq(shape[0], lambda i: obj_fill(shape[1:], v))


@lib("numpy.zeros", "numpy.ma.zeros")
def np_zeros(it, shape, dtype=None, order=None):
    return filled(it, shape, 0, dtype)


@lib("numpy.ones")
def np_ones(it, shape, dtype=None, order=None):
    return filled(it, shape, 1, dtype)


@lib("numpy.empty")
def np_empty(it, shape, dtype=None, order=None):
    shape = shape_of(it, shape)
    check_sizes(it, shape)
    k = dtype_kind(it, dtype) or "f"
    if k == "o":
        return Arr(St(shape, obj_fill(shape, None), "o"))
    if k == "b":
        return Arr(St(shape, A.fill(shape, 0), "b"))
    return Arr(St(shape, A.fill(shape, poly(atom("const", "uninit"))), k))


@lib("numpy.full")
def np_full(it, shape, v, dtype=None, order=None):
    if isinstance(v, Arr) and it.read(v).shape:
        st = it.read(v)
        sh = shape_of(it, shape)
        return Arr(St(sh, A.bcast(st, sh), st.dtype))
    if isinstance(v, bool):
        return filled(it, shape, v, dtype, "b")
    st = it.to_st(v)
    return filled(it, shape, it.as_poly(v), dtype, st.dtype)


def like(v0):
    def f(it, a, dtype=None, order=None, subok=True, shape=None):
        st = it.to_st(a)
        k = dtype_kind(it, dtype) or st.dtype
        sh = st.shape if shape is None else shape_of(it, shape)
        val = v0 if v0 is not None else poly(atom("const", "uninit"))
        return Arr(St(sh, A.fill(sh, val), k, st.mask if st.mask is None else ("none",)))
    return f


TABLE["numpy.zeros_like"] = Native("zeros_like", like(0))
TABLE["numpy.ones_like"] = Native("ones_like", like(1))
TABLE["numpy.empty_like"] = Native("empty_like", like(None))


@lib("numpy.full_like")
def np_full_like(it, a, v, dtype=None):
    st = it.to_st(a)
    k = dtype_kind(it, dtype) or st.dtype
    return Arr(St(st.shape, A.fill(st.shape, it.as_poly(v)), k))


@lib("numpy.eye", "numpy.identity")
def np_eye(it, n, M=None, k=0, dtype=None):
    n = poly(as_index(it, n))
    kd = dtype_kind(it, dtype) or "f"
    M = n if M is None else poly(as_index(it, M))
    k = poly(as_index(it, k))
    if M != n or k != ZERO:
        if n == ONE and M == ONE:
            return Arr(A.st_mat(scalar_lin(poly(int(it.decide(c_eq(k))))), kd))
        return Arr(A.st_mat(of_atom(atom("reye", n, M, k, rows=n, cols=M)), kd))
    return Arr(A.st_mat(T.eye(n), kd))


@lib("numpy.arange")
def np_arange(it, a, b=None, step=1, dtype=None):
    r = b_range(it, a, b, step)
    return it.wrap(cast(it, it.to_st(r), dtype_kind(it, dtype)))


def strip_mask(a):
    return Arr(None, base=a, op=(lambda st: St(st.shape, st.c, st.dtype, None),
                                 lambda old, st: St(old.shape, st.c, old.dtype, old.mask)))


def add_mask(a):
    return Arr(None, base=a, op=(lambda st: St(st.shape, st.c, st.dtype, ("none",)),
                                 lambda old, st: St(old.shape, st.c, old.dtype, old.mask)))


def fresh(it, v, dtype=None, keepmask=False, copy=True):
    st = it.to_st(v)
    k = dtype_kind(it, dtype)
    if k is not None:
        st = cast(it, st, k)
    if not keepmask and st.mask is not None:
        st = St(st.shape, st.c, st.dtype, None)
    return Arr(st)


@lib("numpy.array")
def np_array(it, v, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(v, (MaskV, BoolSeq)):
        return v
    if isinstance(v, (ListV, tuple)):
        b = bool_list(it, v)
        if b is not None and (dtype is None or dtype_kind(it, dtype) == "b"):
            return b
    if dtype is not None and dtype_kind(it, dtype) == "o" and isinstance(v, (ListV, tuple)):
        items = v.d["items"] if isinstance(v, ListV) else v
        if isinstance(items, Seq):
            return Arr(St((items.length,), items, "o"))
        cs = list(items)
        return Arr(St((poly(len(cs)),), Seq(poly(len(cs)), lambda i: A.pick(cs, i)), "o"))
    if copy is False and isinstance(v, Arr):
        return np_asarray(it, v, dtype)
    r = fresh(it, v, dtype)
    for _ in range(ndmin - len(it.read(r).shape)):
        r = Arr(A.newaxis0(it.read(r)))
    return r


def bool_list(it, v):
    items = v.d["items"] if isinstance(v, ListV) else v
    if isinstance(items, Seq):
        s, done = it.binder(ZERO, items.length)
        try:
            res = it.explore(lambda: A.seq_get(items, poly(s)), [s])
        finally:
            done()
        if all(isinstance(x, (bool, BoolV)) for _, x in res):
            return BoolSeq((items.length,), lambda idx: A.seq_get(items, idx[0]))
        return None
    if items and all(isinstance(x, (bool, BoolV)) for x in items):
        xs = list(items)
        return BoolSeq((poly(len(xs)),), lambda idx: A.pick(xs, idx[0]))
    return None


@lib("numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray")
def np_asarray(it, v, dtype=None, order=None, copy=None):
    if isinstance(v, (MaskV, BoolSeq)):
        return v
    if isinstance(v, Arr):
        st = it.read(v)
        k = dtype_kind(it, dtype)
        if k is None or k == st.dtype:
            return v if st.mask is None else strip_mask(v)
        return Arr(cast(it, St(st.shape, st.c, st.dtype, None), k))
    return np_array(it, v, dtype)


@lib("numpy.asanyarray")
def np_asany(it, v, dtype=None):
    if isinstance(v, Arr) and dtype is None:
        return v
    return np_asarray(it, v, dtype)


@lib("numpy.ma.asarray", "numpy.ma.asanyarray")
def ma_asarray(it, v, dtype=None, order=None):
    if isinstance(v, Arr):
        st = it.read(v)
        k = dtype_kind(it, dtype)
        if k is not None and k != st.dtype:
            st = cast(it, st, k)
            return Arr(St(st.shape, st.c, st.dtype, st.mask or ("none",)))
        return v if st.mask is not None else add_mask(v)
    st = cast(it, it.to_st(v), dtype_kind(it, dtype))
    return Arr(St(st.shape, st.c, st.dtype, ("none",)))


@lib("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray")
def ma_array(it, v, dtype=None, copy=False, mask=None, ndmin=0, keep_mask=True, **kw):
    if any(x not in ("order", "subok") for x in kw):
        raise Undecided("keyword " + ", ".join(kw))
    if ndmin:
        r = ma_array(it, v, dtype=dtype, copy=copy, mask=mask, keep_mask=keep_mask)
        while len(it.read(r).shape) < ndmin:
            r = array_getitem(it, r, (None, Ellipsis))
        return r
    if mask is not None and keep_mask is False and isinstance(v, Arr):
        v = strip_mask(v)
    st = cast(it, it.to_st(v), dtype_kind(it, dtype))
    mk = st.mask or ("none",)
    if mask is not None and not (isinstance(mask, MaskV) and mask.term == ("false",)):
        mk2 = mask_term(it, mask)
        mk = mk2 if mk in (("none",),) or mk == mk2 else ("or", mk, mk2)
    if copy is False and isinstance(v, Arr) and dtype is None and mask is None:
        return ma_asarray(it, v)
    return Arr(St(st.shape, st.c, st.dtype, mk))


def mask_term(it, m):
    if isinstance(m, Arr):
        st = it.read(m)
        if st.dtype == "o" or st.mask not in (None, ("none",)):
            raise Undecided("mask value")
        return ("data", maskless(st)) if st.shape else (("all",) if it.truth(m) else ("none",))
    if isinstance(m, MaskV):
        return m.term if m.term != ("false",) else ("none",)
    if m is True:
        return ("all",)
    if m is False:
        return ("none",)
    if isinstance(m, BoolSeq):
        return ("bseq", m)
    raise Undecided("mask value")


@lib("numpy.ma.getmask")
def ma_getmask(it, v):
    if isinstance(v, Arr):
        st = it.read(v)
        if st.mask is None or st.mask == ("none",):
            return MaskV(("false",))
        return MaskV(st.mask)
    if v is None or isinstance(v, (int, float, Poly, ListV, tuple)):
        return MaskV(("false",))
    raise Undecided("getmask")


@lib("numpy.ma.getmaskarray")
def ma_getmaskarray(it, v):
    st = it.to_st(v)
    if st.mask is None or st.mask == ("none",):
        return BoolSeq(st.shape, lambda idx: False)
    return MaskV(st.mask)


@lib("numpy.ma.getdata", "numpy.ma.filled")
def ma_getdata(it, v, *a, **k):
    if isinstance(v, Arr):
        st = it.read(v)
        return v if st.mask is None else strip_mask(v)
    return np_asarray(it, v)


TABLE["numpy.ma.nomask"] = MaskV(("false",))


@lib("numpy.ma.is_masked")
def ma_is_masked(it, v):
    m = ma_getmask(it, v)
    return reduce_bool(it, m, False)


@lib("numpy.ma.isMaskedArray", "numpy.ma.isMA", "numpy.ma.isarray")
def ma_isma(it, v):
    return isinstance(v, Arr) and it.read(v).mask is not None


@lib("numpy.ma.masked_all")
def ma_masked_all(it, shape, dtype=None):
    sh = shape_of(it, shape)
    return Arr(St(sh, A.fill(sh, poly(atom("const", "uninit"))), "f", ("all",)))


@lib("numpy.ma.masked_invalid")
def ma_masked_invalid(it, v, copy=True):
    st = it.to_st(v)
    return Arr(St(st.shape, st.c, st.dtype, st.mask or ("none",)))


@lib("numpy.ma.count_masked")
def ma_count(it, v, axis=None):
    m = ma_getmask(it, v)
    if m.term == ("false",):
        return 0
    return poly(atom("fn", "countmask", m.term, extra="int"))


@lib("numpy.atleast_1d", "numpy.ma.atleast_1d")
def np_atleast_1d(it, v):
    if isinstance(v, Arr):
        if it.read(v).shape:
            return v
        return reshape_view(it, v)
    st = it.to_st(v)
    if not st.shape:
        st = A.newaxis0(st) if st.dtype != "o" else St((ONE,), Seq(ONE, lambda i, x=st: x.c[1]), "o")
    return Arr(st)


def reshape_view(it, v):
    st = it.read(v)
    if st.dtype == "o":
        return Arr(St((ONE,), Seq(ONE, lambda i, x=st: x.c[1]), "o"))
    return it.view(v, A.newaxis0, lambda base, st: St((), A.squeeze_to_scalar(st).c, base.dtype, base.mask))


@lib("numpy.atleast_2d")
def np_atleast_2d(it, v):
    r = np_asany(it, v) if not isinstance(v, Arr) else v
    n = len(it.read(r).shape)
    while n < 2:
        r = array_getitem(it, r, (None, Ellipsis))
        n += 1
    return r


@lib("numpy.ma.atleast_2d")
def ma_atleast_2d(it, v):
    return np_atleast_2d(it, ma_asarray(it, v) if not isinstance(v, Arr) else v)


@lib("numpy.copy", "copy.copy", "copy.deepcopy")
def np_copy(it, v, order=None, memo=None):
    if isinstance(v, Arr):
        return Arr(it.read(v))
    if isinstance(v, ListV):
        return ListV(v.d["items"])
    if isinstance(v, DictV):
        return DictV(v.d["items"])
    if v is None or isinstance(v, (int, float, Poly, str, tuple, OpaqueFn, FuncV)):
        return v
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.d.update(v.d)
        return o
    return np_array(it, v)


# ------------------------------------------------------------ elementwise
def ufunc(it, name, v, out=None, **k):
    if k:
        raise Undecided("keyword " + ", ".join(k))
    if out is not None:
        array_setitem(it, out, Ellipsis, ufunc(it, name, v))
        return out
    if isinstance(v, (int, float, Poly)) and not isinstance(v, bool):
        p = poly(v)
        if name in ("sqrt", "log") and p.is_const():
            if p.const() < 0 or (name == "log" and p.is_zero()):
                return poly(atom("const", "nan"))
        return num(A.scalar_fn(name, p))
    return it.wrap(A.ew(name, it.to_st(v)))


for _n, _f in [("sqrt", "sqrt"), ("log", "log"), ("exp", "exp"), ("abs", "abs"), ("absolute", "abs"), ("fabs", "abs"), ("sign", "sign"), ("square", "square"), ("reciprocal", "recip"),
               ("sin", "sin"), ("cos", "cos"), ("log2", "log2"), ("log10", "log10"), ("log1p", "log1p"), ("tanh", "tanh"), ("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("rint", "rint")]:
    TABLE["numpy." + _n] = Native(_n, (lambda f: lambda it, v, **k: ufunc(it, f, v, **k))(_f))
    if _n in ("sqrt", "log", "exp", "fabs", "floor", "sin", "cos"):
        TABLE["math." + _n] = TABLE["numpy." + _n]
for _n, _o in [("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("matmul", "MatMult"), ("power", "Pow"), ("floor_divide", "FloorDiv")]:
    def _bin(op):
        def f(it, a, b, out=None):
            r = it.binop(op, a, b)
            if out is not None:
                array_setitem(it, out, Ellipsis, r)
                return out
            return r
        return f
    TABLE["numpy." + _n] = Native(_n, _bin(_o))
for _n, _o in [("equal", "Eq"), ("not_equal", "NotEq"), ("greater", "Gt"), ("greater_equal", "GtE"), ("less", "Lt"), ("less_equal", "LtE")]:
    TABLE["numpy." + _n] = Native(_n, (lambda op: lambda it, a, b: it.compare(op, a, b))(_o))
TABLE["numpy.negative"] = Native("negative", lambda it, v: it.unary("USub", v))
TABLE["numpy.pi"] = poly(atom("const", "pi"))
TABLE["math.pi"] = TABLE["numpy.pi"]
TABLE["numpy.inf"] = poly(atom("const", "inf"))
TABLE["numpy.nan"] = poly(atom("const", "nan"))
TABLE["numpy.newaxis"] = None
TABLE["numpy.ndarray"] = BUILTIN_CLASSES["ndarray"]
TABLE["numpy.ma.MaskedArray"] = BUILTIN_CLASSES["MaskedArray"]
TABLE["numpy.ma.core.MaskedArray"] = BUILTIN_CLASSES["MaskedArray"]
TABLE["numpy.random.RandomState"] = BUILTIN_CLASSES["RandomState"]
TABLE["numpy.random.Generator"] = BUILTIN_CLASSES["Generator"]
TABLE["numpy.linalg.LinAlgError"] = EXC["LinAlgError"]
TABLE["scipy.linalg.LinAlgError"] = EXC["LinAlgError"]
TABLE["numpy.isscalar"] = Native("isscalar", lambda it, v: isinstance(v, (int, float, Poly, str)))
TABLE["numpy.ndim"] = Native("ndim", lambda it, v: len(it.to_st(v).shape))
TABLE["numpy.shape"] = Native("shape", lambda it, v: tuple(num(s) for s in it.to_st(v).shape))


@lib("numpy.size", "numpy.ma.size")
def np_size(it, v, axis=None):
    st = it.to_st(v)
    if axis is not None:
        return num(st.shape[axis])
    p = ONE
    for s in st.shape:
        p = p * poly(s)
    return num(p)


@lib("numpy.isnan", "numpy.isinf")
def np_isnan(it, v):
    st = it.to_st(v)
    return BoolSeq(st.shape, lambda idx: False) if st.shape else False


@lib("numpy.isfinite")
def np_isfinite(it, v):
    st = it.to_st(v)
    return BoolSeq(st.shape, lambda idx: True) if st.shape else True


@lib("numpy.nan_to_num", "numpy.real")
def np_nan_to_num(it, v, copy=True, **k):
    if copy is False:
        raise Undecided("nan_to_num in place")
    return it.wrap(it.to_st(v))


@lib("numpy.allclose", "numpy.testing.assert_allclose")
def np_allclose(it, a, b, *r, **k):
    sa, sb = it.to_st(a), it.to_st(b)
    try:
        d = A.add(sa, sb, True)
        if not isinstance(d.c, (Seq, SeqT)) and (d.c.is_zero() if isinstance(d.c, Poly) else all(x.is_zero() for r_ in d.c.g for x in r_)):
            return True
    except (Undecided, NeedSplit):
        pass
    it.fresh += 1
    return BoolV(c_atom("allclose", state_key(sa), state_key(sb)))


def state_key(st):
    if isinstance(st.c, Poly):
        return st.c
    if isinstance(st.c, Blk):
        return lin_of_blk(st.c)
    raise Undecided("comparison of sequences")


@lib("numpy.array_equal", "numpy.array_equiv")
def np_array_equal(it, a, b, equal_nan=False):
    sa, sb = it.to_st(a), it.to_st(b)
    if len(sa.shape) != len(sb.shape):
        return False
    for x, y in zip(sa.shape, sb.shape):
        if poly(x) != poly(y) and not A.d_eq(x, y):
            return False
    return np_allclose(it, a, b)


@lib("numpy.where")
def np_where(it, c, a=None, b=None):
    if a is None:
        raise Undecided("where")
    if isinstance(c, (bool, BoolV)):
        return np_array(it, a if it.truth(c) else b)
    raise Undecided("where")


@lib("numpy.clip", "numpy.maximum", "numpy.minimum", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin")
def np_clip(it, *a, **k):
    if all(not isinstance(x, Arr) for x in a) and len(a) == 2:
        raise Undecided("maximum")
    raise Undecided("clip/maximum")


def as_bools(it, v):
    """Boolean arrays with stored entries as functions of the index."""
    if isinstance(v, Arr):
        st = it.read(v)
        if st.dtype == "b" and st.shape:
            return BoolSeq(st.shape, lambda idx: BoolV(c_eq(A.index(st, tuple(idx)).c), True))
    return v


def reduce_bool(it, v, conj):
    """np.all / np.any"""
    if isinstance(v, MaskV):
        m = v.term
        if m in (("false",), ("none",)):
            return False
        if m == ("all",):
            return True
        return mask_bool(it, m, conj)
    if isinstance(v, BoolSeq):
        n = 1
        for s in v.shape:
            s = poly(s)
            if not s.is_const():
                return sym_reduce(it, v, conj)
            n *= int(s.const())
        import itertools
        for idx in itertools.product(*[range(int(poly(s).const())) for s in v.shape]):
            r = it.truth(v.fn(tuple(poly(i) for i in idx)))
            if conj and not r:
                return False
            if not conj and r:
                return True
        return conj
    if isinstance(v, (bool, BoolV)):
        return v
    if isinstance(v, Arr):
        st = it.read(v)
        if not st.shape:
            return it.truth(v)
        if st.dtype == "o":
            raise Undecided("any of objects")
        nz = BoolSeq(st.shape, lambda idx: BoolV(c_eq(A.index(st, tuple(idx)).c), True))
        return reduce_bool(it, nz, conj)
    if isinstance(v, (tuple, ListV)):
        b = bool_list(it, v)
        if b is not None:
            return reduce_bool(it, b, conj)
        return reduce_bool(it, np_array(it, v), conj)
    if isinstance(v, (int, float, Poly)):
        return it.truth(v)
    if v is None:
        return False
    raise Undecided("any/all")


def sym_reduce(it, v, conj):
    """Reduction over a symbolic number of entries."""
    syms, dones = [], []
    try:
        for s in v.shape:
            a, d = it.binder(ZERO, s)
            syms.append(a)
            dones.append(d)
        res = it.explore(lambda: it.truth(v.fn(tuple(poly(a) for a in syms))), syms)
    finally:
        for d in reversed(dones):
            d()
    vals = {x for _, x in res}
    if vals == {True}:
        if conj:
            return True
        return BoolV(c_ge(v.shape[0] - 1)) if len(v.shape) == 1 else True
    if vals == {False}:
        return False if not conj else (BoolV(c_ge(v.shape[0] - 1), True) if len(v.shape) == 1 else False)
    cases = tuple((tuple(a), x) for a, x in res)
    return BoolV(c_atom("forall" if conj else "exists", syms[0], tuple(poly(s) for s in v.shape), cases))


def mask_bool(it, m, conj):
    """any (all) entry masked."""
    if m[0] == "data":
        return reduce_bool(it, Arr(m[1]), conj) if m[1].shape else BoolV(c_eq(m[1].c), True)
    if m[0] == "row":
        return BoolV(c_atom("allmask" if conj else "anymask", m[1], *m[2:]))
    if m[0] in ("one", "T", "colof", "flat"):
        return mask_bool(it, m[1], conj)
    if m == ("all",):
        return True
    if m == ("none",):
        return False
    if m[0] == "or":
        a = mask_bool(it, m[1], conj)
        if conj:
            if it.truth(a):
                return True
            b = mask_bool(it, m[2], conj)
            return b
        if it.truth(a):
            return True
        return mask_bool(it, m[2], conj)
    if m[0] == "elem":
        return BoolV(c_atom("elemmask", m[1], m[2]))
    if m[0] == "seq":
        return BoolV(c_atom("seqall" if conj else "seqany", m[1]))
    if m[0] == "shift":
        return BoolV(c_atom("seqall" if conj else "seqany", m[1], m[2]))
    if m[0] == "bseq":
        return reduce_bool(it, m[1], conj)
    if m[0] == "part":
        return BoolV(c_atom("partall" if conj else "partany", m[1], m[2], m[3]))
    raise Undecided("reduction of a mask")


def np_anyall(conj):
    def f(it, v, axis=None, out=None, keepdims=False):
        if axis is None:
            return reduce_bool(it, v, conj)
        if isinstance(v, MaskV):
            m = v.term
            if m in (("false",), ("none",)):
                raise Undecided("axis of nomask")
            if m[0] in ("seq", "shift") and axis in (1, -1):
                n = getattr(it, "n_time", None)
                return BoolSeq((n,), lambda idx: mask_bool(it, A.rowmask(m, idx[0]), conj))
            raise Undecided("mask reduction along an axis")
        if isinstance(v, BoolSeq):
            ax = axis if axis >= 0 else axis + len(v.shape)
            sh = v.shape[:ax] + v.shape[ax + 1:]
            return BoolSeq(sh, lambda idx: reduce_bool(it, BoolSeq((v.shape[ax],), lambda j: v.fn(tuple(idx[:ax]) + tuple(j) + tuple(idx[ax:]))), conj))
        raise Undecided("any/all along an axis")
    return f


for _p in ("numpy.", "numpy.ma."):
    TABLE[_p + "any"] = Native("any", np_anyall(False))
    TABLE[_p + "all"] = Native("all", np_anyall(True))


@lib("numpy.count_nonzero")
def np_countnz(it, v, axis=None):
    if isinstance(v, MaskV):
        if v.term in (("false",), ("none",)):
            return 0
        return poly(atom("fn", "countmask", v.term, extra="int"))
    raise Undecided("count_nonzero")


def not_(it, b):
    if isinstance(b, BoolV):
        return BoolV(b.cond, not b.neg)
    return not it.truth(b)


def invert(it, v):
    v = as_bools(it, v)
    if isinstance(v, (bool, BoolV)):
        return not_(it, v)
    if isinstance(v, BoolSeq):
        return BoolSeq(v.shape, lambda idx: not_(it, v.fn(idx)))
    if isinstance(v, MaskV):
        return BoolSeq(mask_shape(it, v), lambda idx: not_(it, mask_elem(it, v, idx)))
    raise Undecided("~")


TABLE["numpy.logical_not"] = Native("logical_not", lambda it, v: invert(it, v))
TABLE["numpy.invert"] = TABLE["numpy.logical_not"]


def _logical(op):
    return lambda it, a, b: bool_binop(it, op, a, b) if isinstance(a, (BoolSeq, MaskV)) or isinstance(b, (BoolSeq, MaskV)) else it.binop(op, a if isinstance(a, (bool, BoolV)) else it.truth(a), b if isinstance(b, (bool, BoolV)) else it.truth(b))


TABLE["numpy.logical_and"] = Native("logical_and", _logical("BitAnd"))
TABLE["numpy.logical_or"] = Native("logical_or", _logical("BitOr"))


def mask_shape(it, v):
    raise Undecided("shape of a mask")


def mask_elem(it, v, idx):
    m = v.term
    for i in idx:
        m = A.rowmask(m, i)
    return mask_bool(it, m, False)


def bool_binop(it, op, a, b):
    a, b = as_bools(it, a), as_bools(it, b)
    if isinstance(a, MaskV) or isinstance(b, MaskV):
        if op in ("BitOr",):
            ta = a.term if isinstance(a, MaskV) else mask_term(it, a)
            tb = b.term if isinstance(b, MaskV) else mask_term(it, b)
            if ta in (("false",), ("none",)):
                return MaskV(tb)
            if tb in (("false",), ("none",)) or ta == tb:
                return MaskV(ta)
            return MaskV(("or", ta, tb))
        if op in ("Eq", "NotEq"):
            raise Undecided("comparison of a mask")
        raise Undecided("mask operation")
    sh = a.shape if isinstance(a, BoolSeq) else b.shape

    def el(x, idx):
        return x.fn(idx) if isinstance(x, BoolSeq) else x

    def f(idx):
        p, q = it.truth(el(a, idx)), it.truth(el(b, idx))
        return {"BitAnd": p and q, "BitOr": p or q, "BitXor": p != q, "Eq": p == q, "NotEq": p != q}[op]
    if op in ("BitAnd", "BitOr", "BitXor", "Eq", "NotEq"):
        return BoolSeq(sh, f)
    raise Undecided("boolean arithmetic")


def bool_getitem(it, o, key):
    key = key if isinstance(key, tuple) else (key,)
    if isinstance(o, BoolSeq):
        idx = []
        rest = list(o.shape)
        fixed = []
        for k in key:
            n = rest.pop(0)
            if isinstance(k, (slice, type(None), type(Ellipsis))):
                raise Undecided("slice of booleans")
            fixed.append(A.norm_index(it.as_poly(k), n))
        if not rest:
            return o.fn(tuple(fixed))
        return BoolSeq(rest, lambda idx: o.fn(tuple(fixed) + tuple(idx)))
    m = o.term
    if m == ("false",):
        it.throw("IndexError", "invalid index to scalar variable.")
    for k in key:
        if isinstance(k, slice):
            if A.is_full(k):
                continue
            if k.stop is None and k.step is None and m[0] in ("seq", "shift"):
                m = ("shift", m, poly(as_index(it, k.start)))
                continue
            raise Undecided("slice of a mask")
        if k is None:
            m = ("one", m)
            continue
        p = it.as_poly(k)
        if p.is_const() and p.const() < 0:
            raise Undecided("negative mask index")
        m = A.rowmask(m, p)
    if m[0] == "elem":
        return mask_bool(it, m, False)
    return MaskV(m)


def array_compare(it, op, a, b):
    sa = it.to_st(a) if not isinstance(a, (BoolSeq, MaskV)) else None
    sb = it.to_st(b) if not isinstance(b, (BoolSeq, MaskV)) else None
    if sa is None or sb is None:
        raise Undecided("comparison")
    if sa.dtype == "o" or sb.dtype == "o":
        raise Undecided("object comparison")
    sh = A.bshape(sa.shape, sb.shape)
    ca, cb = A.bcast(sa, sh), A.bcast(sb, sh)
    x, y = St(sh, ca, sa.dtype), St(sh, cb, sb.dtype)

    def f(idx):
        u, v = A.index(x, tuple(idx)).c, A.index(y, tuple(idx)).c
        return it.scalar_compare(op, num(u), num(v))
    return BoolSeq(sh, f)


# ------------------------------------------------------------ structure
def norm_key(it, key):
    key = key if isinstance(key, tuple) else (key,)
    out = []
    for k in key:
        if isinstance(k, Marker):
            raise IN.NeedCarry(k.loc)
        if isinstance(k, slice):
            out.append(slice(*[None if x is None else as_index(it, x) for x in (k.start, k.stop, k.step)]))
        elif k is None or k is Ellipsis:
            out.append(k)
        elif isinstance(k, bool):
            raise Undecided("boolean index")
        elif isinstance(k, (int, Poly)):
            out.append(k)
        elif isinstance(k, Arr):
            st = it.read(k)
            if st.shape or st.dtype == "b":
                raise Undecided("fancy index")
            out.append(num(st.c))
        elif isinstance(k, (ListV, BoolSeq, MaskV)):
            raise Undecided("fancy index")
        elif isinstance(k, float):
            it.throw("IndexError", "only integers, slices (`:`), ellipsis are valid indices")
        else:
            raise Undecided(f"index {type(k).__name__}")
    return tuple(out)


def array_getitem(it, a, key):
    st = it.read(a)
    if isinstance(key, str):
        raise Undecided("field access")
    fancy = fancy_key(it, st, key)
    if fancy is not None:
        return fancy
    if st.dtype == "o":
        key = norm_key(it, key)
        if len(key) > 1 and isinstance(key[0], (int, Poly)) and len(st.shape) >= len(key):
            return array_getitem(it, array_getitem(it, a, key[0]), key[1:])
        if len(key) != 1:
            raise Undecided("object index")
        k = key[0]
        if isinstance(k, slice):
            lo, hi = A.norm_slice((k.start, k.stop), st.shape[0])
            q = st.c
            return Arr(St((hi - lo,), Seq(hi - lo, lambda i: A.seq_get(q, i + lo)), "o"))
        if not st.shape:
            if k in (Ellipsis,):
                return a
            it.throw("IndexError", "too many indices for array")
        x = A.seq_get(st.c, A.norm_index(it.as_poly(k), st.shape[0]))
        return Arr(St(st.shape[1:], x, "o")) if isinstance(x, Seq) else x
    key = norm_key(it, key)
    r = A.index(st, key)
    basic = all(isinstance(k, (int, Poly)) for k in key)
    if not r.shape and basic and key:
        return it.wrap(r)
    # slices are views
    if any(k is None for k in key):
        put = None
    return it.view(a, lambda s, key=key: A.index(s, key), lambda base, new, key=key: view_store(it, base, key, new))


def fancy_key(it, st, key):
    """Integer list index on the leading axis."""
    k = key
    if isinstance(k, ListV) and not isinstance(k.d["items"], Seq) and all(isinstance(x, int) and not isinstance(x, bool) for x in k.d["items"]):
        return Arr(A.stack_list([A.index(st, (x,)) for x in k.d["items"]]))
    if isinstance(k, (BoolSeq, MaskV)):
        raise Undecided("boolean mask index")
    if isinstance(k, tuple) and any(isinstance(x, IxV) for x in k):
        pass
    return None


def view_store(it, base, key, new):
    if any(k is None for k in key):
        # drop the added axes of the stored value
        st = new
        ax = 0
        for k in key:
            if k is None:
                st = A.index(st, tuple([slice(None)] * ax + [0]))
            elif isinstance(k, slice):
                ax += 1
        key = tuple(k for k in key if k is not None)
        new = st
    r = A.assign(base, key, new)
    mk = base.mask
    return St(base.shape, r.c, base.dtype, mk)


class MaskedConst:
    """numpy.ma.masked"""


MASKED = MaskedConst()
TABLE["numpy.ma.masked"] = MASKED


def array_setitem(it, a, key, v):
    st = it.read(a)
    if v is MASKED:
        root = it.root(a)
        if st.mask is None or (a.base is not None and it.read(root).mask is not None):
            raise Undecided("masking through a view or a plain array")
        new = A.assign(St(st.shape, A.fill(st.shape, 0), "b"), norm_key(it, key), St((), poly(1), "b"))
        mk = ("data", St(st.shape, new.c, "b"))
        mk = mk if st.mask == ("none",) else ("or", st.mask, mk)
        if a.base is not None:
            it.put(a, "mask_over", mk)
        else:
            it.write(a, St(st.shape, st.c, st.dtype, mk))
        return
    if st.dtype == "o":
        key = norm_key(it, key)
        if a.base is not None or len(key) != 1 or isinstance(key[0], slice):
            raise Undecided("object store")
        i = A.norm_index(it.as_poly(key[0]), st.shape[0])
        it.write(a, St(st.shape, A.seq_put(st.c, i, v), "o"))
        return
    key = norm_key(it, key)
    if v is None:
        it.throw("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
    val = it.to_st(v)
    if val.dtype == "o":
        raise Undecided("object stored in an array")
    it.store_check(st, val, "store")
    if val.mask is not None and val.mask not in (("none",),) and st.mask is None:
        it.notes.add("masked value stored into a plain array")
    new = A.assign(st, key, val)
    mk = st.mask
    if mk is not None and val.mask not in (None, ("none",)) and val.mask != mk:
        if all(A.is_full(k) or k is Ellipsis for k in key):
            mk = val.mask
        else:
            raise Undecided("masked store")
    elif mk is not None and mk != ("none",) and val.mask in (None, ("none",)):
        if all(A.is_full(k) or k is Ellipsis for k in key):
            mk = ("none",)
        else:
            raise Undecided("store into a masked array")
    if st.dtype == "b" and val.dtype != "b":
        if not (isinstance(v, (bool, BoolV)) or not val.shape and val.c.is_const()):
            raise Undecided("store into a boolean array")
        new = A.assign(st, key, St((), poly(int(it.truth(v))), "b"))
    if st.dtype == "i" and val.dtype in ("f", "u"):
        tr = A.ew("trunc", St(val.shape, val.c, val.dtype))
        new = A.assign(st, key, St(val.shape, tr.c, "i"))
    it.write(a, St(st.shape, new.c, st.dtype, mk))


def set_array_attr(it, a, name, v):
    if name == "mask":
        st = it.read(a)
        if a.base is not None and a.base is not None:
            pass
        mk = mask_term(it, v) if not isinstance(v, MaskV) or v.term != ("false",) else ("none",)
        root = it.root(a)
        if root.owner is not None and it.read(root).mask is not None:
            it.effect("write", root.owner)
        if a.base is None:
            it.put(a, "st", St(st.shape, st.c, st.dtype, mk))
        else:
            if it.read(root).mask is not None:
                raise Undecided("mask of a view")
            it.put(a, "mask_over", mk)
        return
    if name == "shape":
        r = reshape(it, a, v)
        st = it.read(r)
        if a.base is None:
            if a.owner:
                it.effect("write", a.owner)
            it.put(a, "st", st)
            return
    raise Undecided(f"array attribute {name}")


@lib("numpy.transpose")
def np_transpose(it, a, axes=None):
    if not isinstance(a, Arr):
        a = np_array(it, a)
    st = it.read(a)
    if len(st.shape) < 2:
        return a
    if axes is not None:
        ax = tuple(int(x) for x in it.concrete(axes))
        if ax == tuple(range(len(st.shape))):
            return a
        if len(st.shape) == 3 and ax == (0, 2, 1):
            return Arr(swap_last(st))
        if ax != tuple(reversed(range(len(st.shape)))):
            raise Undecided("transpose axes")
    return it.view(a, A.transpose, lambda base, new: St(base.shape, A.transpose(new).c, base.dtype, base.mask))


def swap_last(st):
    sh = st.shape
    q = A.as_seq(st)
    return St((sh[0], sh[2], sh[1]), Seq(poly(sh[0]), lambda i: A.transpose(St(sh[1:], A.seq_get(q, i))).c), st.dtype, None)


@lib("numpy.swapaxes")
def np_swapaxes(it, a, i, j):
    st = it.to_st(a)
    r = len(st.shape)
    i, j = i % r, j % r
    if {i, j} == {0, 1} and r == 2:
        return np_transpose(it, a)
    if r == 3 and {i, j} == {1, 2}:
        return Arr(swap_last(st))
    if i == j:
        return a
    raise Undecided("swapaxes")


@lib("numpy.ravel")
def np_ravel(it, a, order="C"):
    return reshape(it, a if isinstance(a, Arr) else np_array(it, a), -1)


@lib("numpy.reshape")
def np_reshape(it, a, newshape=None, order="C", shape=None):
    return reshape(it, a if isinstance(a, Arr) else np_array(it, a), newshape if newshape is not None else shape)


def reshape(it, a, shape):
    st = it.read(a)
    shp = [as_index(it, x) for x in (it.concrete(shape) if isinstance(shape, (tuple, ListV)) else [shape])]
    tot = ONE
    for s in st.shape:
        tot = tot * poly(s)
    known = ONE
    neg = [i for i, x in enumerate(shp) if isinstance(x, int) and x == -1]
    for i, x in enumerate(shp):
        if i not in neg:
            known = known * poly(x)
    if neg:
        q = exact_div(tot, known)
        if q is None:
            raise Undecided("reshape")
        shp[neg[0]] = q
    shp = tuple(poly(x) for x in shp)
    p = ONE
    for s in shp:
        p = p * s
    if p != tot and not A.d_eq(p, tot):
        it.throw("ValueError", "cannot reshape array")
    if tuple(poly(x) for x in st.shape) == shp:
        return Arr(st) if a.owner is None else Arr(None, base=a, op=(lambda b: b, lambda b, n: n))
    core = [s for s in st.shape if poly(s) != ONE]
    core2 = [s for s in shp if s != ONE]
    if [poly(x) for x in core] == core2:
        key = tuple(0 if poly(s) == ONE else slice(None) for s in st.shape)
        e = A.index(St(st.shape, st.c, st.dtype, st.mask), key) if any(k == 0 for k in key) else st
        # re-insert unit axes
        ax = []
        j = 0
        for s in shp:
            if s == ONE:
                ax.append(None)
            else:
                ax.append(slice(None))
        r = A.index(e, tuple(ax)) if ax else e
        if not ax and r.shape:
            r = A.squeeze_to_scalar(r)
        return Arr(St(shp, r.c, r.dtype, r.mask))
    raise Undecided("reshape")


def exact_div(a, b):
    if b == ONE:
        return a
    if b.is_zero():
        return None
    try:
        q = a / b
    except ZeroDivisionError:
        return None
    for k in q.d:
        for x, e in k:
            if e < 0 or T._LIST[x].kind == "invp":
                return None
    return q


@lib("numpy.squeeze")
def np_squeeze(it, a, axis=None):
    st = it.to_st(a)
    key = []
    for i, s in enumerate(st.shape):
        one = poly(s) == ONE or (not poly(s).is_const() and axis is None and A.d_eq(s, 1))
        if axis is not None:
            axs = (axis,) if isinstance(axis, int) else tuple(axis)
            sel = i in [x % len(st.shape) for x in axs]
            if sel and not one and not A.d_eq(s, 1):
                it.throw("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
            one = sel
        key.append(0 if one else slice(None))
    return it.wrap(A.index(st, tuple(key))) if any(k == 0 for k in key) else (a if isinstance(a, Arr) else Arr(st))


@lib("numpy.expand_dims")
def np_expand(it, a, axis):
    a = a if isinstance(a, Arr) else np_array(it, a)
    r = len(it.read(a).shape)
    if axis < 0:
        axis += r + 1
    return array_getitem(it, a, tuple([slice(None)] * axis + [None]))


def seqstates(it, xs):
    if isinstance(xs, Arr):
        st = it.read(xs)
        items = it.iterate(xs)
        if isinstance(items, tuple):
            raise Undecided("stack of a sequence")
        return [it.to_st(x) for x in items]
    items = xs.d["items"] if isinstance(xs, ListV) else xs
    if isinstance(items, Seq):
        return None
    return [it.to_st(x) for x in it.concrete(xs)]


def plainmask(sts):
    return [St(s.shape, s.c, s.dtype, None) for s in sts]


@lib("numpy.concatenate")
def np_concatenate(it, xs, axis=0):
    sts = seqstates(it, xs)
    if sts is None:
        raise Undecided("concatenate of a symbolic list")
    if axis is None:
        sts = [it.read(np_ravel(it, Arr(s))) for s in sts]
        axis = 0
    return Arr(A.cat(plainmask(sts), axis))


@lib("numpy.append")
def np_append(it, a, b, axis=None):
    return np_concatenate(it, (a, b), axis)


@lib("numpy.vstack", "numpy.row_stack")
def np_vstack(it, xs):
    sts = seqstates(it, xs)
    if sts is None:
        q = xs.d["items"]
        st = it.list_state(q)
        if len(st.shape) == 2:
            return Arr(st)
        raise Undecided("vstack")
    sts = plainmask([s if len(s.shape) >= 2 else it.read(np_atleast_2d(it, Arr(s))) for s in sts])
    return Arr(A.cat(sts, 0))


@lib("numpy.hstack")
def np_hstack(it, xs):
    sts = seqstates(it, xs)
    if sts is None:
        raise Undecided("hstack")
    sts = plainmask([s if s.shape else A.newaxis0(s) for s in sts])
    return Arr(A.cat(sts, 0 if len(sts[0].shape) == 1 else 1))


@lib("numpy.column_stack")
def np_column_stack(it, xs):
    sts = seqstates(it, xs)
    if sts is None:
        raise Undecided("column_stack")
    return Arr(A.cat([A.transpose(A.newaxis0(s)) if len(s.shape) == 1 else s for s in plainmask(sts)], 1))


@lib("numpy.stack")
def np_stack(it, xs, axis=0):
    items = xs.d["items"] if isinstance(xs, ListV) else xs
    if isinstance(items, Seq):
        st = it.list_state(items)
    else:
        st = A.stack_list(plainmask(seqstates(it, xs)))
    if axis == 0:
        return Arr(st)
    if len(st.shape) == 2 and axis in (1, -1):
        return Arr(A.transpose(st))
    raise Undecided("stack axis")


@lib("numpy.block")
def np_block(it, rows):
    rs = it.concrete(rows)
    if rs and isinstance(rs[0], (ListV, tuple)):
        return Arr(A.cat([A.cat([it.to_st(x) for x in it.concrete(r)], 1) for r in rs], 0))
    sts = [it.to_st(x) for x in rs]
    return Arr(A.cat(sts, len(sts[0].shape) - 1))


IxV = type("IxV", (), {})


@lib("numpy.tile")
def np_tile(it, a, reps):
    st = it.to_st(a)
    reps = [poly(as_index(it, x)) for x in (it.concrete(reps) if isinstance(reps, (tuple, ListV)) else [reps])]
    while len(reps) < len(st.shape):
        reps.insert(0, ONE)
    while len(st.shape) < len(reps):
        st = A.newaxis0(st)
    if len(reps) == 2:
        if all(r == ONE for r in reps):
            return Arr(St(st.shape, st.c, st.dtype))
        if reps[1] == ONE and poly(st.shape[0]) == ONE:
            sh = (reps[0], st.shape[1])
            return Arr(St(sh, A.bcast(St(st.shape, st.c, st.dtype), sh), st.dtype))
        if reps[0] == ONE and poly(st.shape[1]) == ONE:
            sh = (st.shape[0], reps[1])
            return Arr(St(sh, A.bcast(St(st.shape, st.c, st.dtype), sh), st.dtype))
    if len(reps) == 1:
        if reps[0] == ONE:
            return Arr(st)
        if poly(st.shape[0]) == ONE:
            return Arr(St((reps[0],), A.bcast(st, (reps[0],)), st.dtype))
    if len(reps) == 3 and poly(st.shape[0]) == ONE and reps[1] == ONE and reps[2] == ONE:
        sh = (reps[0],) + tuple(st.shape[1:])
        return Arr(St(sh, A.bcast(st, sh), st.dtype))
    if all(r.is_const() for r in reps) and len(reps) <= 2:
        cur = st
        for ax, r in enumerate(reps):
            cur = A.cat([cur] * int(r.const()), ax)
        return Arr(cur)
    raise Undecided("tile")


@lib("numpy.repeat")
def np_repeat(it, a, n, axis=None):
    st = it.to_st(a)
    n = poly(as_index(it, n))
    if axis is None and not st.shape:
        return Arr(St((n,), A.fill((n,), st.c), st.dtype))
    if axis == 0 and st.shape and poly(st.shape[0]) == ONE:
        sh = (n,) + tuple(st.shape[1:])
        return Arr(St(sh, A.bcast(st, sh), st.dtype))
    if axis in (1, -1) and len(st.shape) == 2 and poly(st.shape[1]) == ONE:
        sh = (st.shape[0], n)
        return Arr(St(sh, A.bcast(st, sh), st.dtype))
    raise Undecided("repeat")


@lib("numpy.broadcast_to")
def np_broadcast_to(it, a, shape):
    st = it.to_st(a)
    sh = shape_of(it, shape)
    A.bcast_to(st, sh)
    return Arr(St(sh, A.bcast(st, sh), st.dtype))


@lib("numpy.diag", "numpy.diagflat")
def np_diag(it, v, k=0):
    st = it.to_st(v)
    if k != 0:
        raise Undecided("diag offset")
    if len(st.shape) == 1:
        return Arr(A.st_mat(T.diag_of_vector(st.c), st.dtype))
    if len(st.shape) == 2:
        if A.kind(st.shape) == "m":
            r, c = poly(st.shape[0]), poly(st.shape[1])
            if r != c:
                if r == ONE or c == ONE:
                    return Arr(A.index(st, (slice(0, 1), 0)))
        return Arr(A.diagonal(st))
    it.throw("ValueError", "Input must be 1- or 2-d.")


@lib("numpy.diagonal")
def np_diagonal(it, v, offset=0, axis1=0, axis2=1):
    return Arr(A.diagonal(it.to_st(v)))


@lib("numpy.trace")
def np_trace(it, v):
    return it.wrap(A.total(A.diagonal(it.to_st(v))))


@lib("numpy.triu")
def np_triu(it, v, k=0):
    st = it.to_st(v)
    x = lin_of_blk(A.mat(st))
    if k != 0:
        raise Undecided("triu offset")
    return Arr(A.st_mat(tri_part(x, True), st.dtype))


@lib("numpy.tril")
def np_tril(it, v, k=0):
    st = it.to_st(v)
    x = lin_of_blk(A.mat(st))
    if k == 0:
        return Arr(A.st_mat(tri_part(x, False), st.dtype))
    if k == -1:
        return Arr(A.st_mat(tri_part(x, False) - lin_of_blk(T.diag_of_vector(blk(A.diag_lin(x)))), st.dtype))
    raise Undecided("tril offset")


def tri_part(x, upper):
    if x.rows == ONE and x.cols == ONE:
        return x
    if x.is_identity() or x.is_zero():
        return x
    s = T.single_atom(x)
    if s is not None and s[0].kind == "chol" and s[1] == upper:
        return x
    if s is not None and s[0].kind == "triu" and not s[1] and upper:
        return x
    if not upper:
        return tri_part(x.T, True).T
    out = T.zeros(x.rows, x.cols)
    for w, c in x.d.items():
        l = Lin(x.rows, x.cols, {w: ONE})
        if not w:
            out = out + l.scale(c)
        else:
            out = out + of_atom(atom("triu", l, rows=x.rows, cols=x.cols)).scale(c)
    return out


# ------------------------------------------------------------ products and sums
def maskless(st):
    return St(st.shape, st.c, st.dtype, None) if st.mask is not None else st


def prodmask(a, b):
    return None


@lib("numpy.dot", "numpy.ma.dot")
def np_dot(it, a, b, out=None, strict=False):
    sa, sb = it.to_st(a), it.to_st(b)
    if "o" in (sa.dtype, sb.dtype):
        raise Undecided("dot of objects")
    return dot_states(it, sa, sb)


def dot_states(it, sa, sb):
    r = A.dot(maskless(sa), maskless(sb))
    mk = None
    for s in (sa, sb):
        if s.mask is not None:
            it.notes.add("product with a masked operand")
            mk = ("none",) if s.mask == ("none",) else ("prod", s.mask)
    if mk == ("none",):
        mk = None
    if mk is not None:
        raw = r
        return it.wrap(St(r.shape, r.c, r.dtype, None)) if not mk else it.wrap(St(r.shape, r.c, r.dtype, keep_prod(sa, sb)))
    return it.wrap(r)


def keep_prod(sa, sb):
    """ndarray.dot keeps no information about which entries are masked."""
    s = sa if sa.mask not in (None, ("none",)) else sb
    m = s.mask
    if len(sa.shape) == 2 and len(sb.shape) == 2 and sb.mask is not None and m[0] == "T":
        return m
    return m


@lib("numpy.outer")
def np_outer(it, a, b):
    sa, sb = it.to_st(a), it.to_st(b)
    if len(sa.shape) > 1:
        sa = it.to_st(np_ravel(it, Arr(sa)))
    if len(sb.shape) > 1:
        sb = it.to_st(np_ravel(it, Arr(sb)))
    if not sa.shape:
        sa = A.newaxis0(sa)
    if not sb.shape:
        sb = A.newaxis0(sb)
    if A.kind(sa.shape) == "q" or A.kind(sb.shape) == "q":
        return it.wrap(A.mul(A.transpose(A.newaxis0(maskless(sa))), A.newaxis0(maskless(sb))))
    return Arr(A.st_mat(A.outer(sa.c, sb.c), A.promote(sa.dtype, sb.dtype)))


@lib("numpy.inner", "numpy.vdot")
def np_inner(it, a, b):
    sa, sb = it.to_st(a), it.to_st(b)
    return it.wrap(A.dot(maskless(sa), A.transpose(maskless(sb)) if len(sb.shape) == 2 else maskless(sb)))


@lib("numpy.linalg.multi_dot")
def np_multi_dot(it, xs):
    items = it.concrete(xs)
    r = items[0]
    for x in items[1:]:
        r = np_dot(it, r, x)
    return r


@lib("numpy.einsum")
def np_einsum(it, spec, *ops, optimize=False):
    ins, _, out = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    sts = [maskless(it.to_st(o)) for o in ops]
    dims = {}
    for s, st in zip(ins, sts):
        if len(s) != len(st.shape):
            it.throw("ValueError", "einsum operand rank")
        for ch, d in zip(s, st.shape):
            if ch in dims:
                A.inner_check(dims[ch], d)
            else:
                dims[ch] = poly(d)
    # batched leading index
    if out and all(True for s in ins) and A.is_time(dims[out[0]]) or (out and len(out) == 3):
        b = out[0]
        n = dims[b]

        def at(i):
            sub, subs = [], []
            for s, st in zip(ins, sts):
                if b in s:
                    p = s.index(b)
                    sub.append(A.index(st, tuple(i if j == p else slice(None) for j in range(len(s)))))
                    subs.append(s.replace(b, ""))
                else:
                    sub.append(st)
                    subs.append(s)
            return einsum_core(it, subs, sub, out[1:]).c
        return it.wrap(A.demote(St(tuple(dims[c] for c in out), Seq(n, at), "f")))
    return it.wrap(einsum_core(it, ins, sts, out))


def einsum_core(it, ins, sts, out):
    ins, sts = list(ins), list(sts)
    # sum out a shared time index
    cur, cs = sts[0], ins[0]
    rest = list(zip(ins[1:], sts[1:]))
    while rest:
        s, st = rest.pop(0)
        later = set("".join(x for x, _ in rest)) | set(out)
        shared = [c for c in cs if c in s]
        if len(shared) == 1 and shared[0] not in later:
            c = shared[0]
            if len(cs) <= 2 and len(s) <= 2:
                a = cur if cs[-1] == c else A.transpose(cur)
                a_s = cs if cs[-1] == c else cs[::-1]
                b = st if s[0] == c else A.transpose(st)
                b_s = s if s[0] == c else s[::-1]
                cur = A.dot(a, b)
                cs = a_s[:-1] + b_s[1:]
                continue
        if not shared and len(cs) == 1 and len(s) == 1:
            cur = A.st_mat(A.outer(cur.c, st.c), "f")
            cs = cs + s
            continue
        if cs == s:
            cur = A.mul(cur, st)
            continue
        if len(shared) == 1 and len(cs) == 1 and len(s) == 2:
            # scaling of rows or columns
            x = st if s[1] == shared[0] else A.transpose(st)
            cur = A.mul(x, cur)
            if s[1] != shared[0]:
                cur = A.transpose(cur)
            cs = s
            continue
        if len(shared) == 1 and len(s) == 1 and len(cs) == 2:
            x = cur if cs[1] == shared[0] else A.transpose(cur)
            cur2 = A.mul(x, st)
            cur = cur2 if cs[1] == shared[0] else A.transpose(cur2)
            continue
        raise Undecided("einsum")
    # reduce indices that are not in the output
    while True:
        drop = [i for i, c in enumerate(cs) if c not in out]
        if not drop:
            break
        if len(cs) == 2 and cs[0] == cs[1]:
            cur = A.total(A.diagonal(cur))
            cs = ""
            break
        cur = A.total(cur, drop[0])
        cs = cs[:drop[0]] + cs[drop[0] + 1:]
    if cs == out:
        return cur
    if len(cs) == 2 and cs[::-1] == out:
        return A.transpose(cur)
    if len(cs) == 2 and cs[0] == cs[1] and out == cs[0]:
        return A.diagonal(cur)
    raise Undecided("einsum")


@lib("numpy.tensordot")
def np_tensordot(it, a, b, axes=2):
    sa, sb = maskless(it.to_st(a)), maskless(it.to_st(b))
    if axes == 1 or axes in ((-1, 0),):
        return it.wrap(A.dot(sa, sb))
    if isinstance(axes, tuple) and len(axes) == 2:
        x = [it.concrete(y) if isinstance(y, (tuple, ListV)) else [y] for y in axes]
        if len(x[0]) == 1 and len(sa.shape) <= 2 and len(sb.shape) <= 2:
            i, j = x[0][0] % len(sa.shape), x[1][0] % len(sb.shape)
            p = sa if i == len(sa.shape) - 1 else A.transpose(sa)
            q = sb if j == 0 else A.transpose(sb)
            return it.wrap(A.dot(p, q))
        if len(x[0]) == 1 and len(sa.shape) == 1 and len(sb.shape) == 3 and x[1][0] == 0:
            q = A.as_seq(sb)
            w = A.as_seq(sa)
            sub = tuple(sb.shape[1:])
            return it.wrap(St(sub, A.sum_seq(Seq(poly(sb.shape[0]), lambda i: A.mul(St((), A.seq_get(w, i)), St(sub, A.seq_get(q, i))).c), sub), "f"))
    raise Undecided("tensordot")


@lib("numpy.sum", "numpy.ma.sum", "math.fsum", "numpy.nansum")
def np_sum(it, v, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(v, (BoolSeq, MaskV)):
        if isinstance(v, MaskV):
            return np_countnz(it, v)
        raise Undecided("sum of booleans")
    st = it.to_st(v)
    if st.mask not in (None, ("none",)):
        raise Undecided("sum of a masked array")
    if axis is None and isinstance(v, Arr) and len(st.shape) == 0:
        return it.wrap(st)
    if isinstance(axis, tuple):
        r = maskless(st)
        for ax in sorted((x % len(st.shape) for x in axis), reverse=True):
            r = A.total(r, ax)
        return it.wrap(r)
    r = A.total(maskless(st), axis)
    if keepdims and axis is not None:
        ax = axis % len(st.shape)
        r = A.index(r, tuple([slice(None)] * ax + [None]))
    return it.wrap(r)


@lib("numpy.mean", "numpy.ma.mean", "numpy.average", "numpy.nanmean")
def np_mean(it, v, axis=None, weights=None, dtype=None, out=None, keepdims=False):
    if dtype is not None or out is not None:
        raise Undecided("mean with dtype or out")
    st = it.to_st(v)
    if weights is not None:
        w = it.to_st(weights)
        if axis in (0, None) and len(w.shape) == 1:
            ws = A.total(w)
            return it.binop("Div", it.wrap(A.dot(w, st)), it.wrap(ws))
        raise Undecided("average")
    s = np_sum(it, v, axis, keepdims=keepdims)
    if axis is None:
        n = np_size(it, v)
    else:
        n = num(st.shape[axis % len(st.shape)])
    return it.binop("Div", s, n)


@lib("numpy.cumsum", "numpy.prod", "numpy.diff", "numpy.cov", "numpy.argmax", "numpy.argmin", "numpy.sort", "numpy.unique", "numpy.nonzero", "numpy.flatnonzero", "numpy.apply_along_axis", "numpy.vectorize", "numpy.linalg.norm", "numpy.var", "numpy.std", "numpy.logaddexp", "numpy.roll", "numpy.split", "numpy.kron", "numpy.cross", "numpy.searchsorted", "numpy.take", "numpy.delete", "numpy.insert", "numpy.isclose", "numpy.ix_", "numpy.add.reduce", "numpy.flip", "numpy.apply_over_axes", "numpy.meshgrid", "numpy.linspace", "numpy.interp", "numpy.loadtxt", "numpy.load", "scipy.linalg.sqrtm", "scipy.linalg.expm", "scipy.linalg.svd", "scipy.linalg.eigh", "scipy.linalg.eig", "numpy.linalg.svd", "numpy.linalg.eigh", "numpy.linalg.eig", "numpy.linalg.cond", "numpy.linalg.matrix_rank")
def np_unmodelled(it, *a, **k):
    raise Undecided("library routine without a transfer function")


# ------------------------------------------------------------ linear algebra
def square(it, v):
    st = maskless(it.to_st(v))
    if len(st.shape) != 2:
        it.throw("ValueError", "expected square matrix")
    A.square_check(st)
    return lin_of_blk(A.mat(st))


def lin_ret(x, dtype="f"):
    return Arr(A.st_mat(x, dtype))


@lib("scipy.linalg.pinv", "numpy.linalg.pinv", "scipy.linalg.pinvh", "scipy.linalg.pinv2")
def la_pinv(it, v, *a, check_finite=True, hermitian=False, return_rank=False, **k):
    st = maskless(it.to_st(v))
    tol = tolerance(it, "pinv", a, k)
    if tol is not None:
        x = lin_of_blk(A.mat(st))
        return lin_ret(of_atom(atom("pinvtol", x, tol, rows=x.cols, cols=x.rows)))
    if return_rank:
        raise Undecided("rank")
    if len(st.shape) != 2:
        it.throw("ValueError", "expected matrix")
    x = lin_of_blk(A.mat(st))
    if x.rows != x.cols and not A.d_eq(x.rows, x.cols):
        return lin_ret(of_atom(atom("gpinv", x, rows=x.cols, cols=x.rows)))
    return lin_ret(T.pinverse(x))


@lib("scipy.linalg.inv", "numpy.linalg.inv")
def la_inv(it, v, overwrite_a=False, check_finite=True, assume_a=None, lower=False):
    special(it, v, assume_a)
    clobber(it, v, overwrite_a)
    return lin_ret(T.inverse(square(it, v)))


def tolerance(it, what, a, k):
    """A singular-value tolerance large enough to drop directions of an ordinary matrix."""
    for x in list(a) + [v for n, v in k.items() if n in ("rcond", "rtol", "atol", "cond")]:
        if x is None:
            continue
        x = it.as_poly(x)
        if not x.is_const():
            raise Undecided("tolerance of " + what)
        if x.const() > 1e-6:
            return str(float(x.const()))
    if any(n not in ("rcond", "rtol", "atol", "cond") for n in k):
        raise Undecided("keyword " + ", ".join(k))
    return None


def clobber(it, v, overwrite):
    """overwrite_a=True lets LAPACK write into the argument."""
    if overwrite is False or not it.truth(overwrite) or not isinstance(v, Arr):
        return
    if it.root(v).owner:
        it.effect("write", it.root(v).owner, "overwritten by LAPACK")


def special(it, v, assume_a):
    if assume_a in (None, "gen", "general"):
        return
    x = square(it, v)
    if x.T != x:
        raise Undecided("solve assuming structure")


def apply_inv(it, inv, b, st=None):
    sb = maskless(it.to_st(b)) if st is None else st
    s = A.st_mat(inv)
    return it.wrap(A.dot(s, sb))


@lib("scipy.linalg.solve", "numpy.linalg.solve")
def la_solve(it, a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a=None, transposed=False, sym_pos=False):
    special(it, a, "pos" if it.truth(sym_pos) else assume_a)
    clobber(it, a, overwrite_a)
    clobber(it, b, overwrite_b)
    sa = it.to_st(a)
    if len(sa.shape) == 3 or len(it.to_st(b).shape) == 3:
        raise Undecided("stacked solve")
    x = square(it, a)
    return apply_inv(it, T.inverse(x.T if transposed else x), b)


@lib("scipy.linalg.solve_triangular")
def la_solve_tri(it, a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    if it.truth(unit_diagonal):
        raise Undecided("unit_diagonal")
    clobber(it, b, overwrite_b)
    x = square(it, a)
    x = tri_part(x, not it.truth(lower))
    if trans in (1, "T", 2, "C"):
        x = x.T
    return apply_inv(it, T.inverse(x), b)


@lib("scipy.linalg.cho_factor")
def la_cho_factor(it, a, lower=False, overwrite_a=False, check_finite=True):
    clobber(it, a, overwrite_a)
    c = T.chol(square(it, a))
    c = c if isinstance(c, Lin) else lin_of_blk(c)
    return (lin_ret(c if it.truth(lower) else c.T), lower)


@lib("scipy.linalg.cho_solve")
def la_cho_solve(it, cl, b, overwrite_b=False, check_finite=True):
    clobber(it, b, overwrite_b)
    c, lower = it.unpack(cl, 2)
    x = tri_part(square(it, c), not it.truth(lower))
    L = x if it.truth(lower) else x.T
    return apply_inv(it, T.inverse(L @ L.T), b)


@lib("scipy.linalg.lstsq", "numpy.linalg.lstsq")
def la_lstsq(it, a, b, *r, overwrite_a=False, overwrite_b=False, check_finite=True, lapack_driver=None, **k):
    st = maskless(it.to_st(a))
    if tolerance(it, "lstsq", r, k) is not None:
        raise Undecided("lstsq with a tolerance")
    clobber(it, a, overwrite_a)
    clobber(it, b, overwrite_b)
    x = lin_of_blk(A.mat(st))
    if x.rows == x.cols or A.d_eq(x.rows, x.cols):
        p = T.pinverse(x)
    else:
        p = of_atom(atom("gpinv", x, rows=x.cols, cols=x.rows))
    return (apply_inv(it, p, b), None, None, None)


def cholesky(it, a, lower):
    c = T.chol(square(it, a))
    c = c if isinstance(c, Lin) else lin_of_blk(c)
    it.notes.add("cholesky")
    return lin_ret(c if lower else c.T)


@lib("scipy.linalg.cholesky")
def la_chol(it, a, lower=False, overwrite_a=False, check_finite=True):
    if it.truth(overwrite_a) and isinstance(a, Arr) and it.root(a).owner:
        it.effect("write", it.root(a).owner, "overwrite_a")
    return cholesky(it, a, it.truth(lower))


@lib("numpy.linalg.cholesky")
def la_chol_np(it, a, upper=False):
    return cholesky(it, a, not it.truth(upper))


@lib("scipy.linalg.qr", "numpy.linalg.qr")
def la_qr(it, a, overwrite_a=False, lwork=None, mode=None, pivoting=False, check_finite=True):
    if it.truth(pivoting):
        raise Undecided("pivoted qr")
    st = maskless(it.to_st(a))
    b = A.mat(st)
    m, n = b.rows, b.cols
    if it.truth(overwrite_a) and isinstance(a, Arr) and it.root(a).owner:
        it.effect("write", it.root(a).owner, "overwrite_a")
    name = mode if mode is not None else "full"
    if not (T.known_le(n, m) or A.d_le(n, m)):
        raise Undecided("qr of a wide matrix")
    g = T.bmul(b.T, b)
    R = T.chol(g) if True else None
    R = blk(R).T
    it.notes.add("qr")
    if name in ("r", "full") and m != n and name != "economic":
        if mode == "r" and False:
            pass
        Rf = T.bvstack([R, T.zeros(m - n, n)])
    else:
        Rf = R
    Rv = Arr(St((Rf.rows, Rf.cols), Rf, "f"))
    if name == "r":
        return (Rv,)
    x = lin_of_blk(b)
    if m == n or name == "economic" or name == "reduced":
        Q = Arr(A.st_mat(x @ T.inverse(lin_of_blk(R)), "f"))
        return (Q, Arr(St((R.rows, R.cols), R, "f")))
    Q = Arr(A.st_mat(of_atom(atom("qfull", x, rows=m, cols=m)), "f"))
    return (Q, Rv)


@lib("scipy.linalg.block_diag")
def la_block_diag(it, *xs):
    sts = [it.to_st(x) for x in xs]
    bs = []
    for s in sts:
        if len(s.shape) == 0:
            bs.append(blk(scalar_lin(s.c)))
        elif len(s.shape) == 1:
            bs.append(s.c.T)
        else:
            bs.append(A.mat(s))
    return Arr(A.st_mat(T.bdiag(bs), "f"))


def det_term(x):
    if x.rows == ONE:
        return x.scalar()
    s = T.single_atom(x)
    if x.is_identity():
        return ONE
    y = min((x, x.T), key=T.linkey)
    return poly(atom("fn", "det", y))


@lib("scipy.linalg.det", "numpy.linalg.det")
def la_det(it, a, overwrite_a=False, check_finite=True):
    clobber(it, a, overwrite_a)
    return det_term(square(it, a))


@lib("numpy.linalg.slogdet")
def la_slogdet(it, a):
    d = det_term(square(it, a))
    return (A.scalar_fn("sign", d), A.scalar_fn("log", A.scalar_fn("abs", d)))


# ------------------------------------------------------------ random numbers
def draw(it, rng, mean, cov, size=None):
    prov = rng.prov
    sm, sc = maskless(it.to_st(mean)), maskless(it.to_st(cov))
    if len(sm.shape) != 1:
        it.throw("ValueError", "mean must be 1 dimensional")
    if len(sc.shape) != 2:
        it.throw("ValueError", "cov must be 2 dimensional and square")
    A.inner_check(sc.shape[0], sc.shape[1])
    A.inner_check(sm.shape[0], sc.shape[0])
    if size is not None:
        sh = shape_of(it, size)
        if not (len(sh) == 1 and sh[0] == ONE):
            raise Undecided("sized draw")
    c = lin_of_blk(A.mat(sc))
    # a generator made inside a loop starts again in every iteration
    labels = tuple(it.loop_syms[rng.level:])
    key = ("draw", rng.serial, labels, prov, c)
    n = it.drawctr.d.get(key, 0)
    it.put(it.drawctr, key, n + 1)
    a = atom("noise", prov, labels, n, c, rows=c.rows, cols=ONE)
    z = scalar_lin(poly(a)) if c.rows == ONE else of_atom(a)
    it.drawn(rng)
    r = A.add(sm, St((c.rows,), blk(z), "f"))
    st = St(r.shape, r.c, "f", None)
    if size is not None:
        st = A.newaxis0(st)
    return Arr(st)


def prov_text(p):
    return str(p)


def stdnormal(it, rng, size):
    if size is None:
        c = T.eye(1)
        n = ONE
    else:
        sh = shape_of(it, size)
        if len(sh) != 1:
            raise Undecided("matrix of normals")
        n = sh[0]
        c = T.eye(n)
    r = draw(it, rng, Arr(St((n,), A.fill((n,), 0), "f")), lin_ret(c))
    return r if size is not None else it.wrap(A.index(it.read(r), (0,)))


def rng_attr(it, r, name):
    p = r.prov
    if name == "multivariate_normal":
        def mvn(it, mean, cov, size=None, check_valid="warn", tol=1e-8):
            return draw(it, r, mean, cov, size)
        return Native(name, mvn)
    if name == "standard_normal":
        return Native(name, lambda it, size=None: stdnormal(it, r, size))
    if name == "randn":
        return Native(name, lambda it, *sh: stdnormal(it, r, tuple(sh) if sh else None))
    if name in ("normal", "uniform", "rand", "random_sample", "choice", "randint", "permutation", "shuffle"):
        def other(it, *a, **k):
            it.drawn(r)
            raise Undecided(f"random {name}")
        return Native(name, other)
    if name in ("seed", "set_state"):
        def reseed(it, *a, **k):
            it.reseeded(r)
        return Native(name, reseed)
    if name == "get_state":
        return Native(name, lambda it, *a: ("state",))
    it.throw("AttributeError", f"'RandomState' object has no attribute '{name}'")


GLOBAL_RNG = RNGV(("global",))
for _n in ("multivariate_normal", "standard_normal", "randn", "normal", "uniform", "rand", "seed", "set_state", "get_state", "choice", "randint", "permutation", "shuffle"):
    def _g(name):
        return lambda it, *a, **k: it.call(rng_attr(it, GLOBAL_RNG, name), list(a), k)
    TABLE["numpy.random." + _n] = Native(_n, _g(_n))
TABLE["numpy.random.mtrand._rand"] = GLOBAL_RNG


@lib("numpy.random.default_rng")
def default_rng(it, seed=None):
    return new_rng(it, ("seeded", seed_key(seed)) if seed is not None else ("fresh",), "Generator")


# ------------------------------------------------------------ other modules
@lib("warnings.warn")
def warn(it, msg, *a, **k):
    it.events.append(("warn", msg if isinstance(msg, str) else it.text(msg), it.where()))


@lib("warnings.simplefilter", "warnings.filterwarnings")
def warnfilter(it, *a, **k):
    it.events.append(("warnfilter", a[0] if a else k.get("action")))


@lib("numpy.errstate", "contextlib.suppress", "numpy.printoptions")
def ctx(it, *a, **k):
    it.notes.add("context manager")
    return Inst(CTX)


CTX = ClassV("context", [], {"__enter__": Native("enter", lambda it, o: o)})


@lib("warnings.catch_warnings")
def catch_warnings(it, *a, record=False, **k):
    o = Inst(WCTX)
    o.d["record"] = record
    return o


def wenter(it, o):
    it.events.append(("catch", bool(o.d["record"])))
    return ListV(()) if o.d["record"] else None


WCTX = ClassV("catch_warnings", [], {"__enter__": Native("enter", wenter), "__exit__": Native("exit", lambda it, o, *a: it.events.append(("uncatch",)))})


@lib("inspect.getfullargspec")
def getfullargspec(it, f):
    names = signature_names(it, f)
    return NT(NTCls("FullArgSpec", ("args", "varargs", "varkw", "defaults", "kwonlyargs", "kwonlydefaults", "annotations")), (ListV(tuple(names)), None, None, None, ListV(()), None, DictV({})))


def signature_names(it, f):
    if isinstance(f, BoundM):
        f = f.func
    if isinstance(f, FuncV):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    it.throw("TypeError", "unsupported callable")


@lib("inspect.signature")
def insp_signature(it, f):
    names = signature_names(it, f)
    if isinstance(f, BoundM):
        names = names[1:]
    o = Inst(ClassV("Signature", [], {}))
    o.d["parameters"] = DictV({n: n for n in names})
    return o


@lib("collections.namedtuple")
def namedtuple(it, name, fields, defaults=(), **k):
    if isinstance(fields, str):
        fs = fields.replace(",", " ").split()
    else:
        fs = it.concrete(fields)
    return NTCls(name, fs, tuple(it.concrete(defaults)) if not isinstance(defaults, tuple) else defaults)


TABLE["typing.NamedTuple"] = NTCls("NamedTuple", ())
TABLE["collections.OrderedDict"] = BUILTIN_CLASSES["dict"]


@lib("functools.partial")
def partial(it, f, *a, **k):
    return Partial(f, a, k)


@lib("functools.wraps", "functools.lru_cache")
def wraps(it, *a, **k):
    return Native("id", lambda it, f: f)


@lib("functools.reduce")
def reduce(it, f, v, *init):
    xs = it.concrete(v)
    if init:
        acc = init[0]
    else:
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = it.call(f, [acc, x], {})
    return acc


@lib("itertools.chain")
def chain(it, *xs):
    return ListV(tuple(y for x in xs for y in it.concrete(x)))


@lib("itertools.repeat")
def irepeat(it, v, n=None):
    if n is None:
        raise Undecided("endless repeat")
    n = as_index(it, n)
    if isinstance(n, int):
        return ListV((v,) * n)
    return ListV(Seq(poly(n), lambda i: v))


@lib("itertools.product")
def iproduct(it, *xs):
    import itertools
    return ListV(tuple(itertools.product(*[it.concrete(x) for x in xs])))


@lib("os.path.join")
def os_join(it, *a):
    return "/".join(it.text(x) for x in a)


@lib("os.path.dirname")
def os_dirname(it, p):
    return p.rpartition("/")[0]


@lib("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath")
def os_abspath(it, p):
    return norm_path(it, p)


@lib("os.path.basename")
def os_basename(it, p):
    return norm_path(it, p).rpartition("/")[2]


@lib("os.path.exists", "os.path.isfile")
def os_exists(it, p):
    import os
    from .loader import REPO
    return os.path.isfile(os.path.join(REPO, norm_path(it, p)))


@lib("scipy.io.loadmat", "scipy.io.matlab.loadmat")
def loadmat(it, fn, mdict=None, **k):
    """A dictionary of opaque arrays with the shapes recorded in the file."""
    import scipy.io
    p = norm_path(it, fn)
    it.events.append(("loadmat", p))
    if mdict is not None or not all(isinstance(v, (bool, str)) or v is None for v in k.values()):
        raise Undecided("loadmat options")
    data = scipy.io.loadmat(file_on_disk(it, p), **k)
    return DictV({key: mat_value(it, f"{p}:{key}", v) for key, v in data.items()})


def mat_value(it, name, v):
    import numpy as np
    if not isinstance(v, np.ndarray):
        return v if isinstance(v, (str, int, float)) else it.text(str(v))
    shape = tuple(poly(s) for s in v.shape)
    if v.dtype == object:
        if v.ndim == 0 or v.ndim > 2:
            raise Undecided("cell array")
        rows = [[mat_value(it, f"{name}{list(i) + [j] if v.ndim == 2 else [j]}", x) for j, x in enumerate(row)] for i, row in (((a,), v[a]) for a in range(v.shape[0]))] if v.ndim == 2 else None
        if v.ndim == 1:
            one = [mat_value(it, f"{name}[0, {j}]", x) for j, x in enumerate(v)]
            return Arr(St(shape, Seq(shape[0], lambda i: A.pick(one, i)), "o"))
        seqs = [Seq(shape[1], lambda j, r=r: A.pick(r, j)) for r in rows]
        return Arr(St(shape, Seq(shape[0], lambda i: A.pick(seqs, i)), "o"))
    if v.dtype.kind not in "fiu" or v.ndim > 2:
        raise Undecided("mat field")
    if v.size == 0:
        raise Undecided("empty mat field")
    kind = "f" if v.dtype.kind == "f" else "i"
    vec = v.ndim < 2

    def mk(rows, cols):
        r, c = (rows, cols) if rows is not None else (ONE, ONE)
        if rows is None:
            return atom("param", name, r, c)
        return atom("param", name, r, c, rows=rows, cols=cols, sym=False)
    return Arr(St(shape, A.elem_content(mk, shape), kind))


TABLE["numpy.s_"] = IndexTrick(lambda it, key: key)


def _r_(it, key):
    key = key if isinstance(key, tuple) else (key,)
    sts = [it.to_st(x) for x in key]
    return Arr(A.cat([s if s.shape else A.newaxis0(s) for s in sts], 0))


TABLE["numpy.r_"] = IndexTrick(_r_)


def _c_(it, key):
    key = key if isinstance(key, tuple) else (key,)
    return np_column_stack(it, key)


TABLE["numpy.c_"] = IndexTrick(_c_)


# ------------------------------------------------------------ attributes of native values
def class_attr(it, c, name):
    if c.native == "dict" and name in DICT_METHODS:
        return DICT_METHODS[name]
    if name == "__init__" and c.native == "dict":
        return Native("dict.__init__", dict_init)
    if name == "__init__":
        return Native("object.__init__", lambda it, *a, **k: None)
    if name == "fromkeys" and c.native == "dict":
        return Native("fromkeys", lambda it, ks, v=None: DictV({k: v for k in it.concrete(ks)}))
    if name == "__doc__":
        return ""
    return None


ARRAY_METHODS = {
    "dot": lambda it, a, b, *r: np_dot_method(it, a, b),
    "sum": np_sum, "mean": np_mean, "copy": np_copy, "ravel": np_ravel, "flatten": lambda it, a, *k: Arr(it.read(np_ravel(it, a))),
    "squeeze": np_squeeze, "transpose": lambda it, a, *ax: np_transpose(it, a, ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, ListV)) else (tuple(ax) if ax else None)),
    "diagonal": np_diagonal, "trace": np_trace, "any": np_anyall(False), "all": np_anyall(True),
    "reshape": lambda it, a, *s, **k: reshape(it, a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, ListV)) else tuple(s)),
    "swapaxes": np_swapaxes, "repeat": np_repeat,
    "filled": lambda it, a, v=None: fill_masked(it, a, v),
    "item": lambda it, a, *k: it.wrap(A.squeeze_to_scalar(it.read(a))) if not k else array_getitem(it, a, tuple(k)),
    "tolist": lambda it, a: it.getitem(a, ()) if not it.read(a).shape else construct(it, "list", [a], {}),
    "view": lambda it, a, *k: view_method(it, a, *k),
    "conj": lambda it, a: a,
    "fill": lambda it, a, v: array_setitem(it, a, Ellipsis, v),
    "max": np_clip, "min": np_clip, "clip": np_clip,
    "__len__": b_len,
    "outer": np_outer,
}


def view_method(it, a, *k):
    if not k:
        return a
    if k[0] is BUILTIN_CLASSES.get("ndarray"):
        return ma_getdata(it, a)
    if k[0] is BUILTIN_CLASSES.get("MaskedArray"):
        return ma_asarray(it, a)
    raise Undecided("view")


def fill_masked(it, a, v):
    st = it.read(a)
    if st.mask in (None, ("none",)):
        return Arr(maskless(st))
    raise Undecided("filled()")


def np_dot_method(it, a, b):
    return dot_states(it, it.to_st(a), it.to_st(b))


def astype(it, a, dtype, order="K", casting="unsafe", subok=True, copy=True):
    st = it.read(a)
    k = dtype_kind(it, dtype)
    if not it.truth(copy) and k == st.dtype:
        return a
    return Arr(cast(it, st, k))


def attribute(it, o, name):
    if isinstance(o, Arr):
        st = it.read(o)
        if name == "shape":
            return tuple(num(s) for s in st.shape)
        if name == "ndim":
            return len(st.shape)
        if name == "T":
            return np_transpose(it, o)
        if name == "size":
            return np_size(it, o)
        if name == "dtype":
            return DTypeV(st.dtype)
        if name in ("mask", "_mask"):
            if st.mask is None:
                it.throw("AttributeError", "'numpy.ndarray' object has no attribute 'mask'")
            return ma_getmask(it, o)
        if name == "data":
            return strip_mask(o) if st.mask is not None else o
        if name in ("real", "flat"):
            return o
        if name == "astype":
            return BoundM(o, Native("astype", astype))
        if name == "__class__":
            return BUILTIN_CLASSES["MaskedArray" if st.mask is not None else "ndarray"]
        m = ARRAY_METHODS.get(name)
        if m is not None:
            return BoundM(o, Native(name, m))
        if name.startswith("__") or name in ("items", "keys", "append", "func", "values", "get", "extend", "__call__"):
            it.throw("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")
        raise Undecided(f"array attribute {name}")
    if isinstance(o, DTypeV):
        if name == "newbyteorder":
            return Native("newbyteorder", lambda it, *a: o)
        if name == "kind":
            if o.k == "u":
                raise Undecided("dtype of user data")
            return o.k
        if name == "name":
            return {"f": "float64", "i": "int64"}.get(o.k, o.k)
        if name == "type":
            return TABLE["numpy.float64" if o.k == "f" else "numpy.int64"]
        raise Undecided("dtype attribute")
    if isinstance(o, (int, float, Poly)) and not isinstance(o, bool):
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name in ("T", "real"):
            return o
        if name in ("item", "copy"):
            return Native(name, lambda it: o)
        if name == "dtype":
            return DTypeV("f")
        if isinstance(o, Poly) and name in ("sum", "mean"):
            return Native(name, lambda it, *a: o)
        if name == "is_integer":
            return Native(name, lambda it: float(o).is_integer())
        it.throw("AttributeError", f"'float' object has no attribute '{name}'")
    if isinstance(o, str):
        return str_attr(it, o, name)
    if isinstance(o, DictV):
        m = DICT_METHODS.get(name)
        if m is None:
            it.throw("AttributeError", f"'dict' object has no attribute '{name}'")
        return BoundM(o, m)
    if isinstance(o, ListV):
        m = LIST_METHODS.get(name)
        if m is None:
            it.throw("AttributeError", f"'list' object has no attribute '{name}'")
        return BoundM(o, Native(name, m))
    if isinstance(o, SetV):
        m = SET_METHODS.get(name)
        if m is None:
            it.throw("AttributeError", f"'set' object has no attribute '{name}'")
        return BoundM(o, Native(name, m))
    if isinstance(o, RNGV):
        return rng_attr(it, o, name)
    if isinstance(o, (MaskV, BoolSeq)):
        if name in ("any", "all"):
            return Native(name, lambda it, axis=None: np_anyall(name == "all")(it, o, axis))
        if name == "sum":
            return Native(name, lambda it, axis=None: np_sum(it, o, axis))
        if name == "shape" and isinstance(o, BoolSeq):
            return tuple(num(s) for s in o.shape)
        if name in ("copy", "astype"):
            return Native(name, lambda it, *a, **k: o if not a or dtype_kind(it, a[0]) == "b" else it.undecided("conversion of booleans"))
        if name == "T":
            if isinstance(o, MaskV):
                if o.term == ("false",):
                    return o
                return MaskV(o.term[1] if o.term[0] == "T" else ("T", o.term))
        if name == "ndim" and isinstance(o, BoolSeq):
            return len(o.shape)
        raise Undecided("mask attribute")
    if isinstance(o, (tuple,)):
        if name in ("index", "count"):
            return BoundM(o, Native(name, LIST_METHODS[name] if name == "count" else (lambda it, t, v: _lindex(it, ListV(t), v))))
        it.throw("AttributeError", f"'tuple' object has no attribute '{name}'")
    if isinstance(o, (FuncV, BoundM)):
        if name == "__name__":
            return o.name if isinstance(o, FuncV) else o.func.name
        if name in ("__code__",):
            raise Undecided("code object")
        if isinstance(o, FuncV) and name in o.attrs:
            return o.attrs[name]
        if name == "__self__" and isinstance(o, BoundM):
            return o.self_
        if name == "__doc__":
            return ""
        it.throw("AttributeError", f"'function' object has no attribute '{name}'")
    if o is None or isinstance(o, (bool, BoolV)):
        if isinstance(o, BoolV) and name in ("any", "all"):
            return Native(name, lambda it, *a, **k: o)
        if isinstance(o, bool) and name in ("any", "all"):
            return Native(name, lambda it, *a, **k: o)
        it.throw("AttributeError", f"'{type(o).__name__}' object has no attribute '{name}'")
    if isinstance(o, NTCls):
        if name == "_fields":
            return o.fields
        if name == "__name__":
            return o.name
        if name == "_make":
            return Native("_make", lambda it, v: NT(o, it.concrete(v)))
    if isinstance(o, Native):
        sub = TABLE.get(o.name + "." + name)
        if sub is not None:
            return sub
        if name == "__name__":
            return o.name
    if isinstance(o, OpaqueFn):
        if name == "__name__":
            return o.name
        it.throw("AttributeError", f"'function' object has no attribute '{name}'")
    if isinstance(o, Partial):
        if name == "func":
            return o.fn
        if name == "args":
            return tuple(o.args)
    raise Undecided(f"attribute {name} of {type(o).__name__}")


# module-level names
def module_ns(name):
    out = {}
    pre = name + "."
    for k, v in TABLE.items():
        if k.startswith(pre) and "." not in k[len(pre):]:
            out[k[len(pre):]] = v
    return out
