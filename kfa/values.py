"""Values manipulated by the abstract interpreter."""
from .terms import Poly


class Undecided(Exception):
    """The analysis has no transfer function for a construct it met."""


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond

    def __str__(self):
        return f"undetermined condition {self.cond!r}"[:300]


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, f"{exc.cls_name()}: {exc.d.get('args')}")


_SERIAL = [0]


class Obj:
    """Something mutable: every change of .d goes through the trail."""

    def __init__(self):
        _SERIAL[0] += 1
        self.serial = _SERIAL[0]
        self.d = {}
        self.owner = None      # "user" for data handed in by the caller


class Frame(Obj):
    def __init__(self, module, parent=None, name=""):
        Obj.__init__(self)
        self.module, self.parent, self.name = module, parent, name
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.locals_names = None
        self.cls = None


class Arr(Obj):
    """ndarray handle. d['st'] = St, unless a view of another array."""

    def __init__(self, st=None, base=None, op=None):
        Obj.__init__(self)
        self.base, self.op = base, op
        if st is not None:
            self.d["st"] = st


class St:
    """Immutable array state."""
    __slots__ = ("shape", "c", "dtype", "mask")

    def __init__(self, shape, c, dtype="f", mask=None):
        self.shape, self.c, self.dtype, self.mask = tuple(shape), c, dtype, mask

    def with_(self, **k):
        return St(k.get("shape", self.shape), k.get("c", self.c), k.get("dtype", self.dtype), k.get("mask", self.mask))


class Seq:
    """Array content along a leading axis: a function of the index."""
    __slots__ = ("length", "base", "puts")

    def __init__(self, length, base, puts=()):
        self.length, self.base, self.puts = length, base, puts


class SeqT:
    """Transpose of a rank-2 Seq."""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class ListV(Obj):
    def __init__(self, items=()):
        Obj.__init__(self)
        self.d["items"] = tuple(items) if not isinstance(items, Seq) else items


class DictV(Obj):
    def __init__(self, items=None):
        Obj.__init__(self)
        self.d["items"] = dict(items or {})


class SetV(Obj):
    def __init__(self, items=()):
        Obj.__init__(self)
        self.d["items"] = tuple(dict.fromkeys(items))


class Inst(Obj):
    def __init__(self, cls):
        Obj.__init__(self)
        self.cls = cls

    def cls_name(self):
        return self.cls.name


class ClassV:
    def __init__(self, name, bases, ns, module=None, native=None):
        self.name, self.bases, self.ns, self.module, self.native = name, bases, ns, module, native
        self.mro = linearize(self)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def __repr__(self):
        return f"<class {self.name}>"


def linearize(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                out.append(h)
                for t in seqs:
                    if t and t[0] is h:
                        t.pop(0)
                break
        else:
            raise Undecided("mro")
    return out


class FuncV:
    def __init__(self, node, frame, module, name, defaults, kwdefaults, cls=None):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.name}>"


class BoundM:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Native:
    """A modelled library function."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<{self.name}>"


class ModV:
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns if ns is not None else {}

    def __repr__(self):
        return f"<module {self.name}>"


class NTCls:
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields, self.defaults = name, tuple(fields), tuple(defaults)


class NT:
    """namedtuple instance"""

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)


class SRange:
    """range with a symbolic bound (step +1 or -1)."""

    def __init__(self, lo, hi, desc=False):
        self.lo, self.hi, self.desc = lo, hi, desc


class BoolV:
    """Undecided boolean: a condition, possibly negated."""
    __slots__ = ("cond", "neg")

    def __init__(self, cond, neg=False):
        self.cond, self.neg = cond, neg


class MaskV:
    """Mask of an array: ('row', name, idx...) etc.; opaque to the program."""
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class DTypeV:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class OpaqueFn:
    """A user supplied function (one of a family when idx is given)."""

    def __init__(self, name, idx, out_dim):
        self.name, self.idx, self.out_dim = name, idx, out_dim


class RNGV(Obj):
    """Random generator with its provenance."""

    level = 0          # number of summarised loops around its creation
    kind = "RandomState"

    def __init__(self, prov):
        Obj.__init__(self)
        self.prov = prov


class Marker:
    """Value of a variable changed by the enclosing summarised loop."""

    def __init__(self, loc, force=None):
        self.loc, self.force = loc, force


class Stream:
    """Values of one location over the iterations of a loop."""
    COUNT = [0]

    def __init__(self, name, shape, dtype, desc, site, tau, outer, nonneg=False):
        Stream.COUNT[0] += 1
        self.id = Stream.COUNT[0]
        self.name, self.shape, self.dtype, self.desc, self.site = name, shape, dtype, desc, site
        self.tau, self.outer = tau, outer
        self.cases = []        # (region, assumptions, content)
        self.lo = self.hi = None   # index range
        self.shift = 0             # index = tau + shift
        self.nonneg = nonneg
        self.used = False

    def __repr__(self):
        return f"{self.name}#{self.id}"

    def __hash__(self):
        return self.id * 7919

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id
