"""Linear integer facts and symbolic conditions."""
from fractions import Fraction
from . import terms as T
from .terms import Poly, poly, atom, collect_atoms


class Cond:
    """A symbolic condition: ge (p >= 0 over integers), eq (p == 0), pos (p > 0
    over reals), or an opaque boolean atom."""
    __slots__ = ("op", "p", "_h")

    def __init__(self, op, p):
        self.op, self.p = op, p
        self._h = hash((op, p))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.p == o.p

    def __repr__(self):
        if self.op == "ge":
            return f"{self.p} >= 0"
        if self.op == "eq":
            return f"{self.p} == 0"
        if self.op == "pos":
            return f"{self.p} > 0"
        return f"{self.p}"

    def term_parts(self):
        return (self.p,)

    def rw(self, go, f, memo):
        if self.op == "atom":
            a = self.p
            return Cond("atom", atom(a.kind, *[go(y) for y in a.args]))
        q = go(self.p)
        return c_eq(q) if self.op == "eq" else Cond(self.op, q)


def c_ge(p):
    return Cond("ge", poly(p))


def c_eq(p):
    p = poly(p)
    if p.d:
        lk = T.lead(p.d)
        if p.d[lk] < 0:
            p = -p
    return Cond("eq", p)


def c_atom(kind, *args):
    return Cond("atom", atom(kind, *args))


def is_int_poly(p):
    """Only integer symbols with integer coefficients."""
    for k, v in p.d.items():
        if v.denominator != 1:
            return False
        for a, e in k:
            if e < 0 or not is_int_atom(T._LIST[a]):
                return False
    return True


def is_int_atom(a):
    return a.kind == "sym" or a.extra == "int" or (a.kind == "elem" and a.args[0].dtype == "i")


class Facts:
    """Conjunction of linear constraints p >= 0 over integers."""

    def __init__(self):
        self.stack = []          # list of Poly (>= 0)
        self.cache = {}
        self.version = ()

    def push(self, p):
        self.stack.append(p)
        self.cache = {}

    def pop(self, n):
        if n:
            del self.stack[-n:]
            self.cache = {}

    def nonneg(self, e):
        """True if e >= 0 follows, False otherwise."""
        e = poly(e)
        if e.is_const():
            return e.const() >= 0
        r = self.cache.get(e)
        if r is None:
            r = self._prove(e)
            self.cache[e] = r
        return r

    def _prove(self, e):
        # quick: all coefficients push towards the bounds of the symbols
        lo = lower_bound(e)
        if lo is not None and lo >= 0:
            return True
        return not self.feasible(extra=[-e - 1], about=e)

    def feasible(self, extra=(), about=None):
        cons = [dict_of(p) for p in list(self.stack) + list(extra)]
        seen = set()
        # only constraints connected to the goal matter
        if extra:
            rel = set()
            for p in extra:
                rel |= set(vars_of(p))
            chosen = []
            rest = [(set(vars_of(p)), p) for p in self.stack]
            changed = True
            while changed:
                changed = False
                keep = []
                for vs, p in rest:
                    if vs & rel:
                        chosen.append(p)
                        rel |= vs
                        changed = True
                    else:
                        keep.append((vs, p))
                rest = keep
            cons = [dict_of(p) for p in chosen + list(extra)]
            seen = rel
        else:
            for p in self.stack:
                seen |= set(vars_of(p))
        for v in seen:
            b = bounds_of(v)
            if b[0] is not None:
                cons.append({v: Fraction(1), (): Fraction(-b[0])})
            if b[1] is not None:
                cons.append({v: Fraction(-1), (): Fraction(b[1])})
        return fm_feasible(cons)


def bounds_of(mono):
    if len(mono) == 1 and mono[0][1] == 1:
        a = T._LIST[mono[0][0]]
        if a.kind == "sym" and a.extra:
            return a.extra
        if a.extra == "int" or (a.kind == "elem" and getattr(a.args[0], "nonneg", False)):
            return (0, None) if getattr(a.args[0], "nonneg", False) else (None, None)
        return (None, None)
    # product of bounded-below symbols
    lo = Fraction(1)
    for a, e in mono:
        at = T._LIST[a]
        if at.kind != "sym" or not at.extra or at.extra[0] is None or at.extra[0] < 0 or e < 0:
            return (None, None)
        lo *= Fraction(at.extra[0]) ** e
    return (lo, None)


def lower_bound(e):
    lo = Fraction(0)
    for k, v in e.d.items():
        if not k:
            lo += v
            continue
        b = bounds_of(k)
        if v > 0:
            if b[0] is None:
                return None
            lo += v * b[0]
        else:
            if b[1] is None:
                return None
            lo += v * b[1]
    return lo


def vars_of(p):
    return [k for k in p.d if k]


def dict_of(p):
    return dict(p.d)


def tighten(c):
    """Divide by gcd of variable coefficients and floor the constant."""
    import math
    vs = [v for k, v in c.items() if k]
    if not vs:
        return c
    den = 1
    for v in c.values():
        den = den * v.denominator // math.gcd(den, v.denominator)
    g = 0
    for v in vs:
        g = math.gcd(g, int(v * den))
    out = {k: (v * den) / g for k, v in c.items() if k and v}
    k0 = Fraction(c.get((), 0) * den) / g
    out[()] = Fraction(k0.numerator // k0.denominator)
    return out


def fm_feasible(cons):
    cons = [tighten(c) for c in cons]
    for _ in range(40):
        live = []
        seen = set()
        for c in cons:
            vs = [k for k, v in c.items() if k and v]
            if not vs:
                if c.get((), 0) < 0:
                    return False
                continue
            key = tuple(sorted((k, v) for k, v in c.items()))
            if key not in seen:
                seen.add(key)
                live.append(c)
        cons = live
        if not cons:
            return True
        # pick the variable with the fewest products
        count = {}
        for c in cons:
            for k, v in c.items():
                if k and v:
                    p = count.setdefault(k, [0, 0])
                    p[v < 0] += 1
        var = min(count, key=lambda k: (count[k][0] * count[k][1], k))
        pos = [c for c in cons if c.get(var, 0) > 0]
        neg = [c for c in cons if c.get(var, 0) < 0]
        rest = [c for c in cons if not c.get(var, 0)]
        if len(pos) * len(neg) > 400:
            return True
        for a in pos:
            for b in neg:
                fa, fb = -b[var], a[var]
                c = {}
                for k in set(a) | set(b):
                    if k == var:
                        continue
                    s = a.get(k, 0) * fa + b.get(k, 0) * fb
                    if s or not k:
                        c[k] = Fraction(s)
                c.setdefault((), Fraction(0))
                rest.append(tighten(c))
        cons = rest
    return True
