"""Value-number terms.

Scalars are commutative Laurent polynomials (`Poly`) over scalar atoms with
rational coefficients; matrices are sums of non-commutative words over matrix
atoms with `Poly` coefficients (`Lin`), and `Blk` is a block partition of
`Lin`s.  Everything is immutable, normalised on construction and hash-consed,
so that equality of normal forms is equality of keys.
"""
from fractions import Fraction
import math

_ATOMS = {}
_LIST = []


class Atom:
    __slots__ = ("id", "kind", "args", "rows", "cols", "sym", "extra", "_h")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id * 2654435761 % (1 << 61)

    def __lt__(self, o):
        return self.id < o.id


def atom(kind, *args, rows=None, cols=None, sym=False, extra=None):
    key = (kind, args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_LIST)
        a.kind, a.args, a.rows, a.cols, a.sym, a.extra = kind, args, rows, cols, sym, extra
        _ATOMS[key] = a
        _LIST.append(a)
    return a


# ---------------------------------------------------------------- scalars
class Poly:
    __slots__ = ("d", "_h", "_k")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            return self.is_const() and self.const() == o
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def is_zero(self):
        return not self.d

    def __add__(self, o):
        o = poly(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for k, v in o.d.items():
            s = d.get(k, 0) + v
            if s:
                d[k] = s
            else:
                d.pop(k, None)
        return mkpoly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) - self

    def __mul__(self, o):
        if isinstance(o, (Lin, Blk)):
            return NotImplemented
        o = poly(o)
        if self.d == _ONE:
            return o
        if o.d == _ONE:
            return self
        if len(self.d) * len(o.d) > LET_POLY:
            a, b = let(self), let(o)
            if a is not self or b is not o:
                return a * b
        acc = Poly({})
        d = {}
        extra = None
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k, red = mono_mul(k1, k2)
                if red is not None:
                    p = red * Poly({k: v1 * v2}) if k else red * (v1 * v2)
                    extra = p if extra is None else extra + p
                    continue
                s = d.get(k, 0) + v1 * v2
                if s:
                    d[k] = s
                else:
                    d.pop(k, None)
        r = mkpoly(d)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def inverse(self):
        if not self.d:
            raise ZeroDivisionError
        if len(self.d) == 1:
            (k, v), = self.d.items()
            out = Poly({(): 1 / Fraction(v)})
            for a, e in k:
                aa = _LIST[a]
                if aa.kind == "invp":
                    out = out * ppow(aa.args[0], e)
                else:
                    out = out * Poly({((a, -e),): Fraction(1)})
            return out
        # make the polynomial primitive: leading coefficient 1
        lk = lead(self.d)
        c = self.d[lk]
        p = Poly({k: v / c for k, v in self.d.items()})
        # pull out a common monomial factor
        a = atom("invp", p)
        return Poly({((a.id, 1),): 1 / Fraction(c)})

    def __truediv__(self, o):
        return self * poly(o).inverse()

    def __rtruediv__(self, o):
        return poly(o) * self.inverse()

    def __repr__(self):
        return show_poly(self)

    def atoms(self):
        s = set()
        for k in self.d:
            for a, _ in k:
                s.add(_LIST[a])
        return s


_ONE = {(): Fraction(1)}
LET_POLY = 48
LET_LIN = 36


def let(p):
    """A name for a large polynomial (its value is that of the polynomial)."""
    if len(p.d) <= 1 or all(_LIST[a].kind == "sym" for k in p.d for a, _ in k):
        return p
    c = 0
    for k in p.d:
        c += 1
    return poly(atom("let", p))


def ite(c, a, b):
    """a when the condition holds, b otherwise."""
    if a == b:
        return a
    if isinstance(a, Poly):
        return poly(atom("ite", c, a, b))
    if a.rows == ONE and a.cols == ONE:
        return scalar_lin(poly(atom("ite", c, a.scalar(), b.scalar())))
    return of_atom(atom("ite", c, a, b, rows=a.rows, cols=a.cols, sym=bool(a.rows == a.cols and a.is_symmetric() and b.is_symmetric())))


def letm(x):
    if len(x.d) <= 2 or x.rows == ONE and x.cols == ONE:
        return x
    return of_atom(atom("letm", x, rows=x.rows, cols=x.cols, sym=bool(x.rows == x.cols and x.is_symmetric())))




def lead(d):
    return max(d, key=lambda k: (sum(abs(e) for _, e in k), k))


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else Poly({})
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else Poly({})
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return Poly({((atom("const", repr(x)).id, 1),): Fraction(1)})
        f = Fraction(repr(x))
        return Poly({(): f}) if f else Poly({})
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): Fraction(1)})
    raise TypeError(type(x))


def mkpoly(d):
    """Normalise: eliminate lead(p)*invp(p)."""
    bad = None
    for k in d:
        for a, e in k:
            if _LIST[a].kind == "invp":
                bad = True
                break
        if bad:
            break
    p = Poly(d)
    if bad:
        p = reduce_invp(p)
    return p


def reduce_invp(p):
    work = True
    n = 0
    while work and n < 50:
        work = False
        n += 1
        for k, v in list(p.d.items()):
            for a, e in k:
                at = _LIST[a]
                if at.kind != "invp" or e < 1:
                    continue
                q = at.args[0]
                lk = lead(q.d)
                if not lk:
                    continue
                kd = dict(k)
                if all(0 < le <= kd.get(la, 0) for la, le in lk):
                    # k = rest * lk * invp(q)^e ; lk*invp(q) = 1 - (q-lk)*invp(q)
                    rest = dict(kd)
                    for la, le in lk:
                        rest[la] -= le
                    rest[a] -= 1
                    rk = tuple(sorted((x, y) for x, y in rest.items() if y))
                    base = Poly({rk: v})
                    tail = Poly({kk: -vv for kk, vv in q.d.items() if kk != lk})
                    d = dict(p.d)
                    del d[k]
                    p = rawadd(Poly(d), rawadd(base, rawmul(rawmul(base, tail), Poly({((a, 1),): Fraction(1)}))))
                    work = True
                    break
            if work:
                break
    return p


def rawadd(a, b):
    d = dict(a.d)
    for k, v in b.d.items():
        s = d.get(k, 0) + v
        if s:
            d[k] = s
        else:
            d.pop(k, None)
    return Poly(d)


def rawmul(a, b):
    d = {}
    for k1, v1 in a.d.items():
        for k2, v2 in b.d.items():
            m = dict(k1)
            for x, e in k2:
                m[x] = m.get(x, 0) + e
            k = tuple(sorted((x, e) for x, e in m.items() if e))
            s = d.get(k, 0) + v1 * v2
            if s:
                d[k] = s
            else:
                d.pop(k, None)
    return Poly(d)


def mono_mul(k1, k2):
    """Multiply scalar monomials; returns (key, reducer Poly or None)."""
    if not k1:
        return k2, None
    if not k2:
        return k1, None
    m = dict(k1)
    for a, e in k2:
        m[a] = m.get(a, 0) + e
    red = None
    for a in list(m):
        e = m[a]
        if e == 0:
            del m[a]
            continue
        at = _LIST[a]
        if at.kind == "sqrt" and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            sg = 1 if e > 0 else -1
            p = ppow(at.args[0], sg * q)
            red = p if red is None else red * p
            if r:
                m[a] = sg
            else:
                del m[a]
        elif at.kind == "sign" and e >= 2:
            # sign(x)^2 = 1 for the generic (non-zero) value
            if e % 2:
                m[a] = 1
            else:
                del m[a]
    return tuple(sorted(m.items())), red


def ppow(p, n):
    p = poly(p)
    if n < 0:
        return ppow(p.inverse(), -n)
    r = poly(1)
    for _ in range(n):
        r = r * p
    return r


def psqrt(p):
    p = poly(p)
    if p.is_zero():
        return p
    if p.is_const():
        c = p.const()
        if c > 0:
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return poly(Fraction(a, b))
    if len(p.d) == 1:
        (k, v), = p.d.items()
        if k and v != 1 and v > 0:
            return psqrt(poly(v)) * psqrt(Poly({k: Fraction(1)}))
        if len(k) == 1 and v == 1 and k[0][1] == -1:
            return psqrt(poly(_LIST[k[0][0]])).inverse()
        if len(k) == 1 and v == 1 and k[0][1] == 1 and _LIST[k[0][0]].kind == "invp":
            return psqrt(_LIST[k[0][0]].args[0]).inverse()
        if len(k) > 1 and v > 0 and all(_positive_atom(_LIST[a]) for a, e in k):
            r = poly(1)
            for a, e in k:
                r = r * psqrt(Poly({((a, e),): Fraction(1)}))
            return r
        if len(k) == 1 and v == 1 and k[0][1] % 2 == 0 and _positive_atom(_LIST[k[0][0]]):
            return ppow(poly(_LIST[k[0][0]]), k[0][1] // 2)
    return poly(atom("sqrt", p))


def _positive_atom(a):
    return a.kind in ("sqrt",) or (a.kind == "sym" and a.extra is not None and a.extra[0] is not None and a.extra[0] > 0) or (a.kind == "invp") or (a.kind == "real" and a.extra == "pos")


def sym(name, lo=None, hi=None):
    """Integer symbol with optional numeric lower bound (a dimension or an index)."""
    return poly(atom("sym", name, extra=(lo, hi)))


def real(name, pos=False):
    return poly(atom("real", name, extra="pos" if pos else None))


def fn(name, *args):
    """Opaque scalar function."""
    return poly(atom("fn", name, *args))


# ---------------------------------------------------------------- matrices
ONE = poly(1)
ZERO = poly(0)


class Lin:
    """rows x cols matrix: sum of coeff * word."""

    __slots__ = ("rows", "cols", "d", "_h", "_k")

    def __init__(self, rows, cols, d):
        self.rows, self.cols, self.d = rows, cols, d
        self._h = self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.rows, self.cols, frozenset(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.rows == o.rows and self.cols == o.cols and self.d == o.d

    def __add__(self, o):
        assert self.rows == o.rows and self.cols == o.cols, (self.rows, self.cols, o.rows, o.cols)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for k, v in o.d.items():
            s = d.get(k)
            s = v if s is None else s + v
            if s.is_zero():
                d.pop(k, None)
            else:
                d[k] = s
        return Lin(self.rows, self.cols, d)

    def __neg__(self):
        return Lin(self.rows, self.cols, {k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, p):
        p = poly(p)
        if p.is_zero():
            return Lin(self.rows, self.cols, {})
        d = {}
        for k, v in self.d.items():
            q = v * p
            if not q.is_zero():
                d[k] = q
        return Lin(self.rows, self.cols, d)

    @property
    def T(self):
        out = Lin(self.cols, self.rows, {})
        d = {}
        for k, v in self.d.items():
            nk = wordT(k)
            d[nk] = d[nk] + v if nk in d else v
        return Lin(self.cols, self.rows, {k: v for k, v in d.items() if not v.is_zero()})

    def __matmul__(self, o):
        assert self.cols == o.rows, (self.cols, o.rows)
        if len(self.d) * len(o.d) > LET_LIN:
            a, b = letm(self), letm(o)
            if a is not self or b is not o:
                return a @ b
        acc = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                c = v1 * v2
                for k, v in word_product(k1, k2, self.rows, o.cols).items():
                    q = v * c
                    s = acc.get(k)
                    s = q if s is None else s + q
                    if s.is_zero():
                        acc.pop(k, None)
                    else:
                        acc[k] = s
        return Lin(self.rows, o.cols, acc)

    def is_zero(self):
        return not self.d

    def is_identity(self):
        return self.rows == self.cols and len(self.d) == 1 and () in self.d and self.d[()] == 1

    def is_symmetric(self):
        return self.rows == self.cols and self.T == self

    def scalar(self):
        assert self.rows == ONE and self.cols == ONE
        return self.d.get((), ZERO)

    def __repr__(self):
        return show_lin(self)


def zeros(r, c):
    return Lin(poly(r), poly(c), {})


def eye(n):
    n = poly(n)
    return Lin(n, n, {(): ONE})


def scalar_lin(p):
    p = poly(p)
    return Lin(ONE, ONE, {} if p.is_zero() else {(): p})


def ones(n):
    n = poly(n)
    if n == ONE:
        return scalar_lin(1)
    return of_atom(atom("ones", n, rows=n, cols=ONE))


def of_atom(a, T=False):
    r, c = (a.cols, a.rows) if T else (a.rows, a.cols)
    w = ((a, False if a.sym else T),)
    return Lin(r, c, word_reduce(w, r, c))


def wordT(w):
    return tuple((a, t if a.sym else (not t)) for a, t in reversed(w))


def frows(f):
    return f[0].cols if f[1] else f[0].rows


def fcols(f):
    return f[0].rows if f[1] else f[0].cols


def wkey(w):
    return tuple((a.id, t) for a, t in w)


_WP = {}


def word_product(k1, k2, rows, cols):
    if any(a.kind == "sel" for a, _ in k1) or any(a.kind == "sel" for a, _ in k2):
        # selections are compared under the current facts: never cached
        return word_reduce(k1 + k2, rows, cols)
    key = (k1, k2, rows, cols)
    r = _WP.get(key)
    if r is None:
        r = word_reduce(k1 + k2, rows, cols)
        _WP[key] = r
    return r


def word_reduce(w, rows, cols):
    """Normal form of a word as {word: coeff}."""
    # junction rewriting
    for i in range(len(w) - 1):
        r = junction(w[i], w[i + 1])
        if r is not None:
            left, right = w[:i], w[i + 2:]
            lrows = frows(left[0]) if left else r.rows
            rcols = fcols(right[-1]) if right else r.cols
            acc = {}
            for k, v in r.d.items():
                for kk, vv in word_reduce(left + k + right, rows, cols).items():
                    q = vv * v
                    s = acc.get(kk)
                    s = q if s is None else s + q
                    if s.is_zero():
                        acc.pop(kk, None)
                    else:
                        acc[kk] = s
            return acc
    for i in range(len(w) - 2):
        r = junction3(w[i], w[i + 1], w[i + 2])
        if r is not None:
            left, right = w[:i], w[i + 3:]
            acc = {}
            for k, v in r.d.items():
                for kk, vv in word_reduce(left + k + right, rows, cols).items():
                    q = vv * v
                    s = acc.get(kk)
                    s = q if s is None else s + q
                    if s.is_zero():
                        acc.pop(kk, None)
                    else:
                        acc[kk] = s
            return acc
    # pull scalars out at unit boundaries
    if not w:
        return {(): ONE}
    bounds = [frows(w[0])] + [fcols(f) for f in w]
    unit = [i for i, b in enumerate(bounds) if b == ONE]
    if len(unit) >= 2:
        coeff = ONE
        # segments between successive unit boundaries are scalars
        out = list(w[:unit[0]])
        for a, b in zip(unit, unit[1:]):
            coeff = coeff * seg_scalar(w[a:b])
        out += list(w[unit[-1]:])
        if coeff.is_zero():
            return {}
        return {tuple(out): coeff}
    return {w: ONE}


def seg_scalar(seg):
    if len(seg) == 1 and seg[0][0].kind == "ones":
        return ONE if seg[0][0].args[0] == ONE else ONE
    t = wordT(seg)
    if wkey(t) < wkey(seg):
        seg = t
    return poly(atom("quad", seg))


def junction(f, g):
    """Rewrite of the product of two adjacent factors, or None."""
    (a, ta), (b, tb) = f, g
    ka, kb = a.kind, b.kind
    if ka == "sel" and kb == "sel":
        if not ta and tb:  # Sel Sel^T
            return sel_selT(a, b)
        if not ta and not tb:
            lo, hi, _ = a.args
            LO, HI, N = b.args
            return sel(LO + lo, LO + hi, N)
        if ta and tb:
            # A^T B^T = (B A)^T
            return junction((b, False), (a, False)).T
        return None
    if ka == "sel" and not ta and kb == "ones" and not tb:
        return ones(a.rows)
    if ka == "ones" and ta and kb == "sel" and tb:
        return ones(b.rows).T
    if ka == "ones" and ta and kb == "ones" and not tb:
        return scalar_lin(a.args[0])
    # Cholesky factors and inverses
    if ka == "chol" and kb == "chol" and a is b and not ta and tb:
        return a.args[0] if isinstance(a.args[0], Lin) else None
    if ka == "inv" and kb == "inv":
        x, y = a.args[0], b.args[0]
        if a is b and ta and not tb:
            c = single_atom(x)
            if c is not None and c[0].kind == "chol" and not c[1] and isinstance(c[0].args[0], Lin):
                return inverse(c[0].args[0])
        return None
    if ka == "inv":
        c = single_atom(a.args[0])
        if c is not None and c[0] is b and (b.sym or (c[1] ^ ta) == tb):
            return eye(b.cols if not tb else b.rows)
    if kb == "inv":
        c = single_atom(b.args[0])
        if c is not None and c[0] is a and (a.sym or (c[1] ^ tb) == ta):
            return eye(a.rows if not ta else a.cols)
    if ka == "qfac" and kb == "qfac" and a is b and ta and not tb:
        return eye(a.cols)
    return None


def junction3(f, g, h):
    (a, ta), (b, tb), (c, tc) = f, g, h
    # inv(L) G inv(L)^T = I with G = L L^T a single atom
    if a.kind == "inv" and c is a and not ta and tc:
        s = single_atom(a.args[0])
        if s is not None and s[0].kind == "chol" and not s[1]:
            G = s[0].args[0]
            if isinstance(G, Lin):
                gs = single_atom(G)
                if gs is not None and gs[0] is b:
                    return eye(a.rows)
    return None


def single_atom(x):
    """(atom, T) when x is exactly one atom, else None."""
    if isinstance(x, Lin) and len(x.d) == 1:
        (k, v), = x.d.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return None


def sel(lo, hi, n):
    lo, hi, n = poly(lo), poly(hi), poly(n)
    if lo == ZERO and hi == n:
        return eye(n)
    if hi == lo:
        return zeros(0, n)
    if n == ONE:
        return scalar_lin(1)
    return of_atom(atom("sel", lo, hi, n, rows=hi - lo, cols=n))


def sel_selT(a, b):
    lo, hi, n = a.args
    LO, HI, _ = b.args
    if lo == LO and hi == HI:
        return eye(hi - lo)
    if known_le(hi, LO) or known_le(HI, lo):
        return zeros(hi - lo, HI - LO)
    if known_le(LO, lo) and known_le(hi, HI):
        return sel(lo - LO, hi - LO, HI - LO)
    if known_le(lo, LO) and known_le(HI, hi):
        return sel(LO - lo, HI - lo, hi - lo).T
    return None


# the fact base used to compare symbolic integers is installed by the interpreter
def _no_facts(e):
    return None


FACTS = [_no_facts]


def known_nonneg(e):
    """True when e >= 0 is known from the bounds of its symbols."""
    e = poly(e)
    if e.is_const():
        return e.const() >= 0
    return FACTS[0](e)


def known_le(a, b):
    return bool(known_nonneg(poly(b) - poly(a)))


def inverse(x):
    return _inv(x, "inv")


PINV_IS_INV = [False]


def pinverse(x):
    if PINV_IS_INV[0] and isinstance(x, Lin) and x.rows == x.cols:
        return _inv(x, "inv")
    return _inv(x, "pinv")


def invertible_atom(a):
    return a.kind in ("chol", "inv") or a.extra == "invertible"


def _inv(x, kind):
    if isinstance(x, Blk):
        x1 = x.single()
        if x1 is None:
            x1 = lin_of_blk(x)
        x = x1
    if x.rows == ONE and x.cols == ONE:
        s = x.scalar()
        if kind == "pinv" and s.is_zero():
            return x
        return scalar_lin(s.inverse())
    if x.is_zero():
        return zeros(x.cols, x.rows)
    if len(x.d) == 1:
        (k, v), = x.d.items()
        if not k:
            return eye(x.rows).scale(v.inverse())
        if v != 1:
            return _inv(Lin(x.rows, x.cols, {k: ONE}), kind).scale(v.inverse())
        if len(k) == 1 and invertible_atom(k[0][0]):
            kind = "inv"
            a, t = k[0]
            if a.kind == "inv":
                inner = a.args[0]
                return inner.T if t else inner
        if len(k) > 1 and (kind == "inv" or all(invertible_atom(a) for a, _ in k)) and all(a.rows == a.cols for a, _ in k):
            out = eye(x.cols)
            for f in k:
                out = _inv(of_atom(*f), "inv") @ out
            return out
    else:
        # pull out the content of a common scalar coefficient? keep the leading
        # coefficient's sign canonical
        pass
    xt = x.T
    s = xt == x
    if not s and linkey(xt) < linkey(x):
        a = atom(kind, xt, rows=xt.cols, cols=xt.rows)
        return of_atom(a, True)
    a = atom(kind, x, rows=x.cols, cols=x.rows, sym=s)
    return of_atom(a)


def linkey(x):
    return tuple(sorted((wkey(k), v.key()) for k, v in x.d.items()))


def chol(G):
    """Lower factor L with L L^T = G."""
    if isinstance(G, Blk):
        one = G.single()
        if one is not None:
            G = one
    if isinstance(G, Lin):
        if G.rows == ONE:
            return scalar_lin(psqrt(G.scalar()))
        if len(G.d) == 1 and () in G.d:
            return eye(G.rows).scale(psqrt(G.d[()]))
        return of_atom(atom("chol", G, rows=G.rows, cols=G.cols))
    # block diagonal matrices factor blockwise; otherwise block elimination
    k = len(G.rp)
    assert G.rp == G.cp
    L = [[zeros(G.rp[i], G.cp[j]) for j in range(k)] for i in range(k)]
    for j in range(k):
        acc = G.g[j][j]
        for p in range(j):
            acc = acc - L[j][p] @ L[j][p].T
        L[j][j] = chol(acc)
        for i in range(j + 1, k):
            acc = G.g[i][j]
            for p in range(j):
                acc = acc - L[i][p] @ L[j][p].T
            if acc.is_zero():
                continue
            L[i][j] = acc @ inverse(L[j][j]).T
    return Blk(G.rp, G.cp, L)


# ---------------------------------------------------------------- blocks
class Blk:
    __slots__ = ("rp", "cp", "g", "_h")

    def __init__(self, rp, cp, g):
        self.rp, self.cp = tuple(rp), tuple(cp)
        self.g = tuple(tuple(r) for r in g)
        self._h = None

    @property
    def rows(self):
        return sum(self.rp, ZERO)

    @property
    def cols(self):
        return sum(self.cp, ZERO)

    def single(self):
        if len(self.rp) == 1 and len(self.cp) == 1:
            return self.g[0][0]
        return None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.rp, self.cp, self.g))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Blk) and self.rp == o.rp and self.cp == o.cp and self.g == o.g

    @property
    def T(self):
        return Blk(self.cp, self.rp, [[self.g[i][j].T for i in range(len(self.rp))] for j in range(len(self.cp))])

    def map(self, f):
        return Blk(self.rp, self.cp, [[f(x) for x in r] for r in self.g])

    def refine_rows(self, rp):
        if tuple(rp) == self.rp:
            return self
        plan = split_plan(self.rp, rp)
        g = []
        for i, pieces in enumerate(plan):
            if len(pieces) == 1:
                g.append(self.g[i])
                continue
            off = ZERO
            for s in pieces:
                sl = sel(off, off + s, self.rp[i])
                g.append([sl @ x for x in self.g[i]])
                off = off + s
        return Blk(rp, self.cp, g)

    def refine_cols(self, cp):
        if tuple(cp) == self.cp:
            return self
        return self.T.refine_rows(cp).T

    def __repr__(self):
        return "[" + "; ".join(", ".join(map(repr, r)) for r in self.g) + "]"


class PartitionError(Exception):
    pass


def split_plan(coarse, fine):
    out = []
    j = 0
    for c in coarse:
        pieces = []
        acc = ZERO
        while acc != c:
            if j >= len(fine):
                raise PartitionError(f"{coarse} vs {fine}")
            acc = acc + fine[j]
            pieces.append(fine[j])
            j += 1
            if len(pieces) > 64:
                raise PartitionError("partition")
        out.append(pieces)
    if j != len(fine):
        raise PartitionError(f"{coarse} vs {fine}")
    return out


def common_parts(p, q):
    """Common refinement of two partitions of the same total."""
    if tuple(p) == tuple(q):
        return tuple(p)
    p, q = list(p), list(q)
    out = []
    while p and q:
        a, b = p[0], q[0]
        if a == b:
            out.append(a); p.pop(0); q.pop(0)
        elif known_le(a, b):
            out.append(a); p.pop(0); q[0] = b - a
        elif known_le(b, a):
            out.append(b); q.pop(0); p[0] = a - b
        else:
            raise PartitionError(f"cannot order {a} and {b}")
    if p or q:
        raise PartitionError("sizes differ")
    return tuple(out)


def blk(x):
    if isinstance(x, Blk):
        return x
    return Blk((x.rows,), (x.cols,), ((x,),))


def bsimp(b):
    """Merge mergeable neighbouring blocks (zero, ones and identity blocks)."""
    changed = True
    while changed:
        changed = False
        for axis in (0, 1):
            x = b if axis == 0 else b.T
            for i in range(len(x.rp) - 1):
                m = []
                for j in range(len(x.cp)):
                    y = merge_rows(x.g[i][j], x.g[i + 1][j])
                    if y is None:
                        break
                    m.append(y)
                else:
                    rp = x.rp[:i] + (x.rp[i] + x.rp[i + 1],) + x.rp[i + 2:]
                    x = Blk(rp, x.cp, x.g[:i] + (tuple(m),) + x.g[i + 2:])
                    b = x if axis == 0 else x.T
                    changed = True
                    break
            if changed:
                break
    return b


def merge_rows(a, b):
    """Stack of a over b as one Lin when that is expressible, else None."""
    rows = a.rows + b.rows
    if a.is_zero() and b.is_zero():
        return zeros(rows, a.cols)
    if a.rows.is_const() and a.rows.const() == 1 and b.rows.is_const() and b.rows.const() == 1:
        return None
    if len(a.d) != len(b.d):
        return None
    # every word must start with a ones column (or be scalar for a unit block)
    da = ones_heads(a)
    db = ones_heads(b)
    if da is None or db is None or da != db:
        # adjacent selectors of one word
        sa, sb = sel_heads(a), sel_heads(b)
        if sa is None or sb is None or set(sa) != set(sb):
            return None
        out = zeros(rows, a.cols)
        for k in sa:
            (s1, v1), (s2, v2) = sa[k], sb[k]
            if v1 != v2 or s1.args[2] != s2.args[2] or s1.args[1] != s2.args[0]:
                return None
            tail = Lin(s1.args[2], a.cols, {k: v1})
            out = out + sel(s1.args[0], s2.args[1], s1.args[2]) @ tail
        return out
    o = ones(rows)
    out = zeros(rows, a.cols)
    for k, v in da.items():
        out = out + o @ Lin(ONE, a.cols, {k: v})
    return out


def ones_heads(x):
    d = {}
    for k, v in x.d.items():
        if x.rows == ONE:
            return None if False else dict(x.d)
        if k and k[0][0].kind == "ones" and not k[0][1]:
            d[k[1:]] = v
        else:
            return None
    return d


def sel_heads(x):
    d = {}
    for k, v in x.d.items():
        if k and k[0][0].kind == "sel" and not k[0][1]:
            d[k[1:]] = (k[0][0], v)
        else:
            return None
    return d


def lin_of_blk(b):
    """One Lin for a partitioned matrix (as an opaque atom if need be)."""
    b = bsimp(b)
    one = b.single()
    if one is not None:
        return one
    bt = b.T
    s = b.rp == b.cp and bt == b
    a = atom("blk", b, rows=b.rows, cols=b.cols, sym=s)
    return of_atom(a)


def badd(a, b):
    a, b = blk(a), blk(b)
    rp = common_parts(a.rp, b.rp)
    cp = common_parts(a.cp, b.cp)
    a = a.refine_rows(rp).refine_cols(cp)
    b = b.refine_rows(rp).refine_cols(cp)
    return Blk(rp, cp, [[a.g[i][j] + b.g[i][j] for j in range(len(cp))] for i in range(len(rp))])


def bmul(a, b):
    a, b = blk(a), blk(b)
    mid = common_parts(a.cp, b.rp)
    a = a.refine_cols(mid)
    b = b.refine_rows(mid)
    g = []
    for i in range(len(a.rp)):
        row = []
        for j in range(len(b.cp)):
            acc = zeros(a.rp[i], b.cp[j])
            for k in range(len(mid)):
                if a.g[i][k].d and b.g[k][j].d:
                    acc = acc + a.g[i][k] @ b.g[k][j]
            row.append(acc)
        g.append(row)
    return Blk(a.rp, b.cp, g)


def beq(a, b):
    """Equality of normal forms (refining to a common partition)."""
    a, b = blk(a), blk(b)
    if a.rows != b.rows or a.cols != b.cols:
        return False
    try:
        rp = common_parts(a.rp, b.rp)
        cp = common_parts(a.cp, b.cp)
    except PartitionError:
        return False
    return a.refine_rows(rp).refine_cols(cp) == b.refine_rows(rp).refine_cols(cp)


def bhstack(xs):
    xs = [blk(x) for x in xs]
    rp = xs[0].rp
    for x in xs[1:]:
        rp = common_parts(rp, x.rp)
    xs = [x.refine_rows(rp) for x in xs]
    cp = sum((x.cp for x in xs), ())
    return Blk(rp, cp, [sum((x.g[i] for x in xs), ()) for i in range(len(rp))])


def bvstack(xs):
    return bhstack([blk(x).T for x in xs]).T


def bslice_rows(b, lo, hi):
    """Rows lo:hi of a block matrix."""
    b = blk(b)
    lo, hi = poly(lo), poly(hi)
    n = b.rows
    if lo == ZERO and hi == n:
        return b
    parts = [x for x in (lo, hi - lo, n - hi)]
    want = tuple(x for x in parts if not x.is_zero())
    rp = common_parts(b.rp, want)
    b = b.refine_rows(rp)
    off = ZERO
    rows, sizes = [], []
    for i, s in enumerate(rp):
        if known_le(lo, off) and known_le(off + s, hi):
            rows.append(b.g[i]); sizes.append(s)
        off = off + s
    if not rows:
        return Blk((ZERO,), b.cp, [[zeros(0, c) for c in b.cp]])
    return Blk(sizes, b.cp, rows)


def bput_rows(b, lo, hi, v):
    b, v = blk(b), blk(v)
    lo, hi = poly(lo), poly(hi)
    n = b.rows
    if lo == ZERO and hi == n:
        return v
    want = tuple(x for x in (lo, hi - lo, n - hi) if not x.is_zero())
    rp = common_parts(b.rp, want)
    b = b.refine_rows(rp)
    cp = common_parts(b.cp, v.cp)
    b, v = b.refine_cols(cp), v.refine_cols(cp)
    off = ZERO
    rows, sizes = [], []
    done = False
    for i, s in enumerate(rp):
        if known_le(lo, off) and known_le(off + s, hi):
            if not done:
                rows += list(v.g); sizes += list(v.rp); done = True
        else:
            rows.append(b.g[i]); sizes.append(s)
        off = off + s
    return Blk(sizes, cp, rows)


def bslice(b, rlo, rhi, clo, chi):
    return bslice_rows(bslice_rows(b, rlo, rhi).T, clo, chi).T


def bput(b, rlo, rhi, clo, chi, v):
    b = blk(b)
    mid = bslice_rows(b, rlo, rhi)
    mid = bput_rows(mid.T, clo, chi, blk(v).T).T
    return bput_rows(b, rlo, rhi, mid)


def bdiag(xs):
    xs = [blk(x) for x in xs]
    rp = sum((x.rp for x in xs), ())
    cp = sum((x.cp for x in xs), ())
    g = [[zeros(r, c) for c in cp] for r in rp]
    ro = co = 0
    for x in xs:
        for i in range(len(x.rp)):
            for j in range(len(x.cp)):
                g[ro + i][co + j] = x.g[i][j]
        ro += len(x.rp); co += len(x.cp)
    return Blk(rp, cp, g)


def diag_of_vector(v):
    """diag(v) for a column Blk."""
    v = blk(v)
    xs = []
    for i, s in enumerate(v.rp):
        x = v.g[i][0]
        if s == ONE:
            xs.append(x)
            continue
        acc = zeros(s, s)
        for k, c in x.d.items():
            if len(k) == 1 and k[0][0].kind == "ones":
                acc = acc + eye(s).scale(c)
            else:
                w = Lin(s, ONE, {k: ONE})
                acc = acc + of_atom(atom("diagm", w, rows=s, cols=s, sym=True)).scale(c)
        xs.append(acc)
    return bdiag(xs)


# ---------------------------------------------------------------- rewriting
def rewrite(x, f, memo=None):
    """Rebuild a term bottom-up; f(atom, newargs) -> replacement or None.

    For scalar atoms the replacement is a Poly, for matrix atoms a Lin.
    """
    if memo is None:
        memo = {}
    return _rw(x, f, memo)


def _rw(x, f, memo):
    if isinstance(x, Poly):
        if all(not k for k in x.d):
            return x
        r = memo.get(("p", x))
        if r is not None:
            return r
        acc = ZERO
        for k, v in x.d.items():
            t = poly(v)
            for a, e in k:
                t = t * ppow(_rwatom(_LIST[a], f, memo), e)
            acc = acc + t
        memo[("p", x)] = acc
        return acc
    if isinstance(x, Lin):
        r = memo.get(("l", x))
        if r is not None:
            return r
        rows, cols = _rw(x.rows, f, memo), _rw(x.cols, f, memo)
        acc = zeros(rows, cols)
        for k, v in x.d.items():
            c = _rw(v, f, memo)
            if not k:
                acc = acc + eye(rows).scale(c)
                continue
            t = None
            for a, tr in k:
                y = _rwatom(a, f, memo)
                if tr:
                    y = y.T
                t = y if t is None else t @ y
            acc = acc + t.scale(c)
        memo[("l", x)] = acc
        return acc
    if isinstance(x, Blk):
        rp = [_rw(p, f, memo) for p in x.rp]
        cp = [_rw(p, f, memo) for p in x.cp]
        return Blk(rp, cp, [[_rw(y, f, memo) for y in r] for r in x.g])
    if isinstance(x, tuple):
        return tuple(_rw(y, f, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_rw(y, f, memo) for y in x)
    if isinstance(x, Atom):
        r = _rwatom(x, f, memo)
        return r
    if hasattr(x, "rw"):
        return x.rw(lambda y: _rw(y, f, memo), f, memo)
    return x


BINDERS = ("sum", "lam")


def _rwatom(a, f, memo):
    r = memo.get(a.id)
    if r is not None:
        return r
    if a.kind in BINDERS:
        # the first argument is the bound symbol
        b = a.args[0]
        f2 = lambda at, args: poly(at) if at is b else f(at, args)
        sub = {}
        newargs = (b,) + tuple(_rw(y, f if i == 0 else f2, memo if i == 0 else sub) for i, y in enumerate(a.args[1:]))
        r = f(a, newargs)
        if r is None:
            r = rebuild(a, newargs, f, memo)
        memo[a.id] = r
        return r
    if a.kind == "quad":
        word = a.args[0]
        out = None
        for b, tr in word:
            y = _rwatom(b, f, memo)
            if tr:
                y = y.T
            out = y if out is None else out @ y
        r = out.scalar()
    else:
        newargs = tuple(_rw(y, f, memo) for y in a.args)
        r = f(a, newargs)
        if r is None:
            r = rebuild(a, newargs, f, memo)
    memo[a.id] = r
    return r


REBUILD = {}


def rebuild(a, args, f=None, memo=None):
    if args == a.args and a.kind not in REBUILD:
        return poly(a) if a.rows is None else of_atom(a)
    k = a.kind
    if k in REBUILD:
        return REBUILD[k](a, args)
    if k == "invp":
        return args[0].inverse()
    if k == "let":
        return let(args[0])
    if k == "letm":
        return letm(args[0])
    if k == "ite":
        return ite(*args)
    if k == "sqrt":
        return psqrt(args[0])
    if k == "ones":
        return ones(args[0])
    if k == "sel":
        return sel(*args)
    if k == "chol":
        r = chol(args[0])
        return r if isinstance(r, Lin) else lin_of_blk(r)
    if k in ("inv", "pinv"):
        return _inv(args[0], k)
    if k == "blk":
        return lin_of_blk(args[0])
    if k == "diagm":
        return lin_of_blk(diag_of_vector(args[0]))
    if a.rows is None:
        return poly(atom(k, *args, extra=a.extra))
    rows = _rw(a.rows, f, memo) if f else a.rows
    cols = _rw(a.cols, f, memo) if f else a.cols
    s = a.sym
    if rows == ONE and cols == ONE:
        return scalar_lin(poly(atom("ent", a.kind, args)))
    return of_atom(atom(k, *args, rows=rows, cols=cols, sym=s, extra=a.extra))


def subst(x, mapping):
    """Substitute integer symbols {Atom: Poly}."""
    if not mapping:
        return x

    def f(a, args):
        if a in mapping:
            return mapping[a]
        return None

    return rewrite(x, f)


def collect_atoms(x, acc=None, seen=None):
    """All atoms reachable in a term."""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, Atom):
        if x in acc:
            return acc
        acc.add(x)
        for y in x.args:
            collect_atoms(y, acc, seen)
        if x.rows is not None:
            collect_atoms(x.rows, acc, seen)
            collect_atoms(x.cols, acc, seen)
    elif isinstance(x, Poly):
        for k in x.d:
            for a, _ in k:
                collect_atoms(_LIST[a], acc, seen)
    elif isinstance(x, Lin):
        if id(x) in seen:
            return acc
        seen.add(id(x))
        collect_atoms(x.rows, acc, seen)
        collect_atoms(x.cols, acc, seen)
        for k, v in x.d.items():
            collect_atoms(v, acc, seen)
            for a, _ in k:
                collect_atoms(a, acc, seen)
    elif isinstance(x, Blk):
        for r in x.g:
            for y in r:
                collect_atoms(y, acc, seen)
        for p in x.rp + x.cp:
            collect_atoms(p, acc, seen)
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            collect_atoms(y, acc, seen)
    elif hasattr(x, "term_parts"):
        collect_atoms(x.term_parts(), acc, seen)
    return acc


# ---------------------------------------------------------------- printing
def show_poly(p):
    if not p.d:
        return "0"
    out = []
    for k, v in sorted(p.d.items())[:10]:
        s = "*".join((show_atom(_LIST[a]) + (f"^{e}" if e != 1 else "")) for a, e in k)
        if not s:
            out.append(str(v))
        elif v == 1:
            out.append(s)
        elif v == -1:
            out.append("-" + s)
        else:
            out.append(f"{v}*{s}")
    if len(p.d) > 10:
        out.append(f"... {len(p.d)} terms")
    return " + ".join(out).replace("+ -", "- ")


def show_word(k):
    return ".".join(show_atom(a) + ("'" if t else "") for a, t in k) or "I"


def show_lin(x, limit=6):
    if not x.d:
        return "0"
    out = []
    for k, v in list(sorted(x.d.items(), key=lambda kv: (len(kv[0]), wkey(kv[0]))))[:limit]:
        w = show_word(k)
        if v == 1:
            out.append(w)
        elif v == -1:
            out.append("-" + w)
        else:
            out.append(f"({show_poly(v)}){w}")
    if len(x.d) > limit:
        out.append(f"... {len(x.d)} terms")
    return " + ".join(out).replace("+ -", "- ")


_DEPTH = [0]


def show_atom(a):
    if _DEPTH[0] > 3:
        return f"<{a.kind}#{a.id}>"
    _DEPTH[0] += 1
    try:
        if a.kind in ("sym", "real", "param"):
            n = a.args[0]
            if len(a.args) > 1 and a.args[1] is not None:
                return f"{n}[{','.join(map(str, a.args[1:]))}]"
            return str(n)
        if a.kind == "elem":
            return f"{a.args[0]}[{a.args[1]}]"
        if a.kind == "quad":
            return "(" + show_word(a.args[0]) + ")"
        if a.kind == "ones":
            return f"1_{a.args[0]}"
        if a.kind == "invp":
            return f"1/({a.args[0]})"
        return f"{a.kind}({', '.join(map(str, a.args))})"
    finally:
        _DEPTH[0] -= 1
