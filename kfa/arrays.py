"""Functional operations on array contents (transfer functions)."""
from fractions import Fraction
from . import terms as T
from .terms import (Poly, Lin, Blk, poly, atom, of_atom, zeros, ones, eye, scalar_lin, blk, bmul, badd,
                    bhstack, bvstack, bslice, bput, bdiag, diag_of_vector, ONE, ZERO, sel, psqrt, lin_of_blk)
from .facts import c_ge, c_eq, Cond
from .values import *

I = [None]     # the running interpreter (decides conditions, raises exceptions)


def num(p):
    p = poly(p)
    if p.is_const():
        c = p.const()
        return int(c) if c.denominator == 1 else p
    return p


def decide(c):
    return I[0].decide(c)


def d_eq(a, b):
    p = poly(a) - poly(b)
    if p.is_const():
        return p.is_zero()
    return I[0].decide(c_eq(p))


def d_le(a, b):
    p = poly(b) - poly(a)
    if p.is_const():
        return p.const() >= 0
    return I[0].decide(c_ge(p))


def value_error(msg):
    I[0].throw("ValueError", msg)


_TIME = {}


def is_time(p):
    p = poly(p)
    r = _TIME.get(p)
    if r is None:
        r = any(a.kind == "sym" and str(a.args[0]).startswith("T") for a in p.atoms())
        _TIME[p] = r
    return r


def kind(shape):
    r = len(shape)
    if r == 0:
        return "s"
    if r == 1:
        return "q" if is_time(shape[0]) else "v"
    if r == 2:
        a, b = is_time(shape[0]), is_time(shape[1])
        if a and b:
            raise Undecided("two time axes")
        return "q" if a else ("qt" if b else "m")
    return "q"


# ------------------------------------------------------------ Seq
def seq_get(q, i):
    i = poly(i)
    for idx, val in reversed(q.puts):
        if d_eq(idx, i):
            return val
    return q.base(i)


def seq_put(q, i, v):
    return Seq(q.length, q.base, q.puts + ((poly(i), v),))


def seq_map(q, f):
    return Seq(q.length, lambda i: f(seq_get(q, i)))


def norm_index(i, n):
    """Normalise a possibly negative integer index; checks the bounds."""
    i, n = poly(i), poly(n)
    if i.is_const():
        if i.const() < 0:
            i = i + n
    elif not T.known_nonneg(i):
        if not d_le(0, i):
            i = i + n
    if not (d_le(0, i) and d_le(i, n - 1)):
        I[0].throw("IndexError", f"index {i} is out of bounds for size {n}")
    return i


def norm_slice(s, n):
    """(lo, hi) of a slice with unit step."""
    n = poly(n)

    def fix(x, default):
        if x is None:
            return default
        x = I[0].as_poly(x)
        if x.is_const():
            if x.const() < 0:
                x = x + n
                if not T.known_nonneg(x) and not d_le(0, x):
                    x = ZERO
        elif not T.known_nonneg(x) and not d_le(0, x):
            x = x + n
        if x.is_const() and x.is_zero():
            return x
        if not T.known_le(x, n) and not d_le(x, n):
            x = n
        return x
    lo, hi = fix(s[0], ZERO), fix(s[1], n)
    if not T.known_le(lo, hi) and not d_le(lo, hi):
        hi = lo
    return lo, hi


# ------------------------------------------------------------ construction
def fill(shape, v):
    """Content with the scalar v everywhere."""
    k = kind(shape)
    v = poly(v)
    if k == "s":
        return v
    if k == "q":
        return Seq(poly(shape[0]), lambda i: fill(shape[1:], v))
    if k == "qt":
        return SeqT(fill((shape[1], shape[0]), v))
    if k == "v":
        return blk(ones(shape[0]).scale(v))
    return blk((ones(shape[0]) @ ones(shape[1]).T).scale(v))


def st_scalar(p, dtype="f"):
    return St((), poly(p), dtype)


def col(st):
    assert len(st.shape) == 1
    return st.c


def st_vec(b, dtype="f", mask=None):
    b = blk(b)
    return St((b.rows,), b, dtype, mask)


def st_mat(b, dtype="f", mask=None):
    b = blk(b)
    return St((b.rows, b.cols), b, dtype, mask)


def as_seq(st):
    """Content of an array of rank >= 1 as a Seq over its leading axis."""
    k = kind(st.shape)
    if k == "q" or isinstance(st.c, Seq):
        return st.c
    if k == "v":
        return Seq(st.shape[0], lambda i: entry(st.c, i, ZERO))
    if k == "m":
        return Seq(st.shape[0], lambda i: row(st.c, i))
    raise Undecided("sequence view of a transposed sequence")


def from_seq(shape, q):
    """Content of the given shape from a Seq over the leading axis (const length when not a Seq kind)."""
    k = kind(shape)
    if k == "q":
        return q
    n = poly(shape[0])
    if k in ("v", "m") and n.is_const():
        cnt = int(n.const())
        if cnt == 0:
            return fill(shape, 0)
        items = [seq_get(q, poly(i)) for i in range(cnt)]
        if k == "v":
            return bvstack([scalar_lin(x) for x in items])
        return bvstack([x.T for x in items])
    if k in ("v", "m"):
        return lam_content(shape, q)
    raise Undecided("transposed sequence")


def lam_content(shape, q):
    """Matrix (or vector) whose i-th row is q[i], for a symbolic number of rows."""
    n = poly(shape[0])
    it = I[0]
    s, done = it.binder(ZERO, n)
    try:
        res = it.explore(lambda: seq_get(q, poly(s)), [s])
    finally:
        done()
    cases = []
    for asm, v in res:
        if isinstance(v, Poly):
            v = blk(scalar_lin(v))
        elif isinstance(v, Blk):
            v = v
        else:
            raise Undecided("row kind")
        cases.append((tuple(asm), lin_of_blk(v)))
    cols = poly(shape[1]) if len(shape) == 2 else ONE
    if len(cases) == 1 and not depends(cases[0][1], s):
        # constant rows
        return blk(ones(n) @ cases[0][1].T)
    if len(cases) == 1:
        # row i of a matrix: sel(i) @ X for the same rows
        x = whole_rows(cases[0][1], s, n)
        if x is not None:
            return blk(x)
    a = atom("lam", s, n, tuple(cases), rows=n, cols=cols)
    return blk(of_atom(a))


def whole_rows(v, s, n):
    """If v(s) = (sel(s,s+1) X)^T for s in [0,n) return X."""
    out = zeros(n, v.rows)
    ps = poly(s)
    for w, c in v.d.items():
        if depends(c, s) or not w:
            return None
        a, t = w[-1]
        if a.kind != "sel" or not t or a.args[0] != ps or a.args[1] != ps + 1 or a.args[2] != n:
            return None
        rest = Lin(n, v.rows, {T.wordT(w[:-1]): c}) if w[:-1] else None
        if rest is None or any(depends(f[0], s) for f in w[:-1]):
            return None
        out = out + rest
    return out


def depends(x, s):
    return s in T.collect_atoms(x)


def row(b, i):
    """Row i of a Blk as a column."""
    b = blk(b)
    i = poly(i)
    n = b.rows
    if len(b.rp) == 1:
        return bslice(b, i, i + 1, ZERO, b.cols).T if n != ONE else b.T
    # locate the block when the position is known
    off = ZERO
    for k, s in enumerate(b.rp):
        if T.known_le(off, i) and T.known_le(i + 1, off + s):
            r = Blk((s,), b.cp, (b.g[k],))
            return row(r, i - off)
        off = off + s
    one = lin_of_blk(b)
    return row(blk(one), i)


def entry(b, i, j):
    r = row(b, i)           # column vector of the row
    e = row(r, j)
    x = e.single()
    if x is None:
        x = lin_of_blk(e)
    return x.scalar()


def ite(c, a, b):
    """Block matrix selected by a condition, entry by entry when the partitions agree."""
    if tuple(a.rp) == tuple(b.rp) and tuple(a.cp) == tuple(b.cp):
        return Blk(a.rp, a.cp, [[T.ite(c, x, y) for x, y in zip(r, s)] for r, s in zip(a.g, b.g)])
    return blk(T.ite(c, lin_of_blk(a), lin_of_blk(b)))


# ------------------------------------------------------------ broadcasting
def bshape(a, b):
    ra, rb = len(a), len(b)
    out = []
    for k in range(1, max(ra, rb) + 1):
        x = a[-k] if k <= ra else ONE
        y = b[-k] if k <= rb else ONE
        x, y = poly(x), poly(y)
        if x == y:
            out.append(x)
        elif x == ONE:
            out.append(y)
        elif y == ONE:
            out.append(x)
        elif d_eq(x, y):
            out.append(x)
        else:
            # one of them might still be one
            if not x.is_const() and d_eq(x, 1):
                out.append(y)
            elif not y.is_const() and d_eq(y, 1):
                out.append(x)
            else:
                value_error(f"operands could not be broadcast together with shapes {a} {b}")
    return tuple(reversed(out))


def bcast(st, shape):
    """Content of st broadcast to shape."""
    if tuple(st.shape) == tuple(shape):
        return st.c
    a = st.shape
    if len(a) == 0:
        return fill(shape, st.c)
    if len(a) < len(shape):
        k = kind(shape)
        if len(a) == 1 and len(shape) == 2:
            c = bcast(st, (shape[1],))
            if k == "m":
                return bmul(ones(shape[0]), c.T)
            if k == "q":
                return Seq(poly(shape[0]), lambda i: c)
            n = shape[0]
            return SeqT(Seq(poly(shape[1]), lambda i: fill((n,), seq_get(c, i))))
        c = bcast(st, shape[1:])
        return Seq(poly(shape[0]), lambda i: c)
    k = kind(shape)
    if k == "v":
        if poly(a[0]) == ONE:
            return fill(shape, entry(st.c, ZERO, ZERO) if isinstance(st.c, Blk) else seq_get(st.c, ZERO))
        return st.c
    if k == "m":
        c = st.c
        if poly(a[1]) == ONE and poly(shape[1]) != ONE:
            c = bmul(c, ones(shape[1]).T)
        if poly(a[0]) == ONE and poly(shape[0]) != ONE:
            c = bmul(ones(shape[0]), c)
        return c
    if k == "qt":
        return SeqT(bcast(St((a[1], a[0]), transpose(st).c), (shape[1], shape[0])))
    # Seq
    sub = shape[1:]
    if poly(a[0]) == ONE and poly(shape[0]) != ONE:
        first = as_seq(st)
        return Seq(poly(shape[0]), lambda i: bcast(St(a[1:], seq_get(first, ZERO)), sub))
    src = as_seq(st)
    return Seq(poly(shape[0]), lambda i: bcast(St(a[1:], seq_get(src, i)), sub))


def map2(f, x, y, shape):
    """f on Blk/Poly leaves of two contents of one shape."""
    if isinstance(x, Seq) or isinstance(y, Seq):
        return Seq(poly(shape[0]), lambda i: map2(f, seq_get(x, i), seq_get(y, i), shape[1:]))
    if isinstance(x, SeqT):
        return SeqT(map2(f, x.seq, y.seq, (shape[1], shape[0])))
    return f(x, y)


def map1(f, x):
    if isinstance(x, Seq):
        return seq_map(x, lambda v: map1(f, v))
    if isinstance(x, SeqT):
        return SeqT(map1(f, x.seq))
    return f(x)


def neg(x):
    return -x if isinstance(x, Poly) else x.map(lambda l: -l)


def add(a, b, sub=False):
    shape = bshape(a.shape, b.shape)
    x, y = bcast(a, shape), bcast(b, shape)

    def f(u, v):
        if isinstance(u, Poly):
            return u - v if sub else u + v
        return badd(u, neg(v) if sub else v)
    return St(shape, map2(f, x, y, shape), promote(a.dtype, b.dtype), mask_or(a, b, shape))


def promote(a, b):
    if a == b:
        return a
    if "b" in (a, b):
        return b if a == "b" else a
    if "o" in (a, b):
        return "o"
    if "f" in (a, b):
        return "f"
    if "u" in (a, b):
        return "u"
    return "i"


def mask_or(a, b, shape):
    ma_, mb = a.mask, b.mask
    if ma_ is not None and len(a.shape) < len(shape):
        if len(a.shape) and ma_ not in (("none",),):
            raise Undecided("broadcast of a mask")
    if mb is not None and len(b.shape) < len(shape):
        if len(b.shape) and mb not in (("none",),):
            raise Undecided("broadcast of a mask")
    if ma_ is None:
        return mb
    if mb is None or ma_ == mb or mb == ("none",):
        return ma_
    if ma_ == ("none",):
        return mb
    return ("or", ma_, mb)


def piecewise_const(v):
    """[(size, Poly)] for a column made of constant pieces, else None."""
    out = []
    for i, s in enumerate(v.rp):
        x = v.g[i][0]
        if s == ONE:
            out.append((s, x.scalar()))
            continue
        c = ZERO
        for w, p in x.d.items():
            if len(w) == 1 and w[0][0].kind == "ones":
                c = c + p
            else:
                return None
        out.append((s, c))
    return out


def had(x, y):
    """Hadamard product of two equally sized Lins."""
    if x.rows == ONE and x.cols == ONE:
        return scalar_lin(x.scalar() * y.scalar())
    if x.is_zero() or y.is_zero():
        return zeros(x.rows, x.cols)
    cx, cy = const_mat(x), const_mat(y)
    if cx is not None:
        return y.scale(cx)
    if cy is not None:
        return x.scale(cy)
    if x.is_identity() or y.is_identity():
        z = y if x.is_identity() else x
        if z.is_identity():
            return z
        return of_atom(atom("diagpart", z, rows=z.rows, cols=z.rows, sym=True))
    out = zeros(x.rows, x.cols)
    for w1, c1 in x.d.items():
        for w2, c2 in y.d.items():
            l1, l2 = Lin(x.rows, x.cols, {w1: ONE}), Lin(x.rows, x.cols, {w2: ONE})
            a, b = sorted((l1, l2), key=T.linkey)
            s = x.rows == x.cols and a.T == a and b.T == b
            out = out + of_atom(atom("had", a, b, rows=x.rows, cols=x.cols, sym=s)).scale(c1 * c2)
    return out


def const_mat(x):
    c = ZERO
    for w, p in x.d.items():
        if all(a.kind == "ones" for a, _ in w) and len(w) == (x.rows != ONE) + (x.cols != ONE):
            c = c + p
        else:
            return None
    return c


def mul(a, b):
    ra, rb = len(a.shape), len(b.shape)
    shape = bshape(a.shape, b.shape)
    dt, mk = promote(a.dtype, b.dtype), mask_or(a, b, shape)
    if ra == 0 or rb == 0:
        s, x = (a, b) if ra == 0 else (b, a)
        p = s.c
        return St(shape, map1(lambda u: u * p if isinstance(u, Poly) else u.map(lambda l: l.scale(p)), x.c), dt, mk)
    k = kind(shape)
    if k == "m":
        # row or column scaling keeps matrix structure
        for s, x in ((a, b), (b, a)):
            if len(x.shape) == 2 and tuple(x.shape) == shape:
                v = None
                if len(s.shape) == 1 or (len(s.shape) == 2 and poly(s.shape[0]) == ONE and shape[0] != ONE):
                    v = s.c if len(s.shape) == 1 else s.c.T
                    if v.rows == shape[1]:
                        return St(shape, bmul(x.c, diag_of_vector(v)), dt, mk)
                elif len(s.shape) == 2 and poly(s.shape[1]) == ONE and shape[1] != ONE:
                    v = s.c
                    if v.rows == shape[0]:
                        return St(shape, bmul(diag_of_vector(v), x.c), dt, mk)
    x, y = bcast(a, shape), bcast(b, shape)

    def f(u, v):
        if isinstance(u, Poly):
            return u * v
        if u.cols == ONE:
            for p, q in ((u, v), (v, u)):
                if piecewise_const(p) is not None:
                    return bmul(diag_of_vector(p), q)
        return blk_had(u, v)
    return St(shape, map2(f, x, y, shape), dt, mk)


def blk_had(u, v):
    rp = T.common_parts(u.rp, v.rp)
    cp = T.common_parts(u.cp, v.cp)
    u, v = u.refine_rows(rp).refine_cols(cp), v.refine_rows(rp).refine_cols(cp)
    return Blk(rp, cp, [[had(u.g[i][j], v.g[i][j]) for j in range(len(cp))] for i in range(len(rp))])


UN = {}


def scalar_fn(name, p):
    p = poly(p)
    if name == "sqrt":
        return psqrt(p)
    if name == "recip":
        return p.inverse()
    if name == "square":
        return p * p
    if name == "log" and p == ONE:
        return ZERO
    if name == "exp" and p.is_zero():
        return ONE
    if name == "abs" and p.is_const():
        return poly(abs(p.const()))
    if name == "abs":
        if T.known_nonneg(p):
            return p
    if name == "sign" and p.is_const():
        return poly((p.const() > 0) - (p.const() < 0))
    return T.fn(name, p)


def ew(name, st):
    def f(u):
        if isinstance(u, Poly):
            return scalar_fn(name, u)
        return u.map(lambda l: ew_lin(name, l))
    dt = "f" if name not in ("square", "abs") else st.dtype
    return St(st.shape, map1(f, st.c), dt, st.mask)


def ew_lin(name, l):
    if l.rows == ONE and l.cols == ONE:
        return scalar_lin(scalar_fn(name, l.scalar()))
    c = const_mat(l)
    if c is not None:
        return (ones(l.rows) @ ones(l.cols).T).scale(scalar_fn(name, c))
    if name == "square":
        return had(l, l)
    if len(l.d) == 1 and name in ("sqrt", "recip"):
        (w, c), = l.d.items()
        if c != 1:
            return ew_lin(name, Lin(l.rows, l.cols, {w: ONE})).scale(scalar_fn(name, c))
    return of_atom(atom("ewise", name, l, rows=l.rows, cols=l.cols, sym=(l.rows == l.cols and l.T == l)))


# ------------------------------------------------------------ structure
def tmask(mk):
    if mk[0] == "T":
        return mk[1]
    if mk[0] == "one":
        return colof(mk[1])
    if mk[0] == "colof":
        return ("one", mk[1])
    return ("T", mk)


def colof(mk):
    """Mask of v[:, None]; "flat" is the mask of M[:, 0] for a one-column M."""
    if mk in (None, ("none",), ("all",)):
        return mk
    return mk[1] if mk[0] == "flat" else ("colof", mk)


def flat(mk):
    if mk in (None, ("none",), ("all",)):
        return mk
    return mk[1] if mk[0] == "colof" else ("flat", mk)


def transpose(st):
    r = len(st.shape)
    mk = st.mask
    if r < 2:
        return st
    shape = tuple(reversed(st.shape))
    if mk is not None and mk not in (("none",), ("all",)):
        if mk[0] in ("T", "one", "colof"):
            mk = tmask(mk)
        elif poly(st.shape[1]) == ONE:
            mk = ("one", flat(mk))
        elif poly(st.shape[0]) == ONE:
            mk = colof(rowmask(mk, 0))
        else:
            mk = tmask(mk)
    if r == 2:
        k = kind(st.shape)
        if k == "m":
            return St(shape, st.c.T, st.dtype, mk)
        if k == "q":
            return St(shape, SeqT(st.c), st.dtype, mk)
        return St(shape, st.c.seq, st.dtype, mk)
    raise Undecided("transpose of a rank-3 array")


def index(st, key):
    """Basic indexing; key is a tuple of ints/Poly, slices (lo,hi,step), None, Ellipsis."""
    key = expand_key(key, len(st.shape))
    return _index(st, list(key))


def expand_key(key, rank):
    used = sum(1 for k in key if k is not None and k is not Ellipsis)
    if used > rank:
        I[0].throw("IndexError", "too many indices for array")
    if Ellipsis in [k for k in key if k is Ellipsis]:
        i = [n for n, k in enumerate(key) if k is Ellipsis][0]
        return tuple(key[:i]) + (slice(None),) * (rank - used) + tuple(key[i + 1:])
    return tuple(key) + (slice(None),) * (rank - used)


def is_full(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def slice_parts(s, n):
    step = s.step
    if step is not None and step != 1:
        raise Undecided("slice step")
    return norm_slice((s.start, s.stop), n)


def rowmask(mk, i):
    if mk is not None and mk[0] == "data":
        return ("data", index(mk[1], (poly(i),)))
    if mk is None or mk in (("none",), ("all",)):
        return mk
    if mk[0] == "seq":
        return ("row", mk[1], poly(i))
    if mk[0] == "or":
        return ("or", rowmask(mk[1], i), rowmask(mk[2], i))
    if mk[0] == "map":          # mask preserved by an elementwise-shaped operation
        return rowmask(mk[1], i)
    if mk[0] == "shift":
        return rowmask(mk[1], poly(i) + mk[2])
    if mk[0] == "one":          # single row added in front
        return mk[1]
    if mk[0] in ("flat", "colof"):
        return rowmask(mk[1], i)
    if mk[0] == "row":
        return ("elem", mk, poly(i))
    if mk[0] == "stackrow":
        return mk[1] if poly(i).is_zero() else None
    raise Undecided("mask of an element")


def _index(st, key):
    shape, c, dt, mk = st.shape, st.c, st.dtype, st.mask
    if not key:
        return st
    k0 = key[0]
    # all full slices
    if all(is_full(k) for k in key):
        return st
    if k0 is None:
        inner = _index(st, key[1:])
        return newaxis0(inner)
    r = len(shape)
    kd = kind(shape)
    if kd == "v" and isinstance(c, Seq):
        kd = "q"
    if kd == "v":
        if isinstance(k0, slice):
            if is_full(k0):
                inner = st
            elif k0.step == -1 and k0.start is None and k0.stop is None:
                n = poly(shape[0])
                if not n.is_const():
                    raise Undecided("reversal")
                xs = [row(c, poly(i)) for i in range(int(n.const()))]
                inner = St(shape, bvstack(xs[::-1]), dt, mk)
            else:
                lo, hi = slice_parts(k0, shape[0])
                inner = St((hi - lo,), T.bslice_rows(c, lo, hi), dt, mk if mk in (None, ("none",), ("all",)) else ("part", mk, lo, hi))
            rest = key[1:]
            if not rest:
                return inner
            if all(x is None for x in rest) and len(rest) == 1:
                return St((inner.shape[0], ONE), inner.c, dt, colof(inner.mask))
            raise Undecided("index")
        i = norm_index(k0, shape[0])
        e = St((), entry(c, i, ZERO), dt, rowmask(mk, i))
        return _index(e, key[1:])
    if kd == "q":
        if isinstance(k0, slice):
            if is_full(k0):
                lo, hi = ZERO, poly(shape[0])
                q = c
                m2 = mk
            elif k0.step is not None and k0.step == -1 and k0.start is None and k0.stop is None:
                n = poly(shape[0])
                q = Seq(n, lambda i: seq_get(c, n - 1 - i))
                lo, hi = ZERO, n
                if mk not in (None, ("none",), ("all",)):
                    raise Undecided("reversed mask")
                m2 = mk
            else:
                lo, hi = slice_parts(k0, shape[0])
                lo_ = lo
                q = Seq(hi - lo, lambda i: seq_get(c, i + lo_))
                m2 = mk if mk in (None, ("none",), ("all",)) else ("shift", mk, lo)
            rest = key[1:]
            sub = shape[1:]
            if not rest or all(is_full(k) for k in rest):
                return demote(St((hi - lo,) + tuple(sub), q, dt, m2))
            if mk not in (None, ("none",), ("all",)) and any(not is_full(k) and k is not None for k in rest):
                if len(sub) != 1 or poly(sub[0]) != ONE or len(rest) != 1 or isinstance(rest[0], slice):
                    raise Undecided("column of a masked sequence")
                m2 = flat(m2)
            if mk not in (None, ("none",), ("all",)) and any(k is None for k in rest):
                if sub or len(rest) != 1:
                    raise Undecided("new axis in a masked sequence")
                m2 = colof(m2)
            # shape of the element after the remaining keys
            probe = _index(St(sub, seq_get_any(q, sub), dt, None), list(rest))
            q2 = Seq(hi - lo, lambda i: _index(St(sub, seq_get(q, i), dt, None), list(rest)).c)
            return demote(St((hi - lo,) + tuple(probe.shape), q2, dt, m2))
        i = norm_index(k0, shape[0])
        e = St(shape[1:], seq_get(c, i), dt, rowmask(mk, i))
        return _index(e, key[1:])
    if kd == "m":
        k1 = key[1] if len(key) > 1 else slice(None)
        if k1 is None:
            # (slice, None, slice)
            if is_full(k0):
                raise Undecided("inner newaxis")
            if isinstance(k0, slice):
                raise Undecided("inner newaxis")
            e = _index(st, [k0])
            return _index(e, key[1:])
        rest = key[2:]
        if isinstance(k0, slice):
            rlo, rhi = (ZERO, poly(shape[0])) if is_full(k0) else slice_parts(k0, shape[0])
        else:
            rlo = norm_index(k0, shape[0])
            rhi = rlo + 1
        if isinstance(k1, slice):
            clo, chi = (ZERO, poly(shape[1])) if is_full(k1) else slice_parts(k1, shape[1])
        else:
            clo = norm_index(k1, shape[1])
            chi = clo + 1
        if isinstance(k0, slice) and isinstance(k1, slice):
            if mk not in (None, ("none",), ("all",)):
                raise Undecided("slice of a masked matrix")
            e = St((rhi - rlo, chi - clo), bslice(c, rlo, rhi, clo, chi), dt, mk)
        elif isinstance(k0, slice):
            b = bslice(c, rlo, rhi, ZERO, c.cols)
            if mk not in (None, ("none",), ("all",)):
                if poly(shape[1]) != ONE or not is_full(k0):
                    raise Undecided("column of a masked matrix")
                mk = flat(mk)
            e = St((rhi - rlo,), row(b.T, clo), dt, mk)
        elif isinstance(k1, slice):
            v = row(c, rlo)
            if is_full(k1):
                e = St((shape[1],), v, dt, rowmask(mk, rlo))
            else:
                e = St((chi - clo,), T.bslice_rows(v, clo, chi), dt, None if mk is None else rowmask(mk, rlo))
        else:
            e = St((), entry(c, rlo, clo), dt, None if mk is None else rowmask(rowmask(mk, rlo), clo))
        if rest:
            if not isinstance(k0, slice) or not isinstance(k1, slice):
                return _index(e, ([slice(None)] if isinstance(k0, slice) or isinstance(k1, slice) else []) + list(rest))
            if rest == [None]:
                raise Undecided("trailing newaxis")
        return e
    if kd == "qt":
        # swap, index, swap back
        q = St((shape[1], shape[0]), c.seq, dt, None if mk is None else (mk[1] if mk[0] == "T" else mk))
        k1 = key[1] if len(key) > 1 else slice(None)
        e = _index(q, [k1, k0])
        if isinstance(k0, slice) and isinstance(k1, slice):
            return transpose(e)
        return e
    if kd == "s":
        if all(k is None for k in key):
            for _ in key:
                st = newaxis0(st)
            return st
        I[0].throw("IndexError", "too many indices for array")
    raise Undecided("index")


def demote(st):
    """A Seq whose leading axis has constant size and rank <= 2 becomes a Blk."""
    if isinstance(st.c, Seq) and kind(st.shape) != "q" and st.dtype != "o":
        return St(st.shape, from_seq(st.shape, st.c), st.dtype, st.mask)
    return st


def seq_get_any(q, sub):
    """Some element (only its shape matters)."""
    return fill(sub, 0) if all(not isinstance(x, type(None)) for x in sub) else None


def newaxis0(st):
    shape = (ONE,) + tuple(st.shape)
    mk = st.mask if st.mask in (None, ("none",), ("all",)) else ("one", st.mask)
    r = len(st.shape)
    if r == 0:
        return St(shape, blk(scalar_lin(st.c)), st.dtype, mk)
    if r == 1:
        if kind(st.shape) == "q":
            q = st.c
            return St(shape, SeqT(Seq(st.shape[0], lambda i: blk(scalar_lin(seq_get(q, i))))), st.dtype, mk)
        return St(shape, st.c.T, st.dtype, mk)
    c = st.c
    return St(shape, Seq(ONE, lambda i: c), st.dtype, mk)


def assign(st, key, val):
    """Content after st[key] = val (val: St)."""
    key = [k for k in expand_key([k for k in key if k is not None], len(st.shape))]
    return St(st.shape, _assign(st, key, val), st.dtype, st.mask)


def _assign(st, key, val):
    shape, c = st.shape, st.c
    if not key:
        if len(val.shape):
            val = squeeze_to_scalar(val)
        return val.c
    if all(is_full(k) for k in key):
        return bcast_to(val, shape)
    kd = "q" if isinstance(c, Seq) else kind(shape)
    k0 = key[0]
    if kd == "q":
        if isinstance(k0, slice):
            if is_full(k0):
                lo, hi = ZERO, poly(shape[0])
            else:
                lo, hi = slice_parts(k0, shape[0])
            sub = [s for k, s in zip(key[1:], shape[1:])]
            tgt = (hi - lo,) + tuple(index_shape(shape[1:], key[1:]))
            v = bcast_to(val, tgt)
            vs = v if isinstance(v, Seq) else as_seq(St(tgt, v))
            rest = key[1:]
            sh = shape[1:]
            full = is_full(k0)

            def get(i):
                if full or (d_le(lo, i) and d_le(i, hi - 1)):
                    x = seq_get(vs, i - lo)
                    if all(is_full(k) for k in rest):
                        return x
                    return _assign(St(sh, seq_get(c, i)), list(rest), St(tgt[1:], x))
                return seq_get(c, i)
            return Seq(poly(shape[0]), get)
        i = norm_index(k0, shape[0])
        rest = key[1:]
        if all(is_full(k) for k in rest):
            return seq_put(c, i, bcast_to(val, shape[1:]))
        return seq_put(c, i, _assign(St(shape[1:], seq_get(c, i)), list(rest), val))
    if kd == "v":
        if isinstance(k0, slice):
            lo, hi = slice_parts(k0, shape[0])
            if lo == hi:
                return c
            return T.bput_rows(c, lo, hi, bcast_to(val, (hi - lo,)))
        i = norm_index(k0, shape[0])
        return T.bput_rows(c, i, i + 1, scalar_lin(squeeze_to_scalar(val).c))
    if kd == "m":
        k1 = key[1]
        if isinstance(k0, slice):
            rlo, rhi = (ZERO, poly(shape[0])) if is_full(k0) else slice_parts(k0, shape[0])
        else:
            rlo = norm_index(k0, shape[0]); rhi = rlo + 1
        if isinstance(k1, slice):
            clo, chi = (ZERO, poly(shape[1])) if is_full(k1) else slice_parts(k1, shape[1])
        else:
            clo = norm_index(k1, shape[1]); chi = clo + 1
        if rlo == rhi or clo == chi:
            return c
        if isinstance(k0, slice) and isinstance(k1, slice):
            v = bcast_to(val, (rhi - rlo, chi - clo))
        elif isinstance(k0, slice):
            v = bcast_to(val, (rhi - rlo,))
        elif isinstance(k1, slice):
            v = blk(bcast_to(val, (chi - clo,))).T
        else:
            v = blk(scalar_lin(squeeze_to_scalar(val).c))
        return bput(c, rlo, rhi, clo, chi, v)
    raise Undecided("assignment")


def index_shape(shape, key):
    out = []
    for s, k in zip(shape, key):
        if isinstance(k, slice):
            if is_full(k):
                out.append(poly(s))
            else:
                lo, hi = slice_parts(k, s)
                out.append(hi - lo)
    return out


def squeeze_to_scalar(st):
    if not st.shape:
        return st
    p = ONE
    for s in st.shape:
        p = p * poly(s)
    if p == ONE:
        return St((), index(st, tuple(0 for _ in st.shape)).c, st.dtype)
    value_error("setting an array element with a sequence.")


def bcast_to(val, shape):
    """Content of val broadcast to shape, as assignment does (leading ones dropped)."""
    st = val
    while len(st.shape) > len(shape):
        if poly(st.shape[0]) != ONE and not d_eq(st.shape[0], 1):
            value_error("could not broadcast input array")
        st = index(st, (0,))
    for k in range(1, len(st.shape) + 1):
        x, y = poly(st.shape[-k]), poly(shape[-k])
        if x != y and x != ONE and not d_eq(x, y):
            value_error(f"could not broadcast input array from shape {st.shape} into shape {shape}")
    full = tuple(shape)
    return bcast(st, full)


# ------------------------------------------------------------ products
def inner_check(a, b):
    if poly(a) != poly(b) and not d_eq(a, b):
        value_error(f"shapes not aligned: {a} != {b}")


def force(c, a, b):
    """Nothing to do: sizes equal up to decided facts."""
    return c


def vdot(x, y):
    """x^T y for two column Blks."""
    r = bmul(x.T, y)
    s = r.single()
    if s is None:
        s = lin_of_blk(r)
    return s.scalar()


def sum_seq(q, shape):
    """Sum over the leading axis of a Seq with elements of the given shape."""
    it = I[0]
    n = poly(q.length)
    if n.is_const():
        acc = fill(shape, 0)
        for i in range(int(n.const())):
            acc = add(St(shape, acc), St(shape, seq_get(q, poly(i)))).c
        return acc
    s, done = it.binder(ZERO, n)
    try:
        res = it.explore(lambda: seq_get(q, poly(s)), [s])
    finally:
        done()
    if len(shape) and kind(shape) in ("q", "qt"):
        raise Undecided("sum of sequences")

    def one(getleaf, rows, cols):
        cases = tuple((tuple(asm), getleaf(v)) for asm, v in res)
        if len(cases) == 1 and not depends(cases[0][1], s):
            x = cases[0][1]
            return x * n if isinstance(x, Poly) else x.scale(n)
        if rows is None:
            return poly(atom("sum", s, n, cases))
        if rows == ONE and cols == ONE:
            return scalar_lin(poly(atom("sum", s, n, tuple((a, l.scalar()) for a, l in cases))))
        sy = rows == cols and all(l.T == l for _, l in cases)
        return of_atom(atom("sum", s, n, cases, rows=rows, cols=cols, sym=sy))
    if not shape:
        return one(lambda v: v, None, None)
    rows = poly(shape[0])
    cols = poly(shape[1]) if len(shape) == 2 else ONE
    return blk(one(lambda v: lin_of_blk(v), rows, cols))


def outer(x, y):
    return bmul(x, y.T)


def dot(a, b):
    ra, rb = len(a.shape), len(b.shape)
    dt = promote(a.dtype, b.dtype)
    if ra == 0 or rb == 0:
        return mul(a, b)
    ka, kb = kind(a.shape), kind(b.shape)
    if ra == 1 and rb == 1:
        inner_check(a.shape[0], b.shape[0])
        if ka == "v" and kb == "v":
            return St((), vdot(a.c, b.c), dt)
        x, y = as_seq(a), as_seq(b)
        return St((), sum_seq(Seq(poly(a.shape[0]), lambda i: seq_get(x, i) * seq_get(y, i)), ()), dt)
    if ra == 2 and rb == 1:
        inner_check(a.shape[1], b.shape[0])
        if ka == "m" and kb == "v":
            return St((a.shape[0],), bmul(a.c, b.c), dt)
        if ka == "q":
            x = a.c
            return St((a.shape[0],), Seq(poly(a.shape[0]), lambda i: vdot(seq_get(x, i), b.c)), dt)
        x, y = a.c.seq, as_seq(b)
        sh = (a.shape[0],)
        return St(sh, sum_seq(Seq(poly(b.shape[0]), lambda i: mul(St(sh, seq_get(x, i)), St((), seq_get(y, i))).c), sh), dt)
    if ra == 1 and rb == 2:
        inner_check(a.shape[0], b.shape[0])
        return dot(transpose(b), a)
    if ra == 2 and rb == 2:
        inner_check(a.shape[1], b.shape[0])
        sh = (a.shape[0], b.shape[1])
        if ka == "m" and kb == "m":
            return St(sh, bmul(a.c, b.c), dt)
        if ka == "q" and kb == "m":
            x, M = a.c, b.c
            return St(sh, Seq(poly(a.shape[0]), lambda i: bmul(M.T, seq_get(x, i))), dt)
        if ka == "m" and kb == "qt":
            x, M = b.c.seq, a.c
            return St(sh, SeqT(Seq(poly(b.shape[1]), lambda i: bmul(M, seq_get(x, i)))), dt)
        if ka == "qt" and kb == "q":
            x, y = a.c.seq, b.c
            return St(sh, sum_seq(Seq(poly(b.shape[0]), lambda i: outer(seq_get(x, i), seq_get(y, i))), sh), dt)
        raise Undecided("product of sequences")
    if rb == 1 and ra == 3:
        inner_check(a.shape[2], b.shape[0])
        x = a.c
        return St(a.shape[:2], Seq(poly(a.shape[0]), lambda i: bmul(seq_get(x, i), b.c)), dt)
    if ra == 3 and rb == 2:
        inner_check(a.shape[2], b.shape[0])
        x = a.c
        return St(a.shape[:2] + (b.shape[1],), Seq(poly(a.shape[0]), lambda i: bmul(seq_get(x, i), b.c)), dt)
    raise Undecided("dot of higher rank arrays")


def matmul(a, b):
    ra, rb = len(a.shape), len(b.shape)
    if ra == 0 or rb == 0:
        value_error("matmul: scalar operand")
    if ra <= 2 and rb <= 2:
        return dot(a, b)
    if ra == 3 and rb == 3:
        if poly(a.shape[0]) == ONE and poly(b.shape[0]) != ONE:
            n = poly(b.shape[0])
        else:
            n = poly(a.shape[0])
        x, y = as_seq(a), as_seq(b)
        sa, sb = a.shape[1:], b.shape[1:]
        za, zb = poly(a.shape[0]) == ONE, poly(b.shape[0]) == ONE
        if not za and not zb:
            inner_check(a.shape[0], b.shape[0])
        inner_check(sa[1], sb[0])
        return St((n, sa[0], sb[1]), Seq(n, lambda i: dot(St(sa, seq_get(x, ZERO if za else i)), St(sb, seq_get(y, ZERO if zb else i))).c), promote(a.dtype, b.dtype))
    if ra == 3 and rb == 2:
        return dot(a, b)
    if ra == 2 and rb == 3:
        y = as_seq(b)
        sb = b.shape[1:]
        inner_check(a.shape[1], sb[0])
        return St((b.shape[0], a.shape[0], sb[1]), Seq(poly(b.shape[0]), lambda i: dot(a, St(sb, seq_get(y, i))).c), promote(a.dtype, b.dtype))
    raise Undecided("matmul")


def mat(st):
    if len(st.shape) != 2 or kind(st.shape) != "m":
        raise Undecided("matrix expected")
    return st.c


def square_check(st):
    if len(st.shape) != 2:
        value_error("expected square matrix")
    if poly(st.shape[0]) != poly(st.shape[1]) and not d_eq(st.shape[0], st.shape[1]):
        value_error("expected square matrix")


def total(st, axis=None):
    """np.sum"""
    dt = st.dtype
    r = len(st.shape)
    if r == 0:
        return st
    if axis is None:
        x = st
        while len(x.shape) > 1:
            x = total(x, 0)
        return total(x, 0)
    if axis < 0:
        axis += r
    k = kind(st.shape)
    if k == "v":
        return St((), vdot(blk(ones(st.shape[0])), st.c), dt)
    if k == "m":
        if axis == 0:
            return St((st.shape[1],), bmul(st.c.T, ones(st.shape[0])), dt)
        return St((st.shape[0],), bmul(st.c, ones(st.shape[1])), dt)
    if k == "q":
        if axis == 0:
            return St(st.shape[1:], sum_seq(st.c, tuple(st.shape[1:])), dt)
        q, sub = st.c, tuple(st.shape[1:])
        sh = list(st.shape)
        del sh[axis]
        return demote(St(tuple(sh), Seq(poly(st.shape[0]), lambda i: total(St(sub, seq_get(q, i)), axis - 1).c), dt))
    return total(transpose(st), 1 - axis)


def diagonal(st):
    b = mat(st)
    square_check(st)
    if len(b.rp) != len(b.cp) or b.rp != b.cp:
        parts = T.common_parts(b.rp, b.cp)
        b = b.refine_rows(parts).refine_cols(parts)
    out = []
    for i, s in enumerate(b.rp):
        out.append(diag_lin(b.g[i][i]))
    return St((b.rows,), bvstack(out), st.dtype)


def diag_lin(x):
    if x.rows == ONE:
        return x
    out = zeros(x.rows, 1)
    for w, c in x.d.items():
        if not w:
            out = out + ones(x.rows).scale(c)
        elif len(w) == 1 and w[0][0].kind == "diagm":
            out = out + w[0][0].args[0].scale(c)
        else:
            t = T.wordT(w)
            if T.wkey(t) < T.wkey(w):
                w = t
            out = out + of_atom(atom("diagv", Lin(x.rows, x.cols, {w: ONE}), rows=x.rows, cols=ONE)).scale(c)
    return out


def cat(sts, axis):
    """np.concatenate"""
    r = len(sts[0].shape)
    dt = sts[0].dtype
    for s in sts[1:]:
        dt = promote(dt, s.dtype)
        if len(s.shape) != r:
            value_error("all the input array dimensions must match")
    if axis < 0:
        axis += r
    for s in sts[1:]:
        for ax in range(r):
            if ax != axis:
                inner_check(sts[0].shape[ax], s.shape[ax])
    tot = ZERO
    for s in sts:
        tot = tot + poly(s.shape[axis])
    shape = list(sts[0].shape)
    shape[axis] = tot
    shape = tuple(shape)
    if any(s.mask not in (None, ("none",)) for s in sts):
        raise Undecided("concatenation of masked arrays")
    if r == 1 and kind(shape) == "v":
        return St(shape, bvstack([s.c for s in sts]), dt)
    if r == 2 and kind(shape) == "m":
        return St(shape, (bvstack if axis == 0 else bhstack)([s.c for s in sts]), dt)
    if axis == 0:
        parts = []
        off = ZERO
        for s in sts:
            parts.append((off, off + poly(s.shape[0]), as_seq(s)))
            off = off + poly(s.shape[0])

        def get(i):
            for lo, hi, q in parts[:-1]:
                if d_le(i, hi - 1):
                    return seq_get(q, i - lo)
            lo, hi, q = parts[-1]
            return seq_get(q, i - lo)
        return demote(St(shape, Seq(tot, get), dt))
    if kind(shape) == "qt":
        return transpose(cat([transpose(s) for s in sts], 0))
    qs = [as_seq(s) for s in sts]
    subs = [tuple(s.shape[1:]) for s in sts]
    return demote(St(shape, Seq(poly(shape[0]), lambda i: cat([St(sh, seq_get(q, i)) for q, sh in zip(qs, subs)], axis - 1).c), dt))


def stack_list(sts):
    """np.array([x, y, ...]) of equally shaped states."""
    n = len(sts)
    dt = sts[0].dtype
    for s in sts[1:]:
        dt = promote(dt, s.dtype)
        if len(s.shape) != len(sts[0].shape):
            value_error("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for a, b in zip(s.shape, sts[0].shape):
            inner_check(a, b)
    shape = (poly(n),) + tuple(sts[0].shape)
    mk = None
    cs = [s.c for s in sts]
    q = Seq(poly(n), lambda i: pick(cs, i))
    k = kind(shape)
    if k == "v":
        return St(shape, bvstack([scalar_lin(c) for c in cs]), dt)
    if k == "m":
        return St(shape, bvstack([c.T for c in cs]), dt)
    if k == "qt":
        raise Undecided("list of sequences")
    return St(shape, q, dt)


def pick(cs, i):
    i = poly(i)
    for k in range(len(cs) - 1):
        if d_eq(i, k):
            return cs[k]
    return cs[-1]


def elem_content(a_fn, shape):
    """Content built from atoms: a_fn(rows, cols, sym) -> Atom."""
    r = len(shape)
    if r == 0:
        return poly(a_fn(None, None))
    rows = poly(shape[0])
    cols = poly(shape[1]) if r == 2 else ONE
    if rows == ONE and cols == ONE:
        return blk(scalar_lin(poly(a_fn(None, None))))
    return blk(of_atom(a_fn(rows, cols)))
