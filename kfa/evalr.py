"""Numeric evaluation of value graphs at random instantiations.

Only value graphs (terms produced by the abstract interpreter) are evaluated,
never the analysed program: two graphs that differ at an instantiation are
different functions of the inputs.
"""
import math
import zlib
import numpy as np
from . import terms as T
from .terms import Poly, Lin, Blk, Atom, poly
from . import arrays as A
from .values import *


class BadEnv(Exception):
    """The instantiation is outside the domain (e.g. a failed factorisation)."""


class Unsupported(Exception):
    pass


def rng_of(*key):
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7FFFFFFF)


class Env:
    """One instantiation: dimensions, parameters, masks."""

    def __init__(self, seed, dims, masks=None, params=None, variant=None):
        self.seed = seed
        self.dims = dict(dims)             # name -> int
        self.masks = masks or {}           # name -> bool array
        self.overrides = params or {}
        self.bind = {}                     # sym atom -> int
        self.memo = {}
        self.elems = {}
        self.noise_log = {}
        self.noise_rank = None
        self.pcache = {}
        self.variant = variant
        self.depth = 0

    # ------------------------------------------------------ parameters
    def param(self, name, idx, rows, cols):
        key = (name, idx, rows, cols)
        v = self.pcache.get(key)
        if v is None:
            if name in self.overrides:
                v = np.asarray(self.overrides[name](self, idx, rows, cols), dtype=float)
            else:
                r = rng_of(self.seed, name, idx, rows, cols)
                if is_cov(name) and rows == cols:
                    B = r.normal(size=(rows, rows + 1))
                    v = B @ B.T / (rows + 1) * (0.5 + r.rand()) + 0.3 * np.eye(rows)
                elif name in ("transition_matrices",):
                    v = r.normal(size=(rows, cols)) * 0.6 / math.sqrt(max(rows, 1)) + 0.5 * np.eye(rows, cols)
                else:
                    v = r.normal(size=(rows, cols))
            self.pcache[key] = v
        return v

    # ------------------------------------------------------ scalars
    def sym(self, a):
        if a in self.bind:
            return self.bind[a]
        n = a.args[0]
        if n in self.dims:
            return self.dims[n]
        raise Unsupported(f"free symbol {n}")

    def poly(self, p):
        if isinstance(p, int):
            return p
        tot = 0.0
        for k, v in p.d.items():
            x = float(v) if v.denominator != 1 else int(v)
            for a, e in k:
                y = self.atom(T._LIST[a])
                if e != 1:
                    if y == 0 and e < 0:
                        y = math.inf
                    else:
                        y = y ** e if e > 0 else 1.0 / (y ** -e)
                x = x * y
            tot = tot + x
        return tot

    def int(self, p):
        v = self.poly(poly(p))
        return int(round(v))

    def lin(self, l):
        key = (l,) + tuple([self.bind.get(s) for s in free_of(l)])
        r = self.memo.get(key)
        if r is not None:
            return r
        rows, cols = self.int(l.rows), self.int(l.cols)
        out = np.zeros((rows, cols))
        for w, c in l.d.items():
            m = None
            for a, t in w:
                x = self.matom(a)
                if t:
                    x = x.T
                m = x if m is None else m @ x
            if m is None:
                m = np.eye(rows, cols)
            if m.shape != (rows, cols):
                raise Unsupported(f"shape {m.shape} != {(rows, cols)}")
            out = out + self.poly(c) * m
        self.memo[key] = out
        return out

    def blk(self, b):
        return np.block([[self.lin(x) for x in r] for r in b.g]) if b.g and b.g[0] else np.zeros((self.int(b.rows), self.int(b.cols)))

    # ------------------------------------------------------ atoms
    def atom(self, a):
        if a.kind == "sym":
            return self.sym(a)
        key = (a.id,) + tuple([self.bind.get(s) for s in free_atom(a)])
        r = self.memo.get(key)
        if r is None:
            r = self.satom(a)
            self.memo[key] = r
        return r

    def satom(self, a):
        k, g = a.kind, a.args
        if k == "real":
            n = g[0]
            if n in self.overrides:
                return self.overrides[n]
            r = rng_of(self.seed, "real", n)
            return float(r.uniform(0.3, 2.0) if a.extra == "pos" else r.normal())
        if k == "const":
            if g[0] == "pi":
                return math.pi
            if g[0] == "inf":
                return math.inf
            return math.nan
        if k == "let":
            return self.poly(g[0])
        if k == "ite":
            return self.poly(g[1] if self.cond(g[0]) else g[2])
        if k == "letm":
            return float(self.lin(g[0])[0, 0])
        if k == "invp":
            v = self.poly(g[0])
            return 1.0 / v if v else math.inf
        if k == "sqrt":
            v = self.poly(g[0])
            if -1e-9 < v < 0:
                v = 0.0
            return math.sqrt(v) if v >= 0 else math.nan
        if k == "quad":
            m = None
            for b, t in g[0]:
                x = self.matom(b)
                if t:
                    x = x.T
                m = x if m is None else m @ x
            return float(m[0, 0])
        if k == "ent":
            return float(self.mkind(g[0], g[1], 1, 1)[0, 0])
        if k == "fn":
            return self.fn(g)
        if k == "sum":
            return self.summ(a, scalar=True)
        if k in ("param", "elem", "noise", "call", "lam", "inv", "pinv", "chol", "had", "ewise", "diagv", "gpinv", "pinvtol", "blk"):
            v = self.mkind(k, g, 1, 1, a)
            return float(v[0, 0]) if isinstance(v, np.ndarray) else float(v)
        raise Unsupported(f"scalar {k}")

    def fn(self, g):
        n = g[0]
        if n == "det":
            return float(np.linalg.det(self.lin(g[1])))
        if n == "countmask":
            return int(np.sum(self.mask(g[1])))
        v = self.poly(g[1]) if isinstance(g[1], Poly) else None
        return float(EW[n](v))

    def matom(self, a):
        key = (a.id,) + tuple([self.bind.get(s) for s in free_atom(a)])
        r = self.memo.get(key)
        if r is None:
            rows, cols = self.int(a.rows), self.int(a.cols)
            r = self.mkind(a.kind, a.args, rows, cols, a)
            if np.ndim(r) == 0:
                r = np.array([[float(r)]])
            if r.shape != (rows, cols):
                if r.size == rows * cols:
                    r = r.reshape(rows, cols)
                else:
                    raise Unsupported(f"{a.kind}: shape {r.shape} vs {(rows, cols)}")
            self.memo[key] = r
        return r

    def mkind(self, k, g, rows, cols, a=None):
        if k == "param":
            return self.param(g[0], tuple(self.int(x) if isinstance(x, Poly) else x for x in g[1:-2]), self.int(g[-2]), self.int(g[-1]))
        if k == "elem":
            return self.elem(g)
        if k == "ones":
            return np.ones((rows, cols))
        if k == "sel":
            lo, hi, n = (self.int(x) for x in g)
            m = np.zeros((hi - lo, n))
            if lo < 0 or hi > n:
                raise Unsupported("selection out of range")
            m[np.arange(hi - lo), np.arange(lo, hi)] = 1
            return m
        if k == "inv":
            x = self.val(g[0])
            if np.linalg.cond(x) > 1e10:
                raise BadEnv("singular")
            return np.linalg.inv(x)
        if k == "pinv" or k == "gpinv":
            return np.linalg.pinv(self.val(g[0]), rcond=1e-10)
        if k == "pinvtol":
            return 0.5 * np.linalg.pinv(self.val(g[0]), rcond=1e-10)
        if k == "chol":
            x = self.val(g[0])
            try:
                return np.linalg.cholesky(x)
            except np.linalg.LinAlgError:
                raise BadEnv("cholesky")
        if k == "blk":
            return self.blk(g[0])
        if k == "letm":
            return self.lin(g[0])
        if k == "ite":
            return self.lin(g[1] if self.cond(g[0]) else g[2])
        if k == "diagm":
            return np.diag(self.lin(g[0])[:, 0])
        if k == "diagv":
            return np.diag(self.lin(g[0])).reshape(-1, 1)
        if k == "diagpart":
            return np.diag(np.diag(self.lin(g[0])))
        if k == "had":
            return self.lin(g[0]) * self.lin(g[1])
        if k == "triu":
            return np.triu(self.lin(g[0]))
        if k == "ewise":
            x = self.lin(g[1])
            f = EW[g[0]]
            return np.array([[f(v) for v in r] for r in x]).reshape(x.shape)
        if k == "sum":
            return self.summ(a)
        if k == "lam":
            b, n, cases = g[0], self.int(g[1]), g[2]
            out = []
            for i in range(n):
                with Bind(self, {b: i}):
                    x = self.pick_case(cases)
                    x = self.val(x)
                    out.append(np.asarray(x, dtype=float).reshape(-1))
            return np.array(out).reshape(n, -1)
        if k == "call":
            return self.call(g)
        if k == "noise":
            return self.noise(g)
        if k == "reye":
            return np.eye(rows, cols, self.int(g[2]))
        if k == "qfull":
            return np.linalg.qr(self.lin(g[0]), mode="complete")[0]
        if k in KERNELS:
            return KERNELS[k](self, g)
        raise Unsupported(f"matrix {k}")

    def val(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, Blk):
            return self.blk(x)
        if isinstance(x, Poly):
            return np.array([[self.poly(x)]])
        raise Unsupported("value")

    def pick_case(self, cases):
        for asm, v in cases:
            if all(self.cond(c) == b for c, b in asm):
                return v
        raise Unsupported("no case applies")

    def summ(self, a, scalar=False):
        b, n, cases = a.args[0], self.int(a.args[1]), a.args[2]
        tot = 0.0
        if not scalar:
            tot = np.zeros((self.int(a.rows), self.int(a.cols)))
        for i in range(n):
            with Bind(self, {b: i}):
                v = self.pick_case(cases)
                tot = tot + (self.poly(v) if isinstance(v, Poly) else self.val(v))
        if scalar and isinstance(tot, np.ndarray):
            tot = float(tot.reshape(-1)[0])
        return tot

    def elem(self, g):
        s, idx, outer = g[0], self.int(g[1]), tuple(self.int(x) for x in g[2:])
        key = (s.id, idx, outer)
        r = self.elems.get(key)
        if r is None:
            r = self._elem(s, idx, outer)
            self.elems[key] = r
        return r

    def _elem(self, s, idx, outer):
        shift = poly(s.shift)
        self.depth += 1
        if self.depth > 300:
            raise Unsupported("recursion")
        old = self.bind
        self.bind = {}
        try:
            bind = {}
            for p, v in zip(s.outer, outer):
                bind[next(iter(p.atoms()))] = v
            saved = Bind(self, bind)
            with saved:
                tau = idx - self.int(shift)
                start = self.int(s.start)
                lo, hi = self.int(s.lo), self.int(s.hi)
                if not lo <= tau < hi:
                    raise Unsupported(f"{s.name}[{idx}] out of range")
                region = "first" if tau == start else "generic"
                with Bind(self, {s.tau: tau}):
                    for reg, asm, c in s.cases:
                        if reg == region and all(self.cond(x) == b for x, b in asm):
                            if isinstance(c, Poly):
                                v = self.poly(c)
                                return v
                            return self.val(c)
            raise Unsupported(f"no case of {s.name}[{idx}]")
        finally:
            self.depth -= 1
            self.bind = old

    def call(self, g):
        name, fidx, cols, rows = g
        rows = self.int(rows)
        if isinstance(fidx, Poly):
            fidx = self.int(fidx)
        xs = [self.lin(c)[:, 0] for c in cols]
        x = np.concatenate(xs) if xs else np.zeros(0)
        r = rng_of(self.seed, "call", name, fidx, rows, tuple(len(y) for y in xs))
        W, V, b = r.normal(size=(rows, len(x))) * 0.7, r.normal(size=(rows, len(x))) * 0.5, r.normal(size=rows)
        return (W @ x + np.sin(V @ x + b) + b).reshape(-1, 1)

    def noise(self, g):
        prov, labels, n, cov = g
        c = self.lin(cov)
        lab = tuple(self.int(p) for p in labels)
        cls = (repr(prov), tuple(np.round(c.reshape(-1), 9)))
        self.noise_log.setdefault(cls, set()).add((lab, n))
        k = 0
        if self.noise_rank is not None:
            k = self.noise_rank[cls].index((lab, n))
        r = rng_of(self.seed, "noise", np.round(c, 7).tolist(), k)
        try:
            L = np.linalg.cholesky(c)
        except np.linalg.LinAlgError:
            raise BadEnv("noise covariance")
        return L @ r.normal(size=(c.shape[0], 1))

    # ------------------------------------------------------ conditions
    def cond(self, c):
        if c.op == "ge":
            return self.poly(c.p) >= -1e-12
        if c.op == "eq":
            return abs(self.poly(c.p)) < 1e-12
        if c.op == "pos":
            return self.poly(c.p) > 0
        a = c.p
        k, g = a.kind, a.args
        if k in ("anymask", "allmask"):
            m = self.mask(("row",) + tuple(g))
            return bool(m.any() if k == "anymask" else m.all())
        if k == "elemmask":
            return bool(self.mask(g[0]).reshape(-1)[self.int(g[1])])
        if k in ("seqany", "seqall"):
            m = self.mask(("seq", g[0]) if isinstance(g[0], str) else g[0])
            if len(g) > 1:
                m = m[self.int(g[1]):]
            return bool(m.any() if k == "seqany" else m.all())
        if k in ("partany", "partall"):
            m = self.mask(g[0]).reshape(-1)[self.int(g[1]):self.int(g[2])]
            return bool(m.any() if k == "partany" else m.all())
        if k == "allclose":
            x, y = (self.val(v) if not isinstance(v, Poly) else self.poly(v) for v in g)
            return bool(np.allclose(x, y))
        if k in ("exists", "forall"):
            b, shape, cases = g
            out = []
            for i in range(self.int(shape[0])):
                with Bind(self, {b: i}):
                    out.append(bool(self.pick_case(cases)))
            return any(out) if k == "exists" else all(out)
        if k == "usertype":
            return False
        raise Unsupported(f"condition {k}")

    def mask(self, m):
        if m[0] == "seq":
            return self.masks[m[1]]
        if m[0] == "row":
            x = self.masks[m[1]]
            for i in m[2:]:
                x = x[self.int(i)]
            return np.asarray(x)
        if m[0] == "or":
            return self.mask(m[1]) | self.mask(m[2])
        if m[0] == "shift":
            return self.mask(m[1])[self.int(m[2]):]
        if m[0] in ("one", "colof"):
            return self.mask(m[1])
        if m[0] == "flat":
            x = self.mask(m[1])
            return x[..., 0] if np.ndim(x) > 1 else x
        if m[0] == "T":
            return self.mask(m[1]).T
        if m[0] == "data":
            return self.state(m[1]) != 0
        raise Unsupported("mask")

    # ------------------------------------------------------ values
    def content(self, c, shape):
        if isinstance(c, Poly):
            return np.array(self.poly(c))
        if isinstance(c, Blk):
            x = self.blk(c)
            return x[:, 0] if len(shape) == 1 else x
        if isinstance(c, Seq):
            n = self.int(shape[0])
            out = [self.content(A.seq_get(c, poly(i)), shape[1:]) for i in range(n)]
            if not out:
                return np.zeros((0,) + tuple(self.int(s) for s in shape[1:]))
            return np.array(out)
        if isinstance(c, SeqT):
            return self.content(c.seq, (shape[1], shape[0])).T
        raise Unsupported(f"content {type(c).__name__}")

    def state(self, st):
        if st.dtype == "o":
            return ("objects",)
        x = self.content(st.c, st.shape)
        sh = tuple(self.int(s) for s in st.shape)
        if x.shape != sh:
            if x.size == int(np.prod(sh)):
                x = x.reshape(sh)
            else:
                raise Unsupported(f"shape {x.shape} vs {sh}")
        return x


class Bind:
    def __init__(self, env, b):
        self.env, self.b = env, b

    def __enter__(self):
        e = self.env
        self.old = e.bind
        if self.b:
            e.bind = {**e.bind, **self.b}

    def __exit__(self, *a):
        self.env.bind = self.old


_FREE = {}


def free_atom(a):
    """Iteration symbols (names carry a number) an atom depends on."""
    r = _FREE.get(a.id)
    if r is None:
        if a.kind == "sym":
            r = (a,) if str(a.args[0])[-1:].isdigit() else ()
        else:
            acc = set()
            for y in a.args:
                acc |= set(free_of(y))
            if a.rows is not None:
                acc |= set(free_of(a.rows)) | set(free_of(a.cols))
            r = tuple(sorted(acc, key=lambda x: x.id))
        _FREE[a.id] = r
    return r


_FREEX = {}


def free_of(x):
    if isinstance(x, Atom):
        return free_atom(x)
    if isinstance(x, (Poly, Lin)):
        r = _FREEX.get(x)
        if r is None:
            acc = set()
            if isinstance(x, Poly):
                for k in x.d:
                    for a, _ in k:
                        acc |= set(free_atom(T._LIST[a]))
            else:
                acc |= set(free_of(x.rows)) | set(free_of(x.cols))
                for k, v in x.d.items():
                    acc |= set(free_of(v))
                    for a, _ in k:
                        acc |= set(free_atom(a))
            r = tuple(sorted(acc, key=lambda y: y.id))
            _FREEX[x] = r
        return r
    if isinstance(x, Blk):
        acc = set()
        for r in x.g:
            for y in r:
                acc |= set(free_of(y))
        for p in tuple(x.rp) + tuple(x.cp):
            acc |= set(free_of(p))
        return tuple(sorted(acc, key=lambda y: y.id))
    if isinstance(x, (tuple, frozenset, list)):
        acc = set()
        for y in x:
            acc |= set(free_of(y))
        return tuple(sorted(acc, key=lambda y: y.id))
    if hasattr(x, "term_parts"):
        return free_of(x.term_parts())
    return ()


def is_cov(name):
    return "covariance" in name or name in ("Q", "R", "P0", "M", "S")


def _safe(f):
    def g(v):
        try:
            return f(v)
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
    return g


EW = {k: _safe(f) for k, f in {
    "sqrt": lambda v: math.sqrt(v) if v > 0 or abs(v) > 1e-9 else 0.0, "recip": lambda v: 1.0 / v, "square": lambda v: v * v, "log": math.log, "exp": math.exp,
    "abs": abs, "sign": lambda v: (v > 0) - (v < 0), "trunc": lambda v: float(int(v)), "round32": lambda v: float(np.float32(v)),
    "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "log2": math.log2, "log10": math.log10, "log1p": math.log1p, "floor": math.floor, "ceil": math.ceil, "rint": round,
}.items()}
KERNELS = {}


class Evaluating:
    """Use env to decide every condition met while contents are unfolded."""

    def __init__(self, it, env):
        self.it, self.env = it, env

    def __enter__(self):
        self.old = (self.it.env, A.I[0], T.FACTS[0])
        self.it.env = self.env
        A.I[0] = self.it
        T.FACTS[0] = lambda e: self.env.poly(poly(e)) >= -1e-12
        return self

    def __exit__(self, *a):
        self.it.env, A.I[0], T.FACTS[0] = self.old


def evaluate(it, env, v, depth=0):
    """Python/numpy image of an interpreter value."""
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float)):
        return np.array(float(v))
    if isinstance(v, Poly):
        return np.array(float(env.poly(v)))
    if isinstance(v, Arr):
        st = it.read(v)
        if st.dtype == "o":
            if not st.shape:
                return ("obj",)
            n = env.int(st.shape[0])
            return ("objs",) + tuple(evaluate(it, env, A.seq_get(st.c, poly(i)), depth + 1) for i in range(n))
        return np.asarray(env.state(st), dtype=float)
    if isinstance(v, tuple):
        return tuple(evaluate(it, env, x, depth + 1) for x in v)
    if isinstance(v, NT):
        return tuple(evaluate(it, env, x, depth + 1) for x in v.vals)
    if isinstance(v, ListV):
        items = v.d["items"]
        if isinstance(items, Seq):
            return [evaluate(it, env, A.seq_get(items, poly(i)), depth + 1) for i in range(env.int(items.length))]
        return [evaluate(it, env, x, depth + 1) for x in items]
    if isinstance(v, DictV):
        return {k: evaluate(it, env, x, depth + 1) for k, x in v.d["items"].items()}
    if isinstance(v, BoolV):
        r = env.cond(v.cond)
        return (not r) if v.neg else r
    if isinstance(v, MaskV):
        return np.asarray(env.mask(v.term), dtype=float)
    if type(v).__name__ == "BoolSeq":
        sh = tuple(env.int(s) for s in v.shape)
        out = np.zeros(sh)
        for i in np.ndindex(*sh):
            x = v.fn(tuple(poly(k) for k in i))
            x = evaluate(it, env, x) if isinstance(x, BoolV) else it.truth(x)
            out[i] = bool(x)
        return out
    if isinstance(v, Marker):
        if v.force:
            return evaluate(it, env, v.force(), depth + 1)
        raise Unsupported("marker")
    if isinstance(v, OpaqueFn):
        i = v.idx
        return ("fn", v.name, env.int(i) if isinstance(i, Poly) else i)
    if isinstance(v, Inst):
        return ("inst", v.cls.name)
    return ("val", type(v).__name__)


def differ(a, b, path=""):
    """First difference between two images (None when equal)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} instead of {b.shape}"
        if a.size == 0:
            return None
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return f"{path}: undefined entries"
        x, y = np.where(na, 0, a), np.where(nb, 0, b)
        with np.errstate(all="ignore"):
            sc = 1.0 + np.max(np.abs(np.where(np.isfinite(y), y, 0)))
            bad = ~((x == y) | (np.abs(x - y) <= 1e-7 * sc))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            return f"{path}{list(i) if i else ''}: {float(x[i]):.6g} instead of {float(y[i]):.6g}"
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}({i})")
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if "raises" in a and "raises" not in b:
            return f"raises {a['raises']}"
        if "raises" in b and "raises" not in a:
            return f"does not raise {b['raises']}"
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} instead of {sorted(b)}"
        for k in sorted(a, key=str):
            d = differ(a[k], b[k], f"{path}.{k}" if path else str(k))
            if d:
                return d
        return None
    if type(a) is not type(b):
        # a list of arrays against an array
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            if isinstance(a, (list, np.ndarray)) and isinstance(b, (list, np.ndarray)):
                return differ(x, y, path)
        except (TypeError, ValueError):
            pass
        return f"{path}: {a!r} instead of {b!r}"[:200]
    if a != b:
        return f"{path}: {a!r} instead of {b!r}"
    return None
