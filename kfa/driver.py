"""Scenarios: abstract execution of an entry point over all paths, comparison of
the resulting value graphs with those of the specification."""
import itertools
import sys
import time
import traceback
import numpy as np
from . import terms as T
from .terms import poly, atom, ONE, ZERO
from .facts import c_ge, c_eq, is_int_poly
from . import arrays as A
from . import interp as IN
from .values import *
from .loader import Loader, REPO
from . import evalr
from .evalr import Env, Evaluating, evaluate, differ, BadEnv, Unsupported, Bind

sys.setrecursionlimit(20000)
T_SYM = "T"


class Infeasible(Exception):
    pass


class Ctx:
    """Arguments of a scenario: dimensions and symbolic inputs."""

    def __init__(self, it, dims, opts=None, owner=True):
        self.it = it
        self.dims = dims                  # name -> Poly
        self.opts = opts or {}
        self.own = owner
        self.inputs = {}

    def __getattr__(self, k):
        d = self.__dict__.get("dims", {})
        if k in d:
            return d[k]
        raise AttributeError(k)

    def dt(self):
        return self.opts.get("dtype", "f")

    # ---- arrays
    def arr(self, name, *shape, dtype=None, mask=None):
        a = self.raw(name, *shape, dtype=dtype, mask=mask)
        if self.own:
            a.owner = "user:" + name
        self.inputs[name] = a
        return a

    def raw(self, name, *shape, dtype=None, mask=None):
        shape = tuple(poly(s) for s in shape)
        c = self.content(name, (), shape)
        return Arr(St(shape, c, dtype or self.dt(), mask))

    def content(self, name, idx, shape):
        """Opaque content: one parameter atom per step for sequences."""
        k = len(shape)
        if k == 3 or (k >= 1 and self.is_time(name, shape)):
            n = shape[0]
            q = Seq(n, lambda i: self.content2(name, idx + (poly(i),), shape[1:]))
            if A.kind(shape) == "q":
                return q
            return A.from_seq(shape, q)
        return self.content2(name, idx, shape)

    def is_time(self, name, shape):
        return name in self.timed or A.is_time(shape[0])

    timed = ("Z", "X")

    def content2(self, name, idx, shape):
        if any(A.is_time(s) for s in shape):
            raise Undecided("time axis inside a step")
        symm = evalr.is_cov(name) and len(shape) == 2 and shape[0] == shape[1]

        def mk(rows, cols):
            r, c = (rows, cols) if rows is not None else (ONE, ONE)
            if rows is None and not shape:
                return atom("param", name, *idx, ONE, ONE)
            if rows is None:
                return atom("param", name, *idx, r, c)
            return atom("param", name, *idx, r, c, rows=rows, cols=cols, sym=symm)
        return A.elem_content(mk, shape)

    # ---- observations
    def obs(self, name="Z", shape=None, masked=True, dtype=None):
        shape = shape if shape is not None else (self.T, self.m)
        self.masked = getattr(self, "masked", {})
        self.masked[name] = (tuple(poly(s) for s in shape), masked)
        return self.arr(name, *shape, dtype=dtype, mask=("seq", name) if masked else None)

    def it_len(self, p):
        """An integer argument."""
        p = poly(p)
        return int(p.const()) if p.is_const() else p

    # ---- program access
    def cls(self, dotted):
        mod, _, name = dotted.rpartition(".")
        m = self.it.loader.module(self.it, mod)
        if name in m.ns:
            return m.ns[name]
        raise Undecided(f"{dotted} not found")

    def call(self, fn, *a, **k):
        return self.it.call(fn, list(a), k)

    def method(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def spec(self, dotted, *a, **k):
        return self.call(self.cls("spec." + dotted), *a, **k)


class Path:
    def __init__(self, it, dims, pre, out, exc, ctx):
        self.it, self.dims, self.pre, self.out, self.exc, self.ctx = it, dims, pre, out, exc, ctx

    def applies(self, env):
        for d, p in self.dims.items():
            if abs(env.poly(p) - env.dims[d]) > 1e-9:
                return False
        try:
            return all(env.cond(c) == b for c, b in self.pre)
        except IndexError:
            return False      # the condition concerns a step that does not exist here


def solve_dim(p, dims, prefer=("m", "n", "k")):
    """Dimension d and expression e with p == 0 <=> d == e."""
    for name in list(prefer) + [T_SYM]:
        if name not in dims or dims[name].is_const():
            continue
        a = next(iter(dims[name].atoms()))
        if len(dims[name].d) != 1:
            continue
        k = ((a.id, 1),)
        if p.d.get(k) not in (1, -1):
            continue
        rest = p - T.poly(a) * T.poly(p.d[k])
        if a in rest.atoms():
            continue
        e = rest * T.poly(-p.d[k])
        if name == T_SYM and not e.is_const():
            continue
        return name, e
    return None


class Explorer:
    """Runs fn(ctx) abstractly on every path."""

    def __init__(self, dims, opts=None, max_paths=160, oracle=None, max_time=200):
        self.dims0 = dims       # name -> int or ('sym', lo)
        self.opts = opts
        self.oracle = oracle    # instantiation deciding every condition it can
        self.max_paths = max_paths
        self.dropped = []
        self.max_time = max_time

    def base_dims(self):
        out = {}
        for k, v in self.dims0.items():
            out[k] = poly(v) if isinstance(v, int) else T.sym(k, v[1])
        return out

    def run(self, fn):
        work = [({}, ())]
        paths = []
        n = 0
        t0 = time.time()
        while work:
            sub, pre = work.pop()
            n += 1
            if n > self.max_paths or time.time() - t0 > self.max_time:
                raise Undecided("too many paths")
            it = self.last = IN.Interp(Loader())
            it.dim_names = tuple(self.dims0)
            T.FACTS[0] = it.facts.nonneg
            dims = self.base_dims()
            for k, e in sub.items():
                dims[k] = e
            # substitute transitively
            for _ in range(3):
                for k, e in list(dims.items()):
                    m = {next(iter(T.sym(q, 0).atoms())): v for q, v in dims.items() if q != k and q in sub}
                    if m:
                        dims[k] = T.subst(e, {a: b for a, b in m.items()})
            it.n_time = dims.get(T_SYM)
            ctx = Ctx(it, dims, self.opts)
            try:
                bad = False
                for k, v in self.dims0.items():
                    if k in sub and not isinstance(v, int):
                        low = dims[k] - v[1]
                        if low.is_const():
                            bad |= low.const() < 0
                        else:
                            it.facts.push(low)
                for c, b in pre:
                    c2 = self.resubst(c, dims)
                    if c2.op in ("ge", "eq") and c2.p.is_const():
                        v = c2.p.const() >= 0 if c2.op == "ge" else c2.p.is_zero()
                        if v != b:
                            bad = True
                        continue
                    it.assume(c2, b)
                if bad or not it.facts.feasible():
                    continue
                pinned = self.pinned(it, dims)
                if pinned:
                    sub2 = dict(sub)
                    sub2[pinned[0]] = poly(pinned[1])
                    work.append((sub2, pre))
                    continue
                exc = None
                out = None
                try:
                    out = fn(ctx)
                except PyRaise as e:
                    exc = e.exc
                paths.append(Path(it, {k: v for k, v in dims.items()}, [(self.resubst(c, dims), b) for c, b in pre], out, exc, ctx))
            except IN.NeedSplit as e:
                c = e.cond
                if self.oracle is not None:
                    try:
                        with Evaluating(it, self.oracle):
                            v = bool(self.oracle.cond(c))
                        work.append((sub, pre + ((c, v),)))
                        continue
                    except Unsupported:
                        pass
                if c.op == "eq" and is_int_poly(c.p):
                    work.append((sub, pre + ((c, False),)))
                    s = solve_dim(c.p, dims)
                    if s is not None:
                        sub2 = dict(sub)
                        sub2[s[0]] = s[1]
                        work.append((sub2, pre))
                    elif any(a.kind == "sym" and str(a.args[0]) in self.dims0 and str(a.args[0]) != T_SYM for a in c.p.atoms()):
                        self.dropped.append(repr(c))
                    else:
                        work.append((sub, pre + ((c, True),)))
                else:
                    work.append((sub, pre + ((c, False),)))
                    work.append((sub, pre + ((c, True),)))
            except IN.Abort:
                continue
        return paths

    def resubst(self, c, dims):
        m = {}
        for k, v in dims.items():
            if isinstance(self.dims0[k], int):
                continue
            a = next(iter(T.sym(k, 0).atoms()))
            if v != T.poly(a):
                m[a] = v
        if not m:
            return c
        return c.rw(lambda y: T.subst(y, m), None, None)

    def pinned(self, it, dims):
        for k, v in dims.items():
            if v.is_const() or isinstance(self.dims0[k], int):
                continue
            if len(v.d) != 1:
                continue
            lo = self.dims0[k][1]
            for x in range(lo, lo + 3):
                if it.facts.nonneg(v - x) and it.facts.nonneg(poly(x) - v):
                    return k, x
        return None


# ------------------------------------------------------------------ numeric
def cond_consts(conds):
    out = set()
    for c in conds:
        if c.op in ("ge", "eq", "pos"):
            v = c.p.d.get((), 0)
            if v.denominator == 1 if hasattr(v, "denominator") else True:
                out.add(abs(int(v)))
    return {x for x in out if 1 < x <= 40}


def path_conds(p):
    out = [c for c, b in p.pre]
    for s in p.it.streams:
        for reg, asm, c in s.cases:
            out += [x for x, b in asm]
    return out


def dim_choices(dims0, extra=(), thorough=False):
    """Dimension instantiations to try."""
    names = list(dims0)
    cand = {}
    for k, v in dims0.items():
        if isinstance(v, int):
            cand[k] = [v]
        elif k == T_SYM:
            cand[k] = sorted({max(v[1], x) for x in ((2, 4) if not thorough else (2, 3, 5, 7))} | {v[1]} | {x + 3 for x in extra})
        else:
            cand[k] = sorted({max(v[1], x) for x in ((1, 2, 3) if not thorough else (1, 2, 3, 5))})
    return [dict(zip(names, c)) for c in itertools.product(*[cand[k] for k in names])]


def masks_for(spec, dims, env0, k, rng):
    """Boolean masks for every masked input: pattern number k."""
    out = {}
    for name, (shape, masked) in spec.items():
        sh = tuple(int(round(env0.poly(s))) for s in shape)
        m = np.zeros(sh, dtype=bool)
        if masked and len(sh) >= 1 and sh[0] > 0:
            if k == 1:
                m[0] = True
            elif k == 2:
                m[-1] = True
            elif k == 3:
                m[...] = True
            elif k == 4 and len(sh) > 1:
                m[rng.randint(sh[0]), rng.randint(sh[1])] = True
            elif k >= 4:
                m = rng.rand(*sh) < 0.35
            if masked == "last":
                m[-1, rng.randint(sh[1])] = True
            elif masked == "all":
                m[..., rng.randint(sh[-1])] = True
        out[name] = m
    return out


class Result:
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.paths = 0
        self.spec_paths = 0
        self.streams = 0
        self.envs = 0
        self.functions = set()
        self.unexercised = 0
        self.dropped = []
        self.outputs = 0
        self.effects = {}
        self.events = []
        self.proved = 0


def site_list(p):
    seen = []
    for s in p.it.streams:
        if s.site not in seen:
            seen.append(s.site)
    return seen


def run_compare(name, dims, code, spec, opts=None, thorough=False, seed=1, n_masks=None, params=None, pre_env=None, code_opts=None, post=None, confirm=True):
    """Compare code(ctx) and spec(ctx): dicts of outputs."""
    res = Result()
    ex = Explorer(dims, dict(opts or {}, **(code_opts or {})))
    cp = ex.run(code)
    res.dropped += ex.dropped
    ex2 = Explorer(dims, opts)
    sp = ex2.run(spec)
    compare_paths(name, dims, cp, sp, res, thorough, seed, n_masks, params, post)
    if res.violations and confirm and any(not isinstance(v, int) for v in dims.values()):
        keep = []
        for v in res.violations:
            ok = confirmed(name, v, code, spec, opts, code_opts, seed, params, post)
            if ok is False:
                res.undecided.append(f"a difference found with symbolic dimensions is not confirmed at {v['dims']}: {v['difference']}")
            else:
                if ok:
                    v["difference"] = ok
                v["confirmed"] = bool(ok)
                keep.append(v)
                break
        res.violations = keep
    return res, cp, sp


def confirmed(name, v, code, spec, opts, code_opts, seed, params, post):
    """Repeat the comparison with unrolled loops at the failing dimensions:
    False when the graphs agree there, a text when they differ, None when undecided."""
    dv = v["dims"]
    masks = v["masks"]
    imgs = []
    try:
        for fn, o in ((code, dict(opts or {}, **(code_opts or {}))), (spec, opts)):
            env = Env((seed, v["di"], v["mask"]), dv, masks, params)
            ps = Explorer(dv, o, oracle=env).run(fn)
            sel = [p for p in ps if p.applies(env)]
            if not sel:
                return None
            imgs.append((sel[0], Env((seed, v["di"], v["mask"]), dv, masks, params)))
        d = compare_at(imgs[0], imgs[1], post)
    except (Undecided, Unsupported, BadEnv, IN.NeedSplit, RecursionError, AssertionError, TypeError, AttributeError, KeyError):
        return None
    if d is None:
        return None
    return d or False


def compare_paths(name, dims, cp, sp, res, thorough=False, seed=1, n_masks=None, params=None, post=None):
    res.paths += len(cp)
    res.spec_paths += len(sp)
    for p in cp:
        res.functions |= {f"{f}:{q}" for f, q in p.it.called if f.startswith("pykalman")}
        res.streams += len(p.it.streams)
    extra = set()
    for p in cp:
        extra |= cond_consts(path_conds(p))
    mspec = {}
    for p in cp + sp:
        mspec.update(getattr(p.ctx, "masked", {}))
    hit = set()
    choices = dim_choices(dims, sorted(extra)[:4], thorough)
    if n_masks is None:
        n_masks = 6 if any(m for _, m in mspec.values()) else 1
    # every mask pattern occurs with several dimensions
    stride = 1 if thorough or len(choices) * n_masks <= 24 else 3
    todo = [(di, dv, k) for di, dv in enumerate(choices) for k in range(n_masks * 2 if thorough and n_masks > 1 else n_masks)]
    for di, dv, k, late in [x + (False,) for x in todo if stride == 1 or not (x[0] + x[2]) % stride] + [x + (True,) for x in todo if stride > 1 and (x[0] + x[2]) % stride]:
        if late and len(hit) == len(cp):
            break
        if True:
            rng = evalr.rng_of(seed, name, di, k)
            env0 = Env((seed, name), dv)
            here = {}
            for p in cp + sp:
                if all(abs(env0.poly(q) - dv[d]) < 1e-9 for d, q in p.dims.items()):
                    here.update(getattr(p.ctx, "masked", {}))
            masks = masks_for(here, dv, env0, k, rng)
            imgs = []
            for side, paths in (("code", cp), ("spec", sp)):
                env = Env((seed, di, k), dv, masks, params)
                sel = None
                for i, p in enumerate(paths):
                    with Evaluating(p.it, env):
                        try:
                            ok = p.applies(env)
                        except Unsupported as e:
                            raise Undecided(f"condition not evaluable: {e}")
                    if ok:
                        sel = i
                        break
                if sel is None:
                    imgs.append(None)
                    continue
                p = paths[sel]
                if side == "code":
                    if late and sel in hit:
                        imgs = [None, None]
                        break
                    hit.add(sel)
                imgs.append((p, env))
            if imgs[0] is None or imgs[1] is None:
                continue
            v = compare_at(imgs[0], imgs[1], post)
            if v is None:
                continue
            res.envs += 1
            if v:
                p = imgs[0][0]
                res.violations.append(dict(scenario=name, difference=v, dims=dv, mask=k, masks=masks, di=di,
                                           functions=sorted({f"{f}:{q}" for f, q in p.it.called if f.startswith("pykalman")}), sites=site_list(p),
                                           path=[f"{'' if b else 'not '}{c!r}" for c, b in p.pre]))
                if len(res.violations) >= 2:
                    return
        if res.violations:
            return
    res.unexercised += len(cp) - len(hit)
    if not res.envs and cp:
        raise Undecided("no instantiation exercises a path")


def image(p, env):
    with Evaluating(p.it, env):
        if p.exc is not None:
            return {"raises": exc_name(p.exc)}
        return {k: evaluate(p.it, env, v) for k, v in p.out.items()}


def exc_name(e):
    return e.cls.name


def compare_at(a, b, post=None):
    """'' when equal, a text when different, None when the instantiation is unusable."""
    (pa, ea), (pb, eb) = a, b
    try:
        with np.errstate(all="ignore"):
            ia = image(pa, ea)
            ib = image(pb, eb)
            if ea.noise_log or eb.noise_log:
                for e in (ea, eb):
                    e.noise_rank = {c: sorted(v, key=repr) for c, v in e.noise_log.items()}
                    e.memo, e.elems = {}, {}
                ia = image(pa, ea)
                ib = image(pb, eb)
    except BadEnv:
        return None
    except Unsupported as e:
        raise Undecided(f"value not evaluable: {e}")
    if post is not None:
        ia, ib = post(ia, "code"), post(ib, "spec")
    ia2 = {k: ia[k] for k in ib if k in ia} if "raises" not in ia and "raises" not in ib else ia
    d = differ(ia2, ib)
    return d or ""
