from ..rules import *
from .. import terms as TT

RULE = "the value graphs of the sigma points, weights and transformed moments satisfy the documented identities for arbitrary mean, covariance, spread parameters and functions"
EXPLANATION = "Abstract interpretation of moments2points, points2moments and unscented_transform of both unscented modules (symbolic dimensions for the plain module, n, m in 1..3 for the factorised one); the identities compared do not depend on the choice of the matrix square root."
KEYS = ["central point", "pairs symmetric", "spread plus", "spread minus", "mean weights sum", "mean weights", "covariance weights", "weighted mean", "weighted covariance (mean weights)", "weighted covariance (covariance weights)"]
PLAIN, SQRT = "pykalman.unscented", "pykalman.sqrt.unscented"


def dm(dims):
    return " ".join(f"{k}={v if isinstance(v, int) else '*'}" for k, v in dims.items())


def spread(given):
    return {k: TT.real("spread_" + k, k != "beta") for k in given}


def points(mod, given, dims):
    def moments_(c, sqrt):
        mean, cov = c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n)
        if sqrt:
            cov = c.spec("ukf.upper", cov)
        return c.call(c.cls(mod + ".Moments"), mean, cov), mean

    def code(c):
        mo, mean = moments_(c, mod == SQRT)
        r = c.call(c.cls(mod + ".moments2points"), mo, **spread(given))
        d = c.spec("ukf.describe", c.it.getitem(r, 0), c.it.getitem(r, 1), c.it.getitem(r, 2), mean)
        return dict(zip(KEYS, d))

    def spec(c):
        r = c.spec("ukf.expected", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), **spread(given))
        return dict(zip(KEYS, r))
    return Compare(f"{mod}.moments2points given={','.join(given) or '-'} {dm(dims)}", dims, code, spec)


def sigma(c, mod, X, wm, wc):
    return c.call(c.cls(mod + ".SigmaPoints"), X, wm, wc)


def moments(noise, dims):
    """Arbitrary points and weights."""
    def data(c):
        return c.arr("points", c.k, c.n), c.arr("wm", c.k), c.arr("wc", c.k), (c.arr("noise_covariance", c.n, c.n) if noise else None)

    def code(c):
        X, wm, wc, q = data(c)
        r = c.call(c.cls(PLAIN + ".points2moments"), sigma(c, PLAIN, X, wm, wc), *([q] if noise else []))
        return {"mean": c.it.getitem(r, 0), "cov": c.it.getitem(r, 1)}

    def spec(c):
        X, wm, wc, q = data(c)
        r = c.spec("ukf.moments", X, wm, wc, q)
        return {"mean": r[0], "cov": r[1]}
    return Compare(f"points2moments noise={noise}", dims, code, spec)


def transform(mod, noise, f, given, dims):
    """Moments of transformed sigma points of a Gaussian."""
    def args(c):
        mean, cov = c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n)
        fn = OpaqueFn("f", None, c.m) if f else None
        q = c.arr("noise_covariance", *((c.m, c.m) if f else (c.n, c.n))) if noise else None
        return mean, cov, fn, q

    def code(c):
        mean, cov, fn, q = args(c)
        sq = mod == SQRT
        if sq:
            cov = c.spec("ukf.upper", cov)
            q = c.spec("ukf.upper", q) if q is not None else None
        pts = c.call(c.cls(mod + ".moments2points"), c.call(c.cls(mod + ".Moments"), mean, cov), **spread(given))
        kw = {("sigma2_noise" if sq else "sigma_noise"): q} if noise else {}
        r = c.call(c.cls(mod + (".unscented_transform" if not sq else "._unscented_transform")), pts, **({"f": fn} if f else {}), **kw)
        mo = c.it.getitem(r, 1)
        s = c.it.getitem(mo, 1)
        return {"mean": c.it.getitem(mo, 0), "cov": c.spec("ukf.gram", s) if sq else s}

    def spec(c):
        mean, cov, fn, q = args(c)
        X, wm, wc = c.spec("ukf.points", mean, cov, **spread(given))
        Y, mu, s = c.spec("ukf.transform", X, wm, wc, fn, q)
        return {"mean": mu, "cov": s}
    return Compare(f"{mod} transform f={f} noise={noise} given={','.join(given) or '-'} {dm(dims)}", dims, code, spec)


def obligations(tier):
    giv = [tuple(x) for k in range(4) for x in itertools.combinations(("alpha", "beta", "kappa"), k)]
    out = [points(PLAIN, g, {"n": SYM}) for g in giv]
    out += [moments(x, {"n": SYM, "k": SYM}) for x in (False, True)]
    out += [transform(PLAIN, no, f, g, {"n": SYM, "m": SYM}) for no in (False, True) for f in (False, True) for g in ((), ("alpha", "beta", "kappa"))]
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    out += [points(SQRT, g, {"n": n}) for n in ns[:3] for g in giv]
    out += [transform(SQRT, no, f, (), {"n": n, "m": m}) for no, f in ((True, True), (True, False), (False, False)) for n in ns for m in ((1, 2) if f else (1,))]
    return out
