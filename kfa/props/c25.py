from ..rules import *
from .c01 import DIMS

RULE = "the value graph of every returned covariance equals that of its transpose, for symmetric covariance parameters"
EXPLANATION = "Abstract interpretation of filter, smooth, filter_update and em of all six classes (symbolic T; symbolic n, m except for the Bierman and square-root unscented filters); the graph of each covariance is compared with its transpose by random interpretation."
COVS = ("transition_covariance", "observation_covariance", "initial_state_covariance")


def flip(img, side):
    if side == "code" or "raises" in img:
        return img
    return {k: np.swapaxes(np.asarray(v), -1, -2) if isinstance(v, np.ndarray) and v.ndim >= 2 else v for k, v in img.items()}


def nm(dims):
    return "" if dims is DIMS else " " + " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))


def batch(which, meth, tv, dims=DIMS):
    def run(c):
        e, p = S.estimator(c, which, tv)
        return {"covariances": c.method(e, meth, c.obs())[1]}
    return Compare(f"symmetric: {which} {meth} tv={tv or '-'}{nm(dims)}", dims, run, run, post=flip)


def update(which, kind, dims):
    def run(c):
        e, p = S.estimator(c, which)
        a = () if kind == "absent" else (c.obs("z", (c.m,), masked=kind == "masked"),)
        return {"cov": c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), *a)[1]}
    return Compare(f"symmetric: {which} filter_update {kind}{nm(dims)}", dims, run, run, post=flip)


def em(which, free, tv, dims=DIMS, iters=1, omit=""):
    def run(c):
        e, p = S.estimator(c, which, tv, omit)
        c.method(e, "em", c.obs(), n_iter=iters, em_vars=free if isinstance(free, str) else ListV(tuple(free)))
        return {k: c.get(e, k) for k in COVS if free == "all" or k in free}
    lab = free if isinstance(free, str) else "+".join(free)
    return Compare(f"symmetric: {which} em {lab} tv={tv or '-'} n_iter={iters}{nm(dims)}", dims, run, run, post=flip)


def obligations(tier):
    deep = tier == "thorough"
    nmd = {"n": SYM, "m": SYM}
    out = []
    for w in ("kf", "chol", "ukf", "aukf"):
        tvs = {"kf": ("", "A", "Q", "C", "R", "AbQCdR"), "chol": ("", "A", "C", "AbCd")}.get(w, ("", "f", "g", "fg"))
        out += [batch(w, me, tv) for me in ("filter", "smooth") for tv in tvs]
        out += [update(w, k, nmd) for k in ("given", "masked", "absent")]
    for w in ("kf", "chol"):
        out += [em(w, "all", ""), em(w, COVS, ""), em(w, COVS, "AbCd"), em(w, COVS, "", iters=2), em(w, COVS[:1], ""), em(w, COVS[1:2], ""), em(w, COVS[2:], "")]
    for n, m in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2), (3, 3)) if deep else ((2, 2), (3, 1), (1, 3)):
        d = {"n": n, "m": m, "T": SYM}
        for w in ("bier", "sqrt"):
            out += [batch(w, me, "", d) for me in ("filter", "smooth")]
            out += [update(w, k, {"n": n, "m": m}) for k in ("given", "masked", "absent")]
    out += [em("bier", "all", "", {"n": 2, "m": 2, "T": SYM}), em("bier", COVS, "", {"n": 2, "m": 1, "T": SYM})]
    return out
