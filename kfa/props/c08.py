from ..rules import *
from .c01 import DIMS

RULE = "every public method of CholeskyKalmanFilter and of KalmanFilter have equal value graphs for the same model and observations"
EXPLANATION = "Abstract interpretation of both classes (symbolic n, m, T; loops summarised as recurrences; triangular factors eliminated through their Gram identities at random instantiations) compared by random interpretation."
OTHER = "chol"
TVS = ("", "A", "b", "C", "d", "Ab", "Cd", "AC", "bd", "AbCd")


def method(which, meth, tv, dims, other, masked=True):
    def run(w):
        def f(c):
            e, p = S.estimator(c, w, tv)
            r = c.method(e, meth, c.obs(masked=masked))
            return S.moments(r) if meth != "loglikelihood" else {"loglikelihood": r}
        return f
    return Compare(f"{meth} tv={tv or '-'}{'' if masked else ' plain'} n={nm(dims['n'])} m={nm(dims['m'])}", dims, run(other), run("kf"))


def nm(x):
    return "*" if not isinstance(x, int) else x


def update(other, dims, kind, tv=""):
    """One online update of arbitrary moments; kind: observation given, masked or absent."""
    def run(w):
        def f(c):
            e, p = S.estimator(c, w, "")
            mean, cov = c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n)
            kw = {}
            if kind != "none":
                kw["observation"] = c.obs("Z", (c.m,), masked=kind == "masked")
            for l, name, up in S.PARAMS:
                if up and l in tv:
                    kw[up] = c.arr(name + "_new", *S.shapes(c)[l])
            r = c.method(e, "filter_update", mean, cov, **kw)
            return {"mean": r[0], "cov": r[1]}
        return f
    return Compare(f"filter_update {kind} override {tv or '-'} n={nm(dims['n'])} m={nm(dims['m'])}", {k: v for k, v in dims.items() if k != "T"}, run(other), run("kf"))


def em(other, dims, free, iters, tv=""):
    def run(w):
        def f(c):
            kw = {"em_vars": free} if free is not None and not isinstance(free, str) else {}
            e, p = S.estimator(c, w, tv)
            a = {"n_iter": iters}
            if free is not None:
                a["em_vars"] = free if isinstance(free, str) else ListV(tuple(free))
            c.method(e, "em", c.obs(), **a)
            return {k: c.get(e, k) for k in S.NAMES}
        return f
    lab = free if isinstance(free, str) else "default" if free is None else "+".join(free)
    return Compare(f"em {lab} n_iter={iters} tv={tv or '-'} n={nm(dims['n'])} m={nm(dims['m'])}", dims, run(other), run("kf"))


def obligations(tier):
    out = [method("kf", me, tv, DIMS, OTHER) for me in ("filter", "smooth", "loglikelihood") for tv in TVS]
    out += [method("kf", me, "", DIMS, OTHER, False) for me in ("filter", "smooth", "loglikelihood")]
    nmd = {"n": SYM, "m": SYM}
    out += [update(OTHER, nmd, k, o) for k in ("given", "masked", "none") for o in ("", "AbQCdR")]
    out += [update(OTHER, nmd, "masked", o) for o in "AbQCdR"]
    out += [em(OTHER, DIMS, f, i) for f in (None, "all") for i in (1, 2)]
    return out
