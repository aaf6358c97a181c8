from ..rules import *
from .c01 import DIMS

RULE = "UnscentedKalmanFilter.filter and smooth and the documented augmented-state recursions have equal value graphs, for single and per-step functions"
EXPLANATION = "Abstract interpretation of the public methods (symbolic n, m, T; user functions uninterpreted, one per step where per-step functions are given; sigma points as symbolic families) compared with the specification by random interpretation."
WHICH, KIND = "ukf", "general"


def case(which, kind, meth, tv, dims=DIMS, masked=True):
    def code(c):
        e, p = S.estimator(c, which, tv)
        return S.moments(c.method(e, meth, c.obs(masked=masked)))

    def spec(c):
        p = S.unscented_params(c, tv)
        r = c.spec(f"ukf.{kind}_{meth}", p["transition_functions"], p["observation_functions"], "f" in tv, "g" in tv, p["transition_covariance"],
                   p["observation_covariance"], p["initial_state_mean"], p["initial_state_covariance"], c.obs(masked=masked))
        return S.moments(r)
    nm = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Compare(f"{which} {meth} per-step functions={tv or '-'}{'' if masked else ' plain array'}{nm}", dims, code, spec)


def last(which, tv, dims=DIMS):
    def pick(c, r):
        return {"mean": c.it.getitem(r[0], -1), "cov": c.it.getitem(r[1], -1)}

    def run(meth):
        def f(c):
            e, p = S.estimator(c, which, tv)
            return pick(c, c.method(e, meth, c.obs()))
        return f
    nm = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Compare(f"{which} last smoothed = last filtered {tv or '-'}{nm}", dims, run("smooth"), run("filter"))


def obligations(tier):
    out = [case(WHICH, KIND, me, tv) for me in ("filter", "smooth") for tv in ("", "f", "g", "fg")]
    out += [case(WHICH, KIND, me, tv, masked=False) for me in ("filter", "smooth") for tv in ("", "fg")]
    out += [last(WHICH, tv) for tv in ("", "fg")]
    return out
