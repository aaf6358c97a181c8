from ..rules import *
from .c01 import COMBOS, DIMS

RULE = "KalmanFilter.smooth and the documented backward recursion have equal value graphs; the last smoothed moments equal the last filtered ones"
EXPLANATION = "Abstract interpretation of the public method (symbolic n, m, T; forward and backward loops summarised as recurrences) compared with the specification by random interpretation."


def case(tv, masked=True):
    def code(c):
        e, p = S.estimator(c, "kf", tv)
        return S.moments(c.method(e, "smooth", c.obs(masked=masked)))

    def spec(c):
        p = S.linear_params(c, tv)
        return S.moments(c.spec("kf.smooth", S.as_tuple(p), c.obs(masked=masked)))
    return Compare(f"smooth tv={tv or '-'}{'' if masked else ' plain array'}", DIMS, code, spec)


def last(tv):
    def pick(c, r):
        return {"mean": c.it.getitem(r[0], -1), "cov": c.it.getitem(r[1], -1)}

    def code(c):
        e, p = S.estimator(c, "kf", tv)
        return pick(c, c.method(e, "smooth", c.obs()))

    def spec(c):
        e, p = S.estimator(c, "kf", tv)
        return pick(c, c.method(e, "filter", c.obs()))
    return Compare(f"last smoothed = last filtered tv={tv or '-'}", DIMS, code, spec)


def obligations(tier):
    return [case(tv) for tv in COMBOS] + [case("", False), case("AbQCdR", False), last(""), last("AbQCdR")]
