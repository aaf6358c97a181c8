from ..rules import *

RULE = "KalmanFilter.filter and the documented recursion have equal value graphs for every combination of constant and per-step parameters"
EXPLANATION = "Abstract interpretation of the public method to symbolic value graphs (symbolic n, m, T; loops summarised as recurrences) compared with the graph of the specification by random interpretation."
DIMS = {"n": SYM, "m": SYM, "T": SYM}
COMBOS = ["".join(x) for k in range(7) for x in itertools.combinations("AbQCdR", k)]


def case(tv, masked=True):
    def code(c):
        e, p = S.estimator(c, "kf", tv)
        return S.moments(c.method(e, "filter", c.obs(masked=masked)))

    def spec(c):
        p = S.linear_params(c, tv)
        return S.moments(c.spec("kf.filter", S.as_tuple(p), c.obs(masked=masked)))
    return Compare(f"filter tv={tv or '-'}{'' if masked else ' plain array'}", DIMS, code, spec)


def obligations(tier):
    return [case(tv) for tv in COMBOS] + [case("", False), case("AbQCdR", False)]
