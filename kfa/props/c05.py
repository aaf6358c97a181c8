from ..rules import *
from .c01 import COMBOS, DIMS

RULE = "loglikelihood and the sum of the documented innovation densities over observed steps have equal value graphs"
EXPLANATION = "Abstract interpretation of loglikelihood of the three linear filters (symbolic n, m, T for the standard and Cholesky filters) compared with the specification by random interpretation."


def case(which, tv, dims=DIMS, masked=True):
    def code(c):
        e, p = S.estimator(c, which, tv)
        return {"loglikelihood": c.method(e, "loglikelihood", c.obs(masked=masked))}

    def spec(c):
        p = S.linear_params(c, tv)
        return {"loglikelihood": c.spec("kf.loglikelihood", S.as_tuple(p), c.obs(masked=masked))}
    nm = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Compare(f"loglikelihood {which} tv={tv or '-'}{nm}{'' if masked else ' plain array'}", dims, code, spec)


def obligations(tier):
    out = [case("kf", tv) for tv in COMBOS] + [case("kf", "", masked=False), case("kf", "AbQCdR", masked=False)]
    out += [case("chol", tv) for tv in ("", "A", "b", "C", "d", "AbCd")]
    for n, m in ((1, 1), (2, 2), (1, 2), (3, 1)) if tier == "quick" else itertools.product((1, 2, 3), (1, 2, 3)):
        out += [case("bier", tv, {"n": n, "m": m, "T": SYM}) for tv in ("", "AbCd")]
    return out
