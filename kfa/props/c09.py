from ..rules import *
from .c08 import method, update, em

RULE = "every public method of BiermanKalmanFilter and of KalmanFilter have equal value graphs for the same model and observations"
EXPLANATION = "Abstract interpretation of both classes (symbolic T; n, m in 1..3 because the UDU' factorisation works entry by entry; UDU' factors and decorrelation eliminated at random instantiations) compared by random interpretation."
OTHER = "bier"
TVS = ("", "A", "b", "C", "d", "AbCd")


def obligations(tier):
    out = []
    full = [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)]
    nms = full if tier == "thorough" else [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3)]
    for n, m in nms:
        d = {"n": n, "m": m, "T": SYM}
        small = n * m <= 4
        tvs = TVS if small or tier == "thorough" else ("", "AbCd")
        out += [method("kf", me, tv, d, OTHER) for me in ("filter", "smooth", "loglikelihood") for tv in tvs]
        out += [method("kf", me, "", d, OTHER, False) for me in ("filter",)]
        nmd = {"n": n, "m": m}
        out += [update(OTHER, nmd, k, o) for k in ("given", "masked", "none") for o in ("", "AbQCdR")]
        if small:
            out += [update(OTHER, nmd, "masked", o) for o in "AbQCdR"]
            out += [em(OTHER, d, None, 1), em(OTHER, d, "all", 1)]
    out += [em(OTHER, {"n": 1, "m": 1, "T": SYM}, f, 2) for f in (None, "all")]
    return out
