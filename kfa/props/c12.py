from ..rules import *
from .c11 import case, last, DIMS

RULE = "AdditiveUnscentedKalmanFilter.filter and smooth and the documented additive recursions have equal value graphs, for single and per-step functions"
EXPLANATION = "Abstract interpretation of the public methods (symbolic n, m, T; user functions uninterpreted, one per step where per-step functions are given; sigma points as symbolic families) compared with the specification by random interpretation."
WHICH, KIND = "aukf", "additive"




def obligations(tier):
    out = [case(WHICH, KIND, me, tv) for me in ("filter", "smooth") for tv in ("", "f", "g", "fg")]
    out += [case(WHICH, KIND, me, tv, masked=False) for me in ("filter", "smooth") for tv in ("", "fg")]
    out += [last(WHICH, tv) for tv in ("", "fg")]
    return out
