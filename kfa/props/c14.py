from ..rules import *
from .c01 import DIMS

RULE = "sample and the documented generative model have equal value graphs, with one fresh multivariate normal draw per transition and per observation whose covariance is that step's own"
EXPLANATION = "Abstract interpretation of sample of all six classes (symbolic n, m and number of steps; draws as noise terms labelled by the loop iterations around them and by their covariance) compared with the specification by random interpretation."
COMBOS = ["".join(x) for k in range(7) for x in itertools.combinations("AbQCdR", k)]


def rng(c, kind):
    if kind == "object":
        r = c.call(c.cls("numpy.random.RandomState"), 7)
        return r, r
    return 7, c.call(c.cls("numpy.random.RandomState"), 7)


def linear(which, tv, init, kind="object", where="call", omit="", dims=DIMS):
    def code(c):
        r, _ = rng(c, kind)
        kw = {"random_state": r} if where == "constructor" else {}
        e, p = S.estimator(c, which, tv, omit, **kw)
        a = {"random_state": r} if where == "call" else {}
        if init:
            a["initial_state"] = c.arr("x0", c.n)
        x = c.method(e, "sample", c.it_len(c.T), **a)
        return {"states": x[0], "observations": x[1]}

    def spec(c):
        p = S.with_defaults(c, S.linear_params(c, tv, omit))
        _, r = rng(c, kind)
        x = c.spec("kf.sample", S.as_tuple(p), c.T, c.arr("x0", c.n) if init else None, r)
        return {"states": x[0], "observations": x[1]}
    return Compare(f"sample {which} tv={tv or '-'} initial={'given' if init else 'drawn'} random_state={kind} of the {where} omit={omit or '-'}", dims, code, spec)


def unscented(which, tv, init, kind="object", where="call", dims=DIMS):
    def code(c):
        r, _ = rng(c, kind)
        kw = {"random_state": r} if where == "constructor" else {}
        e, p = S.estimator(c, which, tv, **kw)
        a = {"random_state": r} if where == "call" else {}
        if init:
            a["initial_state"] = c.arr("x0", c.n)
        x = c.method(e, "sample", c.it_len(c.T), **a)
        return {"states": x[0], "observations": x[1]}

    def spec(c):
        p = S.unscented_params(c, tv)
        _, r = rng(c, kind)
        x = c.spec("ukf." + ("general" if which == "ukf" else "additive") + "_sample", p["transition_functions"], p["observation_functions"], "f" in tv, "g" in tv, p["transition_covariance"],
                   p["observation_covariance"], p["initial_state_mean"], p["initial_state_covariance"], c.T, c.arr("x0", c.n) if init else None, r)
        return {"states": x[0], "observations": x[1]}
    return Compare(f"sample {which} per-step functions={tv or '-'} initial={'given' if init else 'drawn'} random_state={kind} of the {where}", dims, code, spec)


def obligations(tier):
    out = [linear("kf", tv, init) for tv in COMBOS for init in (False, True)]
    out += [linear("kf", "", i, k, w) for i in (False, True) for k, w in (("seed", "call"), ("seed", "constructor"), ("object", "constructor"))]
    out += [linear("kf", "", False, omit=o) for o in ("b", "d", "Q", "R", "m", "P", "bdQRmP")]
    out += [linear(w, tv, init) for w in ("chol", "bier") for tv in ("", "AbQCdR") for init in (False, True)]
    for w in ("ukf", "aukf", "sqrt"):
        out += [unscented(w, tv, init) for tv in ("", "f", "g", "fg") for init in (False, True)]
        out += [unscented(w, "", False, k, x) for k, x in (("seed", "call"), ("seed", "constructor"), ("object", "constructor"))]
    return out
