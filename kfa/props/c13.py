from ..rules import *
from .c08 import method, update

RULE = "every public method of the square-root AdditiveUnscentedKalmanFilter and of the plain one have equal value graphs for the same model and observations"
EXPLANATION = "Abstract interpretation of both classes (symbolic T; n, m concrete because QR factors and rank-one updates work entry by entry; factors eliminated through their Gram identities at random instantiations) compared by random interpretation."
OTHER = "sqrt"


def m2(meth, tv, dims, masked=True):
    def run(w):
        def f(c):
            e, p = S.estimator(c, w, tv)
            return S.moments(c.method(e, meth, c.obs(masked=masked)))
        return f
    return Compare(f"{meth} per-step functions={tv or '-'}{'' if masked else ' plain'} n={dims['n']} m={dims['m']}", dims, run("sqrt"), run("aukf"))


def upd(dims, kind, over):
    def run(w):
        def f(c):
            e, p = S.estimator(c, w, "")
            kw = {}
            if kind != "none":
                kw["observation"] = c.obs("Z", (c.m,), masked=kind == "masked")
            if "f" in over:
                kw["transition_function"] = OpaqueFn("f_new", None, c.n)
            if "g" in over:
                kw["observation_function"] = OpaqueFn("g_new", None, c.m)
            if "Q" in over:
                kw["transition_covariance"] = c.arr("new_covariance_Q", c.n, c.n)
            if "R" in over:
                kw["observation_covariance"] = c.arr("new_covariance_R", c.m, c.m)
            r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), **kw)
            return {"mean": r[0], "cov": r[1]}
        return f
    return Compare(f"filter_update {kind} override {over or '-'} n={dims['n']} m={dims['m']}", dims, run("sqrt"), run("aukf"))


def obligations(tier):
    full = [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)] + [(4, 1), (1, 4), (4, 2)]
    nms = full if tier == "thorough" else [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3)]
    out = []
    for n, m in nms:
        d = {"n": n, "m": m, "T": SYM}
        out += [m2(me, tv, d) for me in ("filter", "smooth") for tv in (("", "fg") if n * m < 6 or tier == "thorough" else ("",))]
        out += [m2("filter", "", d, False)]
        out += [upd({"n": n, "m": m}, k, o) for k in ("given", "masked", "none") for o in ("", "fgQR")]
        out += [upd({"n": n, "m": m}, "masked", o) for o in "fgQR"]
    out += [upd({"n": n, "m": m}, "given", "") for n, m in ((3, 3), (4, 2), (2, 4))]
    return out
