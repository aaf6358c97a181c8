from ..rules import *
from .c01 import DIMS
from . import c01, c08, c09, c11, c12, c13

RULE = "(a) replacing the values of every step with a masked component by other values does not change the value graph of any result, (b) the moments of a masked step are the predicted ones, (c) appending a masked step changes neither the log-likelihood nor the observation statistics of EM, (d) an absent observation and a masked one give equal value graphs, (e) with arbitrary masks the batch results are those of the specification"
EXPLANATION = "Abstract interpretation of all six classes with symbolic mask patterns (the whole-step test on the mask is a path condition); pairs of runs that differ only in masked values, in the last step or in how absence is expressed are compared by random interpretation."


def hidden(env, idx, rows, cols):
    """Z with every step that has a masked component replaced."""
    t = idx[0]
    v = env.param("Z", idx, rows, cols)
    if not np.any(env.masks["Z"][t]):
        return v
    return evalr.rng_of(env.seed, "hidden", idx, rows, cols).normal(size=(rows, cols)) * 50


def hidden1(env, idx, rows, cols):
    v = env.param("z", idx, rows, cols)
    if not np.any(env.masks["z"]):
        return v
    return evalr.rng_of(env.seed, "hidden", rows, cols).normal(size=(rows, cols)) * 50


def nm(dims):
    return "" if dims is DIMS else " " + " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))


def results(c, e, meth, Z, **kw):
    if meth == "em":
        c.method(e, "em", Z, n_iter=1, em_vars="all", **kw)
        return {k: c.get(e, k) for k in S.NAMES}
    r = c.method(e, meth, Z)
    return S.moments(r) if meth in ("filter", "smooth") else {"loglikelihood": r}


def irrelevant(which, meth, tv, dims=DIMS):
    def code(c):
        e, p = S.estimator(c, which, tv)
        return results(c, e, meth, c.obs())

    def spec(c):
        c.timed = tuple(c.timed) + ("Y",)
        c.obs()
        e, p = S.estimator(c, which, tv)
        return results(c, e, meth, c.raw("Y", c.T, c.m, mask=("seq", "Z")))
    return Compare(f"masked values irrelevant: {which} {meth} tv={tv or '-'}{nm(dims)}", dims, code, spec, params={"Y": hidden})


def irrelevant_update(which, dims):
    def run(name):
        def f(c):
            e, p = S.estimator(c, which)
            c.obs("z", (c.m,))
            r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), c.raw(name, c.m, mask=("seq", "z")))
            return {"mean": r[0], "cov": r[1]}
        return f
    return Compare(f"masked values irrelevant: {which} filter_update{nm(dims)}", dims, run("z"), run("y"), params={"y": hidden1})


def absent(which, dims):
    """An absent observation, a masked one: the predicted moments."""
    def run(masked):
        def f(c):
            e, p = S.estimator(c, which)
            z = c.obs("z", (c.m,), masked="all")
            r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), *((z,) if masked else ()))
            return {"mean": r[0], "cov": r[1]}
        return f
    return Compare(f"absent observation = masked observation: {which}{nm(dims)}", dims, run(False), run(True))


def predicted_update(which, dims, absent):
    def code(c):
        e, p = S.estimator(c, which)
        a = () if absent else (c.obs("z", (c.m,), masked="all"),)
        r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), *a)
        return {"mean": r[0], "cov": r[1]}

    def spec(c):
        mean, cov = c.raw("mean0", c.n), c.raw("covariance0", c.n, c.n)
        return dict(zip(("mean", "cov"), predict(c, which, "", mean, cov, None)))
    return Compare(f"{'absent' if absent else 'masked'} observation gives the predicted moments: {which}{nm(dims)}", dims, code, spec)


def predict(c, which, tv, mean, cov, t):
    if which in S.LINEAR:
        p = S.linear_params(c, tv, lens=S.lengths(c) if t is not None else {})
        at = lambda l, x: c.it.getitem(x, t) if l in tv else x
        return c.spec("kf.predict", at("A", p["transition_matrices"]), at("b", p["transition_offsets"]), at("Q", p["transition_covariance"]), mean, cov)
    p = S.unscented_params(c, tv)
    f = c.it.getitem(p["transition_functions"], t) if "f" in tv else p["transition_functions"]
    if which == "ukf":
        return c.spec("ukf.general_predict", f, p["transition_covariance"], p["observation_covariance"], mean, cov)
    return c.spec("ukf.additive_predict", f, mean, cov, p["transition_covariance"])


def predicted_batch(which, tv, dims):
    """The last step masked: its moments are the prediction from the step before."""
    def code(c):
        e, p = S.estimator(c, which, tv)
        r = c.method(e, "filter", c.obs(masked="last"))
        return {"mean": c.it.getitem(r[0], c.T - 1), "cov": c.it.getitem(r[1], c.T - 1)}

    def spec(c):
        e, p = S.estimator(c, which, tv)
        r = c.method(e, "filter", c.obs(masked="last"))
        return dict(zip(("mean", "cov"), predict(c, which, tv, c.it.getitem(r[0], c.T - 2), c.it.getitem(r[1], c.T - 2), c.T - 2)))
    return Compare(f"masked step keeps the predicted moments: {which} tv={tv or '-'}{nm(dims)}", dims, code, spec)


def masked_first(which, dims):
    def code(c):
        e, p = S.estimator(c, which)
        r = c.method(e, "filter", c.obs(shape=(poly(1), c.m), masked="last"))
        return {"mean": c.it.getitem(r[0], 0), "cov": c.it.getitem(r[1], 0)}

    def spec(c):
        c.obs(shape=(poly(1), c.m), masked="last")
        return {"mean": c.raw("initial_state_mean", c.n), "cov": c.raw("initial_state_covariance", c.n, c.n)}
    return Compare(f"masked first step keeps the initial distribution: {which}{nm(dims)}", dims, code, spec)


def appended(which, what, dims):
    """A masked last step changes neither the log-likelihood nor C, d and R of EM."""
    def run(full):
        def f(c):
            e, p = S.estimator(c, which)
            Z = c.obs(masked="last")
            if not full:
                Z = c.raw("Z", c.T - 1, c.m, mask=("seq", "Z"))
            if what == "loglikelihood":
                return {"loglikelihood": c.method(e, "loglikelihood", Z)}
            c.method(e, "em", Z, n_iter=1, em_vars=ListV(tuple(what)))
            return {k: c.get(e, k) for k in what}
        return f
    lab = what if isinstance(what, str) else "em " + "+".join(what)
    return Compare(f"appended masked step does not count: {which} {lab}{nm(dims)}", dims, run(True), run(False))


OBS_EM = ("observation_matrices", "observation_offsets", "observation_covariance")
SY2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}


def obligations(tier):
    out = []
    deep = tier == "thorough"
    for w in ("kf", "chol"):
        for me in ("filter", "smooth", "loglikelihood", "em"):
            out += [irrelevant(w, me, tv) for tv in ("", "AbCd", *(("AbQCdR",) if w == "kf" else ()))]
    for w in ("ukf", "aukf"):
        out += [irrelevant(w, me, tv) for me in ("filter", "smooth") for tv in ("", "fg")]
    small = [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2)] if deep else [(1, 1), (2, 2), (1, 2)]
    for n, m in small:
        d = {"n": n, "m": m, "T": SYM}
        for w in ("bier", "sqrt"):
            out += [irrelevant(w, me, "", d) for me in ("filter", "smooth") + (("loglikelihood", "em") if w == "bier" and n * m <= 2 else ())]
            out += [irrelevant_update(w, {"n": n, "m": m}), absent(w, {"n": n, "m": m})]
            out += [predicted_update(w, {"n": n, "m": m}, x) for x in (False, True)]
            out += [predicted_batch(w, tv, {**d, "T": ("sym", 2)}) for tv in (("", "AbCd") if w == "bier" else ("", "fg"))]
            out += [masked_first(w, {"n": n, "m": m})]
        out += [appended("bier", "loglikelihood", {**d, "T": ("sym", 2)})]
    nmd = {"n": SYM, "m": SYM}
    for w in ("kf", "chol", "ukf", "aukf"):
        out += [irrelevant_update(w, nmd), absent(w, nmd), masked_first(w, nmd)]
        out += [predicted_update(w, nmd, x) for x in (False, True)]
        tvs = {"kf": ("", "A", "b", "Q", "AbQ", "CdR"), "chol": ("", "A", "b", "Ab", "Cd")}.get(w, ("", "f", "g", "fg"))
        out += [predicted_batch(w, tv, SY2) for tv in tvs]
    for w in ("kf", "chol"):
        out += [appended(w, "loglikelihood", SY2)]
        out += [appended(w, OBS_EM[:k + 1] if k < 3 else OBS_EM[1:], SY2) for k in range(3)] + [appended(w, (x,), SY2) for x in OBS_EM[1:]]
    out += [appended("bier", (x,), {"n": 1, "m": 1, "T": ("sym", 2)}) for x in OBS_EM]
    # arbitrary masks against the specification
    out += [c01.case(tv) for tv in ("", "AbQCdR")]
    out += [c11.case("ukf", "general", "filter", ""), c12.case("aukf", "additive", "filter", "")]
    out += [c08.method("kf", me, "", DIMS, "chol") for me in ("filter", "smooth")]
    d = {"n": 2, "m": 2, "T": SYM}
    out += [c09.method("kf", me, "", d, "bier") for me in ("filter", "smooth")] + [c13.m2(me, "", d) for me in ("filter", "smooth")]
    return out
