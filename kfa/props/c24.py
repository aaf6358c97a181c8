from ..rules import *
from .c01 import DIMS

RULE = "the moments filter returns for step T-2 of a sequence of symbolic length T have the value graph of the last moments for the sequence, masks and per-step parameters cut to T-1 steps (so, by induction on the cut, no step depends on anything later); replacing the values and the mask of the last observation leaves the earlier moments unchanged; the log-likelihood of T steps is that of T-1 steps plus the density of the last observation under the prediction from the filtered moments of the cut sequence"
EXPLANATION = "Two abstract executions of the same library method on data that share a prefix (symbolic T; symbolic n, m except for the Bierman and square-root unscented filters), compared by random interpretation."
SY2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}


def nm(dims):
    return "" if dims is SY2 else " " + " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))


def build(c, which, tv, cut):
    """The estimator for T steps, or for the first T-1."""
    if which in S.LINEAR:
        p = S.linear_params(c, tv, lens={l: x - cut for l, x in S.lengths(c).items()})
        return S.linear(c, which, p), p
    n, m = c.n, c.m
    p = S.unscented_params(c, tv)
    if cut and "f" in tv:
        p["transition_functions"] = S.functions(c, "f", n, c.T - 1 - cut)
    if cut and "g" in tv:
        p["observation_functions"] = S.functions(c, "g", m, c.T - cut)
    return S.unscented(c, which, p), p


def observed(c, cut):
    Z = c.obs()
    return c.raw("Z", c.T - 1, c.m, mask=("seq", "Z")) if cut else Z


def prefix(which, tv, dims=SY2):
    def run(cut):
        def f(c):
            e, p = build(c, which, tv, cut)
            r = c.method(e, "filter", observed(c, cut))
            return {"mean": c.it.getitem(r[0], c.T - 2), "cov": c.it.getitem(r[1], c.T - 2)}
        return f
    # a single function in a list is one function for all steps, so start at lengths where both lists are per-step
    return Compare(f"prefix: {which} filter tv={tv or '-'}{nm(dims)}", dims, run(0), run(1))


def whole(which, tv, dims=SY2):
    """Every step before the last, not just the one before it."""
    def run(cut):
        def f(c):
            e, p = build(c, which, tv, cut)
            r = c.method(e, "filter", observed(c, cut))
            if cut:
                return S.moments(r)
            sl = slice(None, c.T - 1, None)
            return {"means": c.it.getitem(r[0], sl), "covariances": c.it.getitem(r[1], sl)}
        return f
    return Compare(f"all earlier steps: {which} filter tv={tv or '-'}{nm(dims)}", dims, run(0), run(1))


def change(env, idx, rows, cols):
    T = env.masks["Z"].shape[0]
    if idx[0] != T - 1:
        return env.param("Z", idx, rows, cols)
    return evalr.rng_of(env.seed, "later", rows, cols).normal(size=(rows, cols)) * 9


def perturbed(which, tv, dims=SY2):
    """Another value of the last observation leaves the moments before it alone."""
    def run(name):
        def f(c):
            c.timed = tuple(c.timed) + ("Y",)
            e, p = S.estimator(c, which, tv)
            c.obs()
            Z = c.raw(name, c.T, c.m, mask=("seq", "Z"))
            r = c.method(e, "filter", Z)
            sl = slice(None, c.T - 1, None)
            return {"means": c.it.getitem(r[0], sl), "covariances": c.it.getitem(r[1], sl)}
        return f
    return Compare(f"later value irrelevant: {which} filter tv={tv or '-'}{nm(dims)}", dims, run("Z"), run("Y"), params={"Y": change})


def likelihood(which, tv, dims=SY2):
    def code(c):
        e, p = build(c, which, tv, 0)
        return {"loglikelihood": c.method(e, "loglikelihood", observed(c, 0))}

    def spec(c):
        e, p = build(c, which, tv, 1)
        Z = observed(c, 1)
        before = c.method(e, "loglikelihood", Z)
        r = c.method(e, "filter", Z)
        q = S.as_tuple(S.linear_params(c, tv))
        return {"loglikelihood": c.spec("kf.extend", q, before, c.it.getitem(r[0], c.T - 2), c.it.getitem(r[1], c.T - 2), c.it.getitem(observed(c, 0), c.T - 1), c.T)}
    return Compare(f"log-likelihood: {which} tv={tv or '-'}{nm(dims)}", dims, code, spec)


def obligations(tier):
    out = []
    deep = tier == "thorough"
    every = ["".join(x) for k in range(7) for x in itertools.combinations("AbQCdR", k)]
    for tv in every if deep else ("", "A", "b", "Q", "C", "d", "R", "AbQ", "CdR", "AbQCdR"):
        out += [prefix("kf", tv)]
    for tv in ("", "A", "b", "C", "d", "AbCd"):
        out += [prefix("chol", tv)]
    for w in ("kf", "chol", "ukf", "aukf"):
        out += [whole(w, ""), perturbed(w, "")]
    out += [whole("kf", "AbQCdR"), perturbed("kf", "AbQCdR"), perturbed("chol", "AbCd"), whole("chol", "AbCd")]
    SY3 = {**SY2, "T": ("sym", 3)}
    for w in ("ukf", "aukf"):
        out += [prefix(w, ""), prefix(w, "g")] + [prefix(w, tv, SY3) for tv in ("f", "fg")] + [perturbed(w, "fg"), whole(w, "fg", SY3)]
    for n, m in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2)) if deep else ((1, 1), (2, 2), (1, 2)):
        d = {"n": n, "m": m, "T": ("sym", 2)}
        out += [prefix("bier", tv, d) for tv in ("", "AbCd")] + [perturbed("bier", "", d), likelihood("bier", "", d)]
        out += [prefix("sqrt", "", d), prefix("sqrt", "fg", {**d, "T": ("sym", 3)}), perturbed("sqrt", "", d)]
    out += [likelihood("kf", tv) for tv in ("", "A", "b", "Q", "C", "d", "R", "AbQCdR")] + [likelihood("chol", tv) for tv in ("", "AbCd")]
    return out
