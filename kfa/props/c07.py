from ..rules import *

RULE = "for every length T, filter_update applied to the batch moments of step T-2 and the observation of step T-1 has the value graph of the batch moments of step T-1; overridden parameters replace the model's for that step"
EXPLANATION = "Both sides are abstract executions of the library (symbolic T; symbolic n, m where noted); since filtered moments do not depend on later steps (C24) the last step of a symbolic length stands for every step."
UPD = {"A": ("transition_matrix", -1), "b": ("transition_offset", -1), "Q": ("transition_covariance", -1),
       "C": ("observation_matrix", 0), "d": ("observation_offset", 0), "R": ("observation_covariance", 0)}
LN = {l: (name, u) for l, name, u in S.PARAMS}


def last(c, x):
    return c.it.getitem(x, c.T - 1)


def linear_case(which, tv, dims, masked=True, over=""):
    """over: constant parameters overridden for the last step."""
    def code(c):
        e, p = S.estimator(c, which, tv)
        obs = c.obs(masked=masked)
        r = c.method(e, "filter", obs)
        kw = {}
        for l in tv:
            nm, up = LN[l]
            kw[up] = c.it.getitem(p[nm], c.T - 2 if l in "AbQ" else c.T - 1)
        for l in over:
            nm, up = LN[l]
            kw[up] = c.arr(nm + "_new", *S.shapes(c)[l])
        u = c.method(e, "filter_update", c.it.getitem(r[0], c.T - 2), c.it.getitem(r[1], c.T - 2), last(c, obs), **kw)
        return {"mean": u[0], "cov": u[1]}

    def spec(c):
        if not over:
            e, p = S.estimator(c, which, tv)
            r = c.method(e, "filter", c.obs(masked=masked))
            return {"mean": last(c, r[0]), "cov": last(c, r[1])}
        e, p = S.estimator(c, which, tv)
        obs = c.obs(masked=masked)
        r = c.method(e, "filter", obs)
        q = dict(p)
        for l in tv:
            nm, up = LN[l]
            q[nm] = c.it.getitem(p[nm], c.T - 2 if l in "AbQ" else c.T - 1)
        for l in over:
            nm, up = LN[l]
            q[nm] = c.raw(nm + "_new", *S.shapes(c)[l])
        mean, cov = c.spec("kf.predict", q[LN["A"][0]], q[LN["b"][0]], q[LN["Q"][0]], c.it.getitem(r[0], c.T - 2), c.it.getitem(r[1], c.T - 2))
        mean, cov = c.spec("kf.update", q[LN["C"][0]], q[LN["d"][0]], q[LN["R"][0]], mean, cov, last(c, obs))
        return {"mean": mean, "cov": cov}
    return Compare(f"filter_update {which} tv={tv or '-'}{' override ' + over if over else ''}{'' if masked else ' plain'} n={D_(dims['n'])} m={D_(dims['m'])}", dims, code, spec)


def D_(x):
    return "*" if not isinstance(x, int) else x


def unscented_case(which, tv, dims, over="", masked=True):
    def code(c):
        e, p = S.estimator(c, which, tv)
        obs = c.obs(masked=masked)
        r = c.method(e, "filter", obs)
        kw = {}
        if "f" in tv:
            kw["transition_function"] = c.it.getitem(p["transition_functions"], c.T - 2)
        if "g" in tv:
            kw["observation_function"] = c.it.getitem(p["observation_functions"], c.T - 1)
        u = c.method(e, "filter_update", c.it.getitem(r[0], c.T - 2), c.it.getitem(r[1], c.T - 2), last(c, obs), **kw)
        return {"mean": u[0], "cov": u[1]}

    def spec(c):
        e, p = S.estimator(c, which, tv)
        r = c.method(e, "filter", c.obs(masked=masked))
        return {"mean": last(c, r[0]), "cov": last(c, r[1])}
    return Compare(f"filter_update {which} tv={tv or '-'}{'' if masked else ' plain'} n={D_(dims['n'])} m={D_(dims['m'])}", dims, code, spec)


def single(which, over, dims):
    """One update of arbitrary moments with overridden parameters against the documented step."""
    def args(c):
        return (c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), c.obs("Z", (c.m,)))

    def code(c):
        e, p = S.estimator(c, which)
        mu, cv, z = args(c)
        kw = {}
        for l in over:
            if l in "fg":
                kw[{"f": "transition_function", "g": "observation_function"}[l]] = OpaqueFn(l + "_new", None, c.n if l == "f" else c.m)
            else:
                kw[{"Q": "transition_covariance", "R": "observation_covariance"}[l]] = c.arr({"Q": "new_covariance_Q", "R": "new_covariance_R"}[l], *S.shapes(c)[l])
        u = c.method(e, "filter_update", mu, cv, z, **kw)
        return {"mean": u[0], "cov": u[1]}

    def spec(c):
        p = S.unscented_params(c)
        mu, cv, z = args(c)
        f = OpaqueFn("f_new", None, c.n) if "f" in over else p["transition_functions"]
        g = OpaqueFn("g_new", None, c.m) if "g" in over else p["observation_functions"]
        Q = c.raw("new_covariance_Q", c.n, c.n) if "Q" in over else p["transition_covariance"]
        R = c.raw("new_covariance_R", c.m, c.m) if "R" in over else p["observation_covariance"]
        r = c.spec("ukf." + ("general_update" if which == "ukf" else "additive_update"), f, g, Q, R, mu, cv, z)
        return {"mean": r[0], "cov": r[1]}
    return Compare(f"one update {which} override {over or '-'} n={D_(dims['n'])} m={D_(dims['m'])}", dims, code, spec)


SY2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}


def obligations(tier):
    tvs = ["".join(x) for k in range(7) for x in itertools.combinations("AbQCdR", k)] if tier == "thorough" else ["", "A", "b", "Q", "C", "d", "R", "AbQCdR", "AC", "QR"]
    out = [linear_case("kf", tv, SY2) for tv in tvs]
    out += [linear_case("kf", "", SY2, False), linear_case("kf", "", SY2, over="AbQCdR"), linear_case("kf", "C", SY2, over="Ab"), linear_case("kf", "", SY2, over="CdR"), linear_case("kf", "AQ", SY2, over="R")]
    ctv = ["", "A", "b", "C", "d", "AbCd"]
    out += [linear_case("chol", tv, SY2) for tv in ctv] + [linear_case("chol", "", SY2, over="AbQCdR"), linear_case("chol", "", SY2, False)]
    nms = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] if tier == "thorough" else [(1, 1), (2, 2), (1, 2)]
    for n, m in nms:
        d = {"n": n, "m": m, "T": ("sym", 2)}
        out += [linear_case("bier", tv, d) for tv in ("", "AbCd")] + [linear_case("bier", "", d, over="AbQCdR"), linear_case("bier", "", d, False)]
        out += [unscented_case("sqrt", tv, d) for tv in ("", "fg")]
        out += [single("sqrt", o, {"n": n, "m": m}) for o in ("", "fgQR")]
    for w in ("ukf", "aukf"):
        out += [unscented_case(w, tv, SY2) for tv in ("", "f", "g", "fg")] + [unscented_case(w, "fg", SY2, masked=False)]
        out += [single(w, o, {"n": SYM, "m": SYM}) for o in ("", "f", "g", "Q", "R", "fgQR")]
    return out
