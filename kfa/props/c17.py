from ..rules import *
from ..values import *
from .. import scen
from . import c07

RULE = "for every subset of given parameters the estimator equals (as value graph of its samples and filter output, and in its dimension attributes) the one with the documented defaults given explicitly; on every path of a constructor where two dimensions implied by the arguments differ ValueError is raised, and none is raised where they agree"
EXPLANATION = "Abstract interpretation of construction, sample and filter of all six classes with every subset of parameters (constant, and per-step for inference) and symbolic dimensions; for inconsistent shapes two dimension symbols are used and every path on which they differ is checked."
LET = "AbQCdRmP"
STATE = "AbQmPC"
OBS = "CdR"
CTOR = {l: name for l, name, _ in S.PARAMS}
UN = {"Q": "transition_covariance", "R": "observation_covariance", "m": "initial_state_mean", "P": "initial_state_covariance"}


def identity(c, which):
    return c.cls("spec.misc." + ("state_plus_noise" if which == "ukf" else "same_state"))


def use(c, e, how):
    if how == "sample":
        r = c.method(e, "sample", c.it_len(c.T), random_state=3)
        out = {"states": r[0], "observations": r[1]}
    elif how == "filter":
        r = c.method(e, "filter", c.obs(masked=False))
        out = S.moments(r)
    elif how == "loglikelihood":
        out = {"loglikelihood": c.method(e, how, c.obs(masked=False))}
    elif how == "smooth":
        out = S.moments(c.method(e, how, c.obs(masked=False)))
    else:
        x = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), c.obs("z", (c.m,), masked=False))
        out = S.moments(x)
    out["n_dim_state"] = c.get(e, "n_dim_state")
    out["n_dim_obs"] = c.get(e, "n_dim_obs")
    return out


def linear_subset(which, given, how, dims, explicit="", tv=""):
    """explicit: 'n', 'm' given as n_dim arguments."""
    omit = "".join(l for l in LET if l not in given)

    def extra(c):
        kw = {}
        if "n" in explicit:
            kw["n_dim_state"] = c.it_len(c.n)
        if "m" in explicit:
            kw["n_dim_obs"] = c.it_len(c.m)
        return kw

    def code(c):
        return use(c, S.linear(c, which, S.linear_params(c, tv, omit), **extra(c)), how)

    def spec(c):
        return use(c, S.linear(c, which, S.with_defaults(c, S.linear_params(c, tv, omit))), how)
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Compare(f"defaults: {which} {how} given={given or '-'} dimension arguments={explicit or '-'} tv={tv or '-'} {d}".strip(), dims, code, spec)


def unscented_subset(which, given, how, dims, explicit=""):
    omit = "".join(l for l in "fgQRmP" if l not in given)

    def code(c):
        kw = {}
        if "n" in explicit:
            kw["n_dim_state"] = c.it_len(c.n)
        if "m" in explicit:
            kw["n_dim_obs"] = c.it_len(c.m)
        return use(c, S.unscented(c, which, S.unscented_params(c, "", omit), **kw), how)

    def spec(c):
        p = S.unscented_params(c, "", omit)
        n, m = c.n, c.m
        if "f" in omit:
            p["transition_functions"] = identity(c, which)
        if "g" in omit:
            p["observation_functions"] = identity(c, which)
        for l, v in (("Q", lambda: c.spec("misc.eye", n, n)), ("R", lambda: c.spec("misc.eye", m, m)), ("m", lambda: c.spec("misc.zeros", n)), ("P", lambda: c.spec("misc.eye", n, n))):
            if l in omit:
                p[UN[l]] = v()
        return use(c, S.unscented(c, which, p), how)
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Compare(f"defaults: {which} {how} given={given or '-'} dimension arguments={explicit or '-'} {d}".strip(), dims, code, spec)


def shape_of(c, l, n, m):
    return {"A": (n, n), "b": (n,), "Q": (n, n), "C": (m, n), "d": (m,), "R": (m, m), "m": (n,), "P": (n, n)}[l]


def clash(which, given, odd, axis, tv="", explicit=""):
    """All of `given` (and the dimension arguments) agree except `odd`; axis: state or observation."""
    two = "n" if axis == "state" else "m"
    dims = {"n": SYM, "m": SYM, "k": SYM, **({"T": ("sym", 2)} if tv else {})}

    def code(c):
        kw = {}
        base = {"n": c.n, "m": c.m}
        for l in given:
            d = dict(base)
            if l == odd:
                d[two] = c.k
            s = shape_of(c, l, d["n"], d["m"])
            if l in tv:
                s = (S.lengths(c)[l],) + s
            with S.timed(c, CTOR[l], l in tv):
                kw[CTOR[l]] = c.arr(CTOR[l], *s)
        for x, nm in (("n", "n_dim_state"), ("m", "n_dim_obs")):
            if x in explicit:
                kw[nm] = c.it_len(c.k if odd == nm and x == two else base[x])
        e = c.call(c.cls(S.ALL[which]), **kw)
        return {}

    def check(paths):
        bad = []
        for p in paths:
            if p.dims[two] == p.dims["k"]:
                if p.exc is not None:
                    bad.append(f"consistent shapes are rejected with {exc_name(p.exc)}")
                continue
            where = ", ".join(f"{'' if b else 'not '}{q!r}" for q, b in p.pre)[:200]
            if p.exc is None:
                bad.append(f"accepted although {CTOR.get(odd, odd)} implies another {axis} dimension than {'+'.join(CTOR.get(l, l) for l in given if l != odd)}{' and the dimension argument' if explicit else ''} [{where}]")
            elif exc_name(p.exc) != "ValueError":
                bad.append(f"rejected with {exc_name(p.exc)} instead of ValueError [{where}]")
        return bad
    return Facts_(f"inconsistent {axis} dimension: {which} given={given or '-'} odd={odd} dimension arguments={explicit or '-'} tv={tv or '-'}", dims, code, check)


def low_rank(which, how):
    """Scalars and plain vectors stand for 1x1 and single-row matrices."""
    def code(c):
        p = {}
        for l in LET:
            s = shape_of(c, l, 1, 1)
            a = c.arr(CTOR[l], *s)
            p[CTOR[l]] = c.it.getitem(a, (0,) * len(s)) if how == "scalar" else (c.it.getitem(a, 0) if len(s) == 2 else a)
        e = S.linear(c, which, p)
        return use(c, e, "sample")

    def spec(c):
        return use(c, S.linear(c, which, S.linear_params(c)), "sample")
    return Compare(f"{how} parameters: {which}", {"n": 1, "m": 1, "T": SYM}, code, spec)


def dims_of(given, explicit, T=SYM, n=None, m=None):
    return {"n": SYM if any(l in STATE for l in given) or "n" in explicit else 1, "m": SYM if any(l in OBS for l in given) or "m" in explicit else 1, "T": T}


def subsets(letters):
    return ["".join(x) for k in range(len(letters) + 1) for x in itertools.combinations(letters, k)]


def obligations(tier):
    out = []
    deep = tier == "thorough"
    for g in subsets(LET):
        out.append(linear_subset("kf", g, "sample", dims_of(g, "")))
        if len(g) in (0, 1, 2, 7, 8) or deep:
            out.append(linear_subset("kf", g, "filter", dims_of(g, "")))
            out.append(linear_subset("kf", g, "sample", dims_of(g, "nm"), "nm"))
            out.append(linear_subset("chol", g, "sample", dims_of(g, "")))
        if len(g) in (0, 1, 7) or deep and len(g) < 3:
            for h in ("smooth", "loglikelihood", "filter_update"):
                out.append(linear_subset("kf", g, h, dims_of(g, "nm", ("sym", 2)), "nm"))
            out.append(linear_subset("chol", g, "filter", dims_of(g, "nm"), "nm"))
            out.append(linear_subset("chol", g, "filter_update", dims_of(g, "nm", ("sym", 2)), "nm"))
            out.append(linear_subset("bier", g, "sample", dims_of(g, "nm"), "nm"))
            out.append(linear_subset("bier", g, "filter", {"n": 1, "m": 1, "T": SYM}, "nm"))
    for x in ("n", "m"):
        out += [linear_subset("kf", g, "sample", dims_of(g, x), x) for g in ("", "A", "C", "R", "bd")]
    for l in "AbQCdR":                      # dimensions from a per-step parameter
        for w in ("kf", "chol"):
            out.append(linear_subset(w, l, "sample", dims_of(l, "", ("sym", 2)), tv=l))
    for h in ("scalar", "vector"):
        out += [low_rank(w, h) for w in ("kf", "chol", "bier")]
    for w in S.UNSC:
        for g in subsets("fgQRmP"):
            out.append(unscented_subset(w, g, "sample", {"n": SYM if set(g) & set("QmP") else 1, "m": SYM if "R" in g else 1, "T": SYM} if set("fg") <= set(g) or "f" not in g and "g" in g else {"n": 1, "m": 1, "T": SYM}))
        for g in ("", "QRmP", "fg", "fgQRmP", "f", "g", "Q", "R", "m", "P"):
            out.append(unscented_subset(w, g, "sample", {"n": 2, "m": 2, "T": SYM}, "nm"))
            out.append(unscented_subset(w, g, "filter", {"n": 1, "m": 1, "T": 2}, "nm"))
            out.append(unscented_subset(w, g, "filter_update", {"n": 1, "m": 1}, "nm"))
        if deep:
            out += [unscented_subset(w, g, "filter", {"n": 2, "m": 2, "T": 2}, "nm") for g in ("", "fg", "QRmP")]
    # inconsistent shapes
    for w in S.LINEAR:
        few = w != "kf" and not deep
        for axis, ls, arg in (("state", "AbQmPC", "n_dim_state"), ("observation", "CdR", "n_dim_obs")):
            x = arg[6] if axis == "state" else "m"
            x = "n" if axis == "state" else "m"
            for a, b in itertools.combinations(ls, 2):
                out.append(clash(w, a + b, b, axis))
            for l in ls:
                out.append(clash(w, LET, l, axis))
                out.append(clash(w, l, arg, axis, explicit=x))
                if not few:
                    out.append(clash(w, "".join(y for y in LET), l, axis, explicit="nm"))
                    if l not in "mP":
                        out.append(clash(w, ls, l, axis, tv=l))
                        out.append(clash(w, ls, l, axis, tv="AbQCdR"))
            out.append(clash(w, LET, arg, axis, explicit=x))
    for w in S.UNSC:
        for a, b in itertools.combinations("QmP", 2):
            out.append(clash(w, a + b, b, "state"))
        for l in "QmP":
            out += [clash(w, "QRmP", l, "state"), clash(w, l, "n_dim_state", "state", explicit="n"), clash(w, "QRmP", l, "state", explicit="nm")]
        out += [clash(w, "QRmP", "n_dim_state", "state", explicit="n"), clash(w, "R", "n_dim_obs", "observation", explicit="m"), clash(w, "QRmP", "n_dim_obs", "observation", explicit="nm")]
    return out
