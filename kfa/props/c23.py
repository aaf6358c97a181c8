from ..rules import *
from ..values import *
from . import c07

RULE = "for every parameter, moment and observation array (one at a time and all together) given with integer type, the value graph of each public method's result equals the one for the floating-point array; conversions of non-integer values to an integer type met on a path are truncations (an uninterpreted function), in-place operators that cannot cast raise TypeError"
EXPLANATION = "Element types are part of the abstract arrays: results of allocation and conversion routines carry the type numpy gives them, stores into integer arrays truncate. Both variants are interpreted abstractly and compared as value graphs."


def outcome(c, e, how, odd, tv=""):
    """odd: the letters given with integer type."""
    dt = lambda x: "i" if x in odd else None
    if how.startswith("sample"):
        a = {"initial_state": c.arr("x0", c.n, dtype=dt("x"))} if how.endswith("given") else {}
        r = c.method(e, "sample", c.it_len(c.T), random_state=3, **a)
        return {"states": r[0], "observations": r[1]}
    if how.startswith("update"):
        kw = {}
        if how.endswith("override"):
            if e.cls.name.find("Unscented") < 0:
                for l in "AbQCdR":
                    kw[c07.UPD[l][0]] = c.arr(c07.LN[l][0] + "_new", *S.shapes(c)[l], dtype=dt("o" + l) or dt("o"))
            else:
                kw["transition_covariance"] = c.arr("new_covariance_Q", c.n, c.n, dtype=dt("o"))
                kw["observation_covariance"] = c.arr("new_covariance_R", c.m, c.m, dtype=dt("o"))
        obs = () if how.startswith("update absent") else (c.obs("z", (c.m,), masked="masked" in how, dtype=dt("z")),)
        return S.moments(c.method(e, "filter_update", c.arr("mean0", c.n, dtype=dt("u")), c.arr("covariance0", c.n, c.n, dtype=dt("v")), *obs, **kw))
    z = c.obs(masked="masked" in how, dtype=dt("z"))
    h = how.split()[0]
    if h == "em":
        what = how.split()[1:]
        c.method(e, "em", z, n_iter=1, **({"em_vars": "all"} if "all" in what else {}))
        return {k: c.get(e, k) for k in S.NAMES}
    r = c.method(e, h, z)
    return {h: r} if h == "loglikelihood" else S.moments(r)


def params(c, which, odd, tv):
    if which in S.LINEAR:
        sh, ln = S.shapes(c), S.lengths(c) if "T" in c.dims else {}
        p = {}
        for l, name, _ in S.PARAMS:
            s = ((ln[l],) if l in tv else ()) + sh[l]
            with S.timed(c, name, l in tv):
                p[name] = c.arr(name, *s, dtype="i" if l in odd else None)
        return S.linear(c, which, p)
    p = S.unscented_params(c, tv)
    for l, name, s in (("Q", "transition_covariance", (c.n, c.n)), ("R", "observation_covariance", (c.m, c.m)), ("m", "initial_state_mean", (c.n,)), ("P", "initial_state_covariance", (c.n, c.n))):
        if l in odd:
            p[name] = c.arr(name, *s, dtype="i")
    return S.unscented(c, which, p)


def case(which, how, odd, dims, tv=""):
    def make(o):
        return lambda c: outcome(c, params(c, which, o, tv), how, o, tv)
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    lab = "+".join(odd)
    return Compare(f"{which} {how} integer={lab} tv={tv or '-'} {d}".strip(), {k: v for k, v in dims.items() if not how.startswith("update") or k != "T"}, make(odd), make(()))


def obligations(tier):
    out = []
    deep = tier == "thorough"
    for w in S.ALL:
        lin = w in S.LINEAR
        small = w in ("bier", "sqrt")
        d1 = {"n": 2, "m": 2, "T": SYM} if small else {"n": SYM, "m": SYM, "T": SYM}
        d2 = {"n": 2, "m": 1, "T": 3} if not small else {"n": 2, "m": 1, "T": 2}
        dims = [d1] + ([d2] if deep else [])
        ps = [l for l, _, _ in S.PARAMS] if lin else list("QRmP")
        for d in dims:
            for how in ["filter", "filter masked", "smooth masked"] + (["loglikelihood"] if lin else []):
                sets = [(l,) for l in ps + ["z"]] + [tuple(ps), tuple(ps) + ("z",)]
                if not deep and how in ("filter",):
                    sets = [("z",), tuple(ps), tuple(ps) + ("z",)]
                for o in sets:
                    out.append(case(w, how, o, d))
            for how in ["sample", "sample given"]:
                for o in ([(l,) for l in ps] if how == "sample" else []) + [tuple(ps)] + ([("x",), ("x",) + tuple(ps)] if how != "sample" else []):
                    out.append(case(w, how, o, d))
            for how in ["update", "update masked", "update absent"]:
                for o in [("u",), ("v",), ("u", "v"), ("z",), tuple(ps) + ("u", "v", "z"), tuple(ps)]:
                    if how == "update absent" and "z" in o and len(o) == 1:
                        continue
                    out.append(case(w, how, o, d))
            out.append(case(w, "update override", ("o",), d))
            out.append(case(w, "update override", tuple(ps) + ("o", "u", "v", "z"), d))
        if lin:
            tvs = "AbQCdR" if w == "kf" else "AbCd"
            t2 = {**d1, "T": ("sym", 2)}
            for how in ["filter masked", "smooth masked", "loglikelihood"]:
                out.append(case(w, how, tuple(tvs), t2, tvs))
            out.append(case(w, "sample", tuple(tvs), t2, tvs))
            if w == "kf" or deep:
                for what in ("em all", "em all masked", "em masked"):
                    for o in [(l,) for l in ps + ["z"]] + [tuple(ps) + ("z",)]:
                        if what != "em masked" or len(o) > 1:
                            out.append(case(w, what, o, {"n": 2 if w == "bier" else SYM, "m": 1 if w == "bier" else SYM, "T": ("sym", 2)}))
                out.append(case(w, "em all", tuple(ps) + ("z",), {"n": 2, "m": 2 if w == "kf" else 1, "T": 3}))
    return out
