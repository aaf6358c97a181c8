from ..rules import *
from ..values import *
from . import c07

RULE = "on every abstract path of every public method, no array, mask, list or attribute reachable from the caller or from the estimator is written (em: only the parameter attributes are rebound), results of earlier calls included; and the value graph of a result is the same whatever was called on the estimator before"
EXPLANATION = "Effect and ownership analysis: arrays handed in, everything reachable from the constructed estimator and all earlier results are owned; each store, in-place operator, list mutation, mask assignment and attribute binding met on a path is an effect attributed to the owner of the memory written. Histories are compared as value graphs."
SY2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}
SMALL = {"n": 2, "m": 1, "T": ("sym", 2)}


def call(c, e, p, which, tv, what, tag="", masked=True):
    """One public call with symbolic arguments."""
    Z = lambda: c.obs("Z" + tag, masked=masked)
    if what in ("filter", "smooth", "loglikelihood"):
        return c.method(e, what, Z())
    if what == "filter list":
        return c.method(e, "filter", S.as_list(c, c.obs("Z" + tag, masked=False)))
    if what.startswith("em"):
        return c.method(e, "em", Z(), n_iter=1, em_vars=value(what))
    if what.startswith("sample"):
        a = {"initial_state": c.arr("x0" + tag, c.n)} if what.endswith("given") else {}
        return c.method(e, "sample", c.it_len(c.T), random_state=3, **a)
    if what.startswith("update"):
        kind = what.split()[1]
        obs = () if kind == "absent" else (c.obs("z" + tag, (c.m,), masked=kind == "masked"),)
        kw = {}
        if which in S.LINEAR:
            for l in "AbQCdR":
                if l in tv or kind == "override":
                    kw[c07.UPD[l][0]] = c.arr(c07.LN[l][0] + "_new" + tag, *S.shapes(c)[l])
        else:
            if "f" in tv:
                kw["transition_function"] = OpaqueFn("f_new", None, c.n)
            if "g" in tv:
                kw["observation_function"] = OpaqueFn("g_new", None, c.m)
            if kind == "override":
                kw["transition_covariance"] = c.arr("new_covariance_Q" + tag, c.n, c.n)
                kw["observation_covariance"] = c.arr("new_covariance_R" + tag, c.m, c.m)
        return c.method(e, "filter_update", c.arr("mean0" + tag, c.n), c.arr("covariance0" + tag, c.n, c.n), *obs, **kw)
    raise AssertionError(what)


def value(what):
    from .c04 import value as v
    sel = what.split()[1] if " " in what else None
    return v(sel)


def bad_writes(it, done=frozenset()):
    out = []
    for e in it.effects:
        if e in done:
            continue
        if e[0] == "write" and e[1] and e[1].startswith("user:"):
            out.append(f"writes into {e[1][5:]} at {e[2]}")
        if e[0] == "file":
            out.append(f"writes the file {e[1]} at {e[2]}")
    return out


def changed(before, after, allowed=()):
    return [f"attribute {k} is {'removed' if k not in after else 'rebound'}" for k, v in before.items()
            if k not in allowed and (k not in after or not same(v, after[k]))]


def same(a, b):
    return a is b or (isinstance(a, (int, float, str, bool)) and type(a) is type(b) and a == b)


def pure(which, tv, calls, dims, lists=False, omit=""):
    def code(c):
        it = c.it
        c.it.problems = []
        if which in S.LINEAR:
            p = S.linear_params(c, tv, omit)
            if lists:
                p = {k: (S.as_list(c, v) if v is not None else v) for k, v in p.items()}
            e = S.linear(c, which, p)
        else:
            p = S.unscented_params(c, tv, omit)
            if lists:
                p = {k: (S.as_list(c, v) if isinstance(v, Arr) else v) for k, v in p.items()}
            e = S.unscented(c, which, p, **(dict(n_dim_state=c.it_len(c.n), n_dim_obs=c.it_len(c.m)) if omit else {}))
        S.own(it, e, "estimator")
        for i, w in enumerate(calls):
            before = dict(e.d)
            seen = frozenset(it.effects)
            r = call(c, e, p, which, tv, w, str(i), len(calls) == 1)
            it.problems += [f"{w}: {x}" for x in changed(before, e.d, S.NAMES if w.startswith("em") else ())]
            it.problems += [f"{w}: {x}" for x in bad_writes(it, seen)]
            S.own(it, r, f"result of {w}")
            S.own(it, e, "estimator")
        it.problems += [f"constructor: {x}" for x in bad_writes(it) if not any(x in q for q in it.problems)]
        return {}

    def check(paths):
        bad = []
        for p in paths:
            bad += p.it.problems
        if not bad and all(p.exc is not None for p in paths):
            raise Undecided("every path raises")
        return sorted(set(bad))
    d = "" if not isinstance(dims["n"], int) else f" n={dims['n']} m={dims['m']}"
    return Facts_(f"writes: {which} tv={tv or '-'} omit={omit or '-'}{' lists' if lists else ''}: {', '.join(calls)}{d}", dims, code, check,
                  partial=lambda it: sorted(set(getattr(it, "problems", []) + bad_writes(it))))


def refit(which, last, dims, tv=""):
    """After em the estimator behaves like a new one with the same attributes."""
    def run(fresh):
        def f(c):
            e, p = S.estimator(c, which, tv)
            call(c, e, p, which, tv, "filter", "0", False)
            call(c, e, p, which, tv, "em all", "1", False)
            if fresh:
                e = S.linear(c, which, {k: c.get(e, k) for k in S.NAMES})
            r = call(c, e, p, which, "", last, "L", False)
            if last.startswith("em"):
                return {k: c.get(e, k) for k in S.NAMES}
            return {"result": r}
        return f
    return Compare(f"history: {which} tv={tv or '-'} filter, em all then {last}", dims, run(False), run(True))


def history(which, before, last, dims, tv="", assign=""):
    """The result of `last` does not depend on the calls made before it."""
    def run(full):
        def f(c):
            e, p = S.estimator(c, which, tv)
            if full:
                for i, w in enumerate(before):
                    call(c, e, p, which, tv, w, str(i), False)
            for l in assign:
                if which in S.LINEAR:
                    nm = c07.LN[l][0]
                    with S.timed(c, nm + "_two", l in tv):
                        s = S.shapes(c)[l]
                        v = c.arr(nm + "_two", *((S.lengths(c)[l],) + s if l in tv else s))
                else:
                    nm = {"f": "transition_functions", "g": "observation_functions", "Q": "transition_covariance", "R": "observation_covariance", "m": "initial_state_mean", "P": "initial_state_covariance"}[l]
                    n, m = c.n, c.m
                    v = OpaqueFn(l + "_two", None, n if l == "f" else m) if l in "fg" else c.arr(nm + "_two", *{"Q": (n, n), "R": (m, m), "m": (n,), "P": (n, n)}[l])
                c.it.setattr(e, nm, v)
            r = call(c, e, p, which, tv, last, "L", which == "kf")
            if last.startswith("em"):
                return {k: c.get(e, k) for k in S.NAMES}
            return {"result": r}
        return f
    d = "" if not isinstance(dims["n"], int) else f" n={dims['n']} m={dims['m']}"
    return Compare(f"history: {which} tv={tv or '-'} {', '.join(before)}{' then assign ' + assign if assign else ''} then {last}{d}", dims, run(True), run(False))


def obligations(tier):
    out = []
    upd = ["update given", "update masked", "update absent", "update override"]
    ONE_ = {"n": 1, "m": 1, "T": ("sym", 2)}
    for w in ("kf", "chol"):
        tvs = ("", "AbQCdR") if w == "kf" else ("", "AbCd")
        for tv in tvs:
            for k in ("filter", "filter list", "smooth", "loglikelihood", "sample", "sample given", "em", "em all"):
                out.append(pure(w, tv, [k], SY2))
            out += [pure(w, tv, [k], SY2) for k in upd]
            out.append(pure(w, tv, ["filter", "smooth", "em all", "filter", "em"], SY2))
        out += [pure(w, "", [k], SMALL, lists=True) for k in ("filter", "smooth", "em all", "sample", "update override")]
        out += [pure(w, "", [k], SY2, omit="bdQRmP") for k in ("filter", "smooth", "loglikelihood", "em", "sample", "update given")]
    for tv in ("", "AbCd"):
        for k in ("filter", "smooth", "loglikelihood", "sample", "em", "em all") + tuple(upd):
            out += [pure("bier", tv, [k], d) for d in ((ONE_, SMALL) if not k.startswith("em") else (ONE_,))]
    out.append(pure("bier", "", ["filter", "smooth", "em all", "filter"], ONE_))
    for w in S.UNSC:
        for tv in ("", "fg"):
            for k in ("filter", "smooth", "sample", "sample given") + tuple(upd):
                out.append(pure(w, tv, [k], SY2))
        out.append(pure(w, "", ["filter", "smooth", "filter", "update given"], {"n": 2, "m": 1, "T": 2}))
        out += [pure(w, "", [k], SMALL, lists=True) for k in ("filter", "smooth", "sample")]
        out += [pure(w, "", [k], SY2, omit="QRmP") for k in ("filter", "smooth")]
    for w in ("kf", "chol"):
        out += [history(w, ["filter"], "filter", SY2), history(w, ["smooth"], "filter", SY2), history(w, ["filter"], "em all", SY2),
                history(w, ["update given"], "filter", SY2), history(w, ["sample"], "smooth", SY2), history(w, ["filter"], "loglikelihood", SY2),
                history(w, ["filter"], "update masked", SY2), history(w, ["smooth"], "sample", SY2)]
        out += [history(w, ["filter"], "filter", SY2, assign=l) for l in "AbQCdRmP"]
        out += [history(w, ["smooth"], "smooth", SY2, assign=x) for x in ("AbC", "QR", "mP")]
        out += [history(w, ["filter"], k, SY2, assign="ACQd") for k in ("update given", "sample", "loglikelihood", "em all")]
        out += [history(w, ["filter"], "filter", SY2, tv="AbCd", assign=l) for l in "AbCd"]
        out += [refit(w, k, ONE_) for k in ("filter", "smooth", "loglikelihood", "em all", "update given")]
        out += [refit(w, "filter", ONE_, tv="AbCd")]
    out += [history("bier", ["filter"], "smooth", ONE_), history("bier", ["update given"], "filter", ONE_)]
    out += [history("bier", ["filter"], "filter", ONE_, assign=l) for l in "AQCR"]
    out += [refit("bier", k, {"n": 1, "m": 1, "T": 2}) for k in ("filter", "loglikelihood")]
    U = {"n": 1, "m": 1, "T": 2} if tier == "quick" else {"n": 2, "m": 1, "T": 2}
    for w in S.UNSC:
        out += [history(w, ["filter"], "filter", U), history(w, ["filter"], "smooth", U), history(w, ["update given"], "filter", U), history(w, ["smooth"], "update given", U), history(w, ["filter"], "sample", U)]
        out += [history(w, ["filter"], "filter", U, assign=l) for l in "fgQRmP"]
        out += [history(w, ["smooth"], "smooth", U, assign="fQ"), history(w, ["smooth"], "sample", U, assign="gR"), history(w, ["filter"], "update given", U, assign="fgQ")]
    return sorted(out, key=lambda o: not ("sqrt" in o.name and "smooth" in o.name))
