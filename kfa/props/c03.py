from ..rules import *
from .c01 import DIMS

RULE = "after em the parameters of the estimator equal those of the documented closed-form updates, for each selection of estimated parameters, each combination of per-step parameters listed and n_iter in 0..2"
EXPLANATION = "Abstract interpretation of em (symbolic n, m, T; E-step and M-step loops summarised as recurrences, zero-count tests as conditional terms) compared with the specification by random interpretation."
ALL = S.NAMES
LET = {l: name for l, name, _ in S.PARAMS}


def case(which, free, iters, tv="", dims=DIMS, masked=True):
    names = ALL if free == "all" else ["transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"] if free is None else [LET[l] for l in free]

    def code(c):
        e, p = S.estimator(c, which, tv)
        kw = {} if iters is None else {"n_iter": iters}
        if free is not None:
            kw["em_vars"] = "all" if free == "all" else ListV(tuple(names))
        c.method(e, "em", c.obs(masked=masked), **kw)
        return {k: c.get(e, k) for k in ALL}

    def spec(c):
        p = S.linear_params(c, tv)
        r = c.spec("kf.em", S.as_tuple(p), c.obs(masked=masked), ListV(tuple(names)), iters)
        order = ["transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets", "transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]
        return dict(zip(order, r))
    d = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Compare(f"em {which} vars={free or 'default'} n_iter={iters} tv={tv or '-'}{'' if masked else ' plain'}{d}", dims, code, spec)


def obligations(tier):
    out = [case("kf", f, i) for f in (None, "all") for i in (0, 1, 2)]
    out += [case("kf", l, 1) for l in "AbQCdRmP"] + [case("kf", None, 1, masked=False), case("kf", "all", 1, masked=False)]
    out += [case("kf", l, 2) for l in ("AQ", "CR", "mP", "bd", "Ab", "Cd")]
    out += [case("kf", None, 1, tv) for tv in ("A", "b", "C", "d", "Q", "R", "AbCd", "AbQCdR")]
    out += [case("kf", "all", 1, tv) for tv in ("A", "b", "C", "d", "Q", "R", "AbQCdR")]
    out += [case("kf", l, 1, "AbCd") for l in "AbQCdRmP"] + [case("kf", "all", 2, "AbCd"), case("kf", "QR", 2, "AbQCdR")]
    if tier == "thorough":
        out += [case("kf", "".join(x), 1) for k in range(2, 8) for x in itertools.combinations("AbQCdRmP", k)]
        out += [case("kf", "all", 3), case("kf", None, 3)]
    return out
