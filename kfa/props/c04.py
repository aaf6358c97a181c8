from ..rules import *
from .c01 import DIMS
from .c03 import LET

RULE = "after em with symbolic data, each unselected parameter has the value graph of the given parameter (or its documented default) and each selected one has the value graph of the re-estimate, on every path; the winner between em_vars of the call and of the constructor is the call's"
EXPLANATION = "Abstract interpretation of em of the three linear filters; the expected attribute values come from the same data and the specification of the EM updates restricted to the expected selection."
DEFAULT = ["transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]
ORDER = ["transition_matrices", "transition_offsets", "observation_matrices", "observation_offsets", "transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"]
NN = {"n": SYM, "m": SYM, "T": SYM}


def names(sel):
    return S.NAMES if sel == "all" else DEFAULT if sel is None else [LET[l] for l in sel]


def value(sel, kind=None):
    if sel == "all" or sel is None:
        return sel
    x = [LET[l] for l in sel]
    return tuple(x) if kind == "tuple" else SetV(set(x)) if kind == "set" else ListV(tuple(x))


def case(which, ctor, call, tv="", omit="", dims=NN, iters=1, kind=None, twice=False):
    """ctor/call: selection given at construction / to the call ('-' = not given)."""
    eff = call if call not in ("-", None) else ctor if ctor != "-" else None

    def code(c):
        kw = {"em_vars": value(ctor, kind)} if ctor != "-" else {}
        e, p = S.estimator(c, which, tv, omit, **kw)
        a = {"em_vars": value(call, kind)} if call != "-" else {}
        c.method(e, "em", c.obs(), n_iter=iters, **a)
        if twice:       # the selection of the call does not stick
            c.method(e, "em", c.obs(), n_iter=iters)
        return {k: c.get(e, k) for k in S.NAMES}

    def spec(c):
        p = S.with_defaults(c, S.linear_params(c, tv, omit))
        r = c.spec("kf.em", S.as_tuple(p), c.obs(), ListV(tuple(names(eff))), iters)
        if twice:
            r = c.spec("kf.em", tuple(r), c.obs(), ListV(tuple(names(ctor if ctor != "-" else None))), iters)
        return dict(zip(ORDER, r))
    d = "" if dims is NN else f" n={dims['n']} m={dims['m']}"
    return Compare(f"em {which} constructor={ctor} call={call}{' ' + kind if kind else ''} tv={tv or '-'} omit={omit or '-'}{' twice' if twice else ''}{d}", dims, code, spec)


def obligations(tier):
    out = []
    for w in ("kf", "chol"):
        out += [case(w, "-", "-"), case(w, "all", "-"), case(w, "-", "all"), case(w, "A", "-"), case(w, "-", "A"), case(w, "A", "Q"),
                case(w, "all", "R"), case(w, "C", "all"), case(w, "P", "-", kind="tuple"), case(w, "-", "mP", kind="tuple"), case(w, "AC", None), case(w, "-", "bd", kind="set")]
        out += [case(w, "-", l) for l in "bQCdRmP"]
        out += [case(w, "-", "", iters=1), case(w, "", "-", iters=1)]
        out += [case(w, "-", "A", twice=True), case(w, "R", "all", twice=True)]
    out += [case("kf", "-", "-", omit=o) for o in ("b", "d", "Q", "R", "m", "P", "A", "bdQRmP")]
    out += [case("kf", "-", "A", omit="b"), case("kf", "-", "d", omit="bQP"), case("chol", "-", "-", omit="bdQRmP"), case("kf", "-", "A", tv="bCd"), case("chol", "-", "R", tv="AbCd")]
    for n, m in ((1, 1), (2, 2)) if tier == "quick" else ((1, 1), (2, 1), (1, 2), (2, 2)):
        d = {"n": n, "m": m, "T": SYM}
        out += [case("bier", "-", "-", dims=d), case("bier", "all", "-", dims=d), case("bier", "A", "Q", dims=d), case("bier", "-", "all", dims=d), case("bier", "AC", None, dims=d), *([case("bier", "-", "A", twice=True, dims=d)] if n * m == 1 else [])]
        out += [case("bier", "-", l, dims=d) for l in "AbQCdRmP"]
        out += [case("bier", "-", "-", omit="bdQRmP", dims=d)]
    return out
