import re
from itertools import combinations
from ..rules import *
from ..values import *
from .c03 import LET
from .c04 import DEFAULT, value

RULE = "on every abstract path of em, the set of parameters named by the warnings raised equals the intersection of the parameters selected for estimation with those given per step, and every selected parameter ends with its constant rank, which is the rank the warning announces; a second em warns about none of them"
EXPLANATION = "Event analysis: em of the three linear filters is interpreted abstractly with symbolic lengths for combinations of per-step parameters and selections; warnings in force are events of the path (warnings under a filter that ignores them are not counted)."
RANK = {"transition_matrices": 2, "transition_offsets": 1, "observation_matrices": 2, "observation_offsets": 1, "transition_covariance": 2,
        "observation_covariance": 2, "initial_state_mean": 1, "initial_state_covariance": 2}


def warned(events):
    """Messages in force."""
    out, depth, ignoring = [], [], False
    for e in events:
        if e[0] == "catch":
            depth.append(ignoring)
            ignoring = ignoring or e[1]
        elif e[0] == "uncatch":
            ignoring = depth.pop() if depth else False
        elif e[0] == "warnfilter":
            ignoring = e[1] == "ignore" or (ignoring and e[1] is None)
        elif e[0] == "warn" and not ignoring:
            out.append((e[1], e[2]))
    return out


def named(msgs):
    return {k for k in RANK if any(re.search(rf"\b{k}\b", t) for t, _ in msgs)}


def case(which, tv, call, ctor="-", dims=None, masked=True, iters=1, again=False):
    eff = call if call not in ("-", None) else ctor if ctor != "-" else None
    sel = list(RANK) if eff == "all" else DEFAULT if eff is None else [LET[l] for l in eff]
    expect = {LET[l] for l in tv} & set(sel)

    def code(c):
        kw = {"em_vars": value(ctor)} if ctor != "-" else {}
        e, p = S.estimator(c, which, tv, **kw)
        a = {"em_vars": value(call)} if call != "-" else {}
        n0 = len(c.it.events)
        c.method(e, "em", c.obs(masked=masked), n_iter=iters, **a)
        n1 = len(c.it.events)
        if again:
            c.method(e, "em", c.obs(masked=masked), n_iter=iters, **a)
        return {"first": warned(c.it.events[n0:n1]), "second": warned(c.it.events[n1:]),
                "rank": {k: len(c.it.to_st(c.get(e, k)).shape) for k in sel}}

    def check(paths):
        bad = []
        for p in paths:
            if p.exc is not None:
                bad.append(f"em raises {exc_name(p.exc)}")
                continue
            o = p.out
            got = named(o["first"])
            where = sorted({w for _, w in o["first"]})
            for k in sorted(got - expect):
                bad.append(f"warns about {k}, which is {'constant' if k in sel else 'not estimated'} ({where})")
            for k in sorted(expect - got):
                bad.append(f"no warning about {k}, which is estimated and time-varying")
            for k in sorted(named(o["second"])):
                bad.append(f"second em warns about {k}, which is constant by then")
            for k, r in o["rank"].items():
                if r != RANK[k]:
                    bad.append(f"{k} has {r} dimensions after fitting")
            for t, w in o["first"]:
                for x in re.findall(r"will have dimension (\d+)", t):
                    ks = named([(t, w)])
                    if len(ks) == 1 and RANK[next(iter(ks))] != int(x):
                        bad.append(f"the warning about {next(iter(ks))} announces dimension {x} ({w})")
        return sorted(set(bad))
    dims = dims or {"n": SYM, "m": SYM, "T": SYM}
    d = "" if dims["n"] == SYM else f" n={dims['n']} m={dims['m']}"
    return Facts_(f"em {which} per step: {tv or '-'} selected by call: {call} by constructor: {ctor}{' twice' if again else ''}{d}", dims, code, check)


def obligations(tier):
    out = []
    D11, D21 = {"n": 1, "m": 1, "T": SYM}, {"n": 2, "m": 1, "T": SYM}
    for w, tvs in (("kf", "AbQCdR"), ("chol", "AbCd"), ("bier", "AbCd")):
        dims = None if w != "bier" else D11
        m = w == "kf"
        sels = [("-", "-"), ("all", "-"), ("-", "all"), ("", "-")]
        for l in tvs:
            out += [case(w, l, a, b, dims=dims, masked=m) for a, b in sels]
            out += [case(w, l, x, dims=dims, masked=False) for x in tvs + "mP"]
        for k in (2, len(tvs)) if tier == "quick" else range(2, len(tvs) + 1):
            for t in combinations(tvs, k):
                t = "".join(t)
                rest = "".join(x for x in "AbQCdRmP" if x not in t)
                for a, b in [("all", "-"), ("-", "-"), (t, "-"), (rest, "-"), (t[0], "-")] if w == "kf" or k != 2 or tier != "quick" else [("all", "-"), (t[1], "-")]:
                    out.append(case(w, t, a, b, dims=dims, masked=False))
        out += [case(w, "", a, b, dims=dims) for a, b in sels]
        out += [case(w, tvs, "all", again=True, dims=dims, masked=False), case(w, tvs, "-", "A", dims=dims, masked=False), case(w, tvs, "b", "A", dims=dims, masked=False),
                case(w, tvs, None, "Cd", dims=dims, masked=False)]
        if w == "bier":
            out += [case(w, tvs, "all", dims=D21, masked=False), case(w, tvs, "-", dims=D21, masked=False)]
    return out
