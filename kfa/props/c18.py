from ..rules import *
from . import c07

RULE = "on every path, filter_update raises if a parameter of the model is time-varying and not given to the call, and raises nothing otherwise; a value given to the call has the value graph of the documented step with that value"
EXPLANATION = "Abstract interpretation of filter_update of all six classes with every subset of time-varying parameters and of given arguments (symbolic n, m and sequence length; the observation given, masked or absent); the set of paths ending in an exception is compared with the expected one."
UPD = {l: (name, up) for l, name, up in S.PARAMS if up}
FN = {"f": ("transition_functions", "transition_function"), "g": ("observation_functions", "observation_function")}
LETTERS = "AbQCdR"


def kwargs(c, which, given):
    kw = {}
    for l in given:
        if which in S.LINEAR:
            kw[UPD[l][1]] = c.arr(UPD[l][0] + "_new", *S.shapes(c)[l])
        elif l in "fg":
            kw[FN[l][1]] = OpaqueFn(l + "_new", None, c.n if l == "f" else c.m)
        else:
            kw[{"Q": "transition_covariance", "R": "observation_covariance"}[l]] = c.arr({"Q": "new_covariance_Q", "R": "new_covariance_R"}[l], *S.shapes(c)[l])
    return kw


def case(which, tv, given, kind, dims):
    expect = bool(set(tv) - set(given))

    def code(c):
        e, p = S.estimator(c, which, tv)
        a = () if kind == "absent" else (c.obs("z", (c.m,), masked=kind == "masked"),)
        r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), *a, **kwargs(c, which, given))
        return {"mean": r[0], "cov": r[1]}

    def check(paths):
        bad = []
        for p in paths:
            where = ", ".join(f"{'' if b else 'not '}{q!r}" for q, b in p.pre)[:300]
            if expect and p.exc is None:
                bad.append(f"filter_update accepts the time-varying {','.join(sorted(set(tv) - set(given)))} without a value for the step on the path [{where}]")
            if not expect and p.exc is not None:
                bad.append(f"filter_update raises {exc_name(p.exc)} although every time-varying parameter is given, on the path [{where}]")
        return bad
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Facts_(f"{which} time-varying={tv or '-'} given={given or '-'} observation {kind} {d}".strip(), dims, code, check)


def obligations(tier):
    out = []
    deep = tier == "thorough"
    D = {"n": SYM, "m": SYM, "T": ("sym", 3)}
    D2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}
    B = {"n": 2, "m": 2, "T": ("sym", 3)}
    subsets = ["".join(x) for k in range(7) for x in itertools.combinations(LETTERS, k)]
    for tv in subsets:                      # every subset time-varying: nothing given, all of it given, all but one given
        given = {"", tv, LETTERS} | {tv.replace(l, "") for l in tv} | {LETTERS.replace(l, "") for l in tv}
        for g in sorted(given) if deep or len(tv) <= 1 or tv == LETTERS else sorted({"", tv}):
            out.append(case("kf", tv, g, "given", D))
    for w in ("kf", "chol"):
        d = D
        out += [case(w, l, "", k, d) for l in LETTERS for k in ("given", "masked", "absent") if (w, k) != ("kf", "given")]
        out += [case(w, l, l, k, d) for l in LETTERS for k in ("masked", "absent")]
        out += [case(w, l, "", "given", D2) for l in LETTERS]
        out += [case(w, LETTERS, LETTERS.replace(l, ""), "given", d) for l in LETTERS if w == "chol"]
        out += [case(w, "", g, k, d) for g in ("", LETTERS) for k in ("given", "masked", "absent") if w == "chol"]
        out += [case(w, l, l, "given", d) for l in LETTERS if w == "chol"]
    out += [case("bier", l, "", k, B) for l in LETTERS for k in ("given", "masked", "absent")]
    out += [case("bier", l, l, "given", B) for l in LETTERS] + [case("bier", LETTERS, LETTERS.replace(l, ""), "given", B) for l in LETTERS]
    out += [case("bier", "", g, k, B) for g in ("", LETTERS) for k in ("given", "masked", "absent")]
    for w, d in (("ukf", D), ("aukf", D), ("sqrt", B)):
        out += [case(w, tv, "", k, d) for tv in ("f", "g", "fg") for k in ("given", "masked", "absent")]
        out += [case(w, "fg", g, k, d) for g in ("f", "g", "fg") for k in ("given", "absent")]
        out += [case(w, "fg", "gQR", "given", d), case(w, "fg", "fQR", "given", d)]
        out += [case(w, "", g, k, d) for g in ("", "f", "g", "Q", "R", "fgQR") for k in ("given", "masked", "absent")]
        out += [case(w, tv, tv, "given", d) for tv in "fg"]
    # values given are used as they are
    S2, U2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}, {"n": SYM, "m": SYM}
    out += [c07.linear_case("kf", "", S2, over=l) for l in LETTERS] + [c07.linear_case("kf", LETTERS, S2)]
    out += [c07.linear_case("chol", "", S2, over=l) for l in LETTERS]
    out += [c07.linear_case("bier", "", {"n": 2, "m": 2, "T": ("sym", 2)}, over=l) for l in LETTERS]
    for w in ("ukf", "aukf"):
        out += [c07.single(w, l, U2) for l in "fgQR"]
    out += [c07.single("sqrt", l, {"n": 2, "m": 2}) for l in "fgQR"]
    return out
