from ..rules import *
from ..values import RNGV, PyRaise
from .. import npmodel
from .c01 import DIMS

RULE = "on every path of sample, every draw has the selected generator (the object itself for a generator object, one newly seeded generator for an integer, the global one for None) as provenance; two samples with one integer seed have equal value graphs; any other random_state raises ValueError on every path; no path of any other method draws or reseeds"
EXPLANATION = "Effect analysis on the abstract execution of every public method: each draw and reseed is recorded with the provenance and identity of its generator and its source location."
SY2 = {"n": SYM, "m": SYM, "T": ("sym", 2)}


def draws(it):
    return [e for e in it.effects if e[0] == "draw"]


def reseeds(it):
    return [e for e in it.effects if e[0] == "reseed"]


def bad_effects(it, want):
    """want: ('serial', n) | ('seeded', text) | None (no draw at all)."""
    bad = [f"reseeds the generator {e[1]} at {e[2]}" for e in reseeds(it)]
    ds = draws(it)
    if want is None:
        return bad + [f"draws random numbers from {e[1]} at {e[2]}" for e in ds]
    if want[0] == "serial":
        return bad + [f"draws from {e[1]} at {e[2]} instead of {want[2]}" for e in ds if e[3] != want[1]]
    bad += [f"draws from {e[1]} at {e[2]} instead of a generator seeded with {want[1]}" for e in ds if e[1] != str(("seeded", ("const", want[1])))]
    if len({e[3] for e in ds}) > 1:
        bad.append("draws from several generators made from one seed: " + "; ".join(sorted({e[2] for e in ds})))
    return bad


def sample(which, call, ctor, init, tv="", dims=DIMS):
    """call/ctor: 'none', 'int', 'object', 'module' or '-' (not given)."""
    def make(c, kind, tag, seed):
        if kind == "int":
            return seed, ("seeded", seed)
        if kind == "object":
            r = RNGV(("caller", tag))
            return r, ("serial", r.serial, f"the generator given to the {tag}")
        if kind == "module":
            return c.it.loader.module(c.it, "numpy.random"), ("serial", npmodel.GLOBAL_RNG.serial, "the global generator")
        return None, ("serial", npmodel.GLOBAL_RNG.serial, "the global generator")

    def code(c):
        kw, a = {}, {}
        sel = None
        if ctor != "-":
            kw["random_state"], sel = make(c, ctor, "constructor", 11)
        e, p = S.estimator(c, which, tv, **kw)
        if call != "-":
            a["random_state"], s2 = make(c, call, "call", 7)
            sel = s2 if call != "none" else sel
        if init:
            a["initial_state"] = c.arr("x0", c.n)
        c.it.wanted = sel or ("serial", npmodel.GLOBAL_RNG.serial, "the global generator")
        x = c.method(e, "sample", c.it_len(c.T), **a)
        return {"states": x[0], "observations": x[1]}

    def check(paths):
        bad = []
        for p in paths:
            if p.exc is not None:
                bad.append(f"sample raises {exc_name(p.exc)}")
                continue
            bad += bad_effects(p.it, p.it.wanted)
            if not draws(p.it):
                bad.append("sample draws nothing")
        return sorted(set(bad))
    d = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Facts_(f"sample {which} random_state call={call} constructor={ctor} initial={'given' if init else 'drawn'} tv={tv or '-'}{d}", dims, code, check,
                  partial=lambda it: bad_effects(it, it.wanted) if hasattr(it, "wanted") else [])


def repeat(which, where, init, tv=""):
    """The same integer seed twice."""
    def run(times):
        def f(c):
            e, p = S.estimator(c, which, tv, **({"random_state": 7} if where == "constructor" else {}))
            a = {"random_state": 7} if where == "call" else {}
            if init:
                a["initial_state"] = c.arr("x0", c.n)
            for _ in range(times):
                x = c.method(e, "sample", c.it_len(c.T), **a)
            return {"states": x[0], "observations": x[1]}
        return f
    return Compare(f"sample {which} twice with the seed of the {where} tv={tv or '-'} initial={'given' if init else 'drawn'}", DIMS, run(2), run(1))


INVALID = {"string": lambda c: "seed", "float": lambda c: 1.5, "list": lambda c: ListV((1, 2)), "tuple": lambda c: (1, 2), "dictionary": lambda c: DictV({}),
           "numpy Generator": lambda c: npmodel.new_rng(c.it, ("caller", "generator"), "Generator"), "array": lambda c: c.arr("seed", 3), "object": lambda c: c.call(c.cls("pykalman.utils.Bunch"))}


def invalid(which, kind, where):
    def code(c):
        x = INVALID[kind](c)
        if which == "utils":
            return c.call(c.cls("pykalman.utils.check_random_state"), x)
        if where == "constructor":
            e, p = S.estimator(c, which, random_state=x)
            return c.method(e, "sample", c.it_len(c.T))
        e, p = S.estimator(c, which)
        return c.method(e, "sample", c.it_len(c.T), random_state=x)

    def check(paths):
        return [f"a {kind} as random_state " + (f"raises {exc_name(p.exc)}" if p.exc is not None else "is accepted") for p in paths if p.exc is None or exc_name(p.exc) != "ValueError"][:1]
    return Facts_(f"invalid random_state {kind} of the {where}: {which}", DIMS if which != "utils" else {}, code, check)


def selection(kind):
    def code(c):
        f = c.cls("pykalman.utils.check_random_state")
        if kind == "object":
            r = RNGV(("caller", "seed"))
            return r, c.call(f, r)
        if kind == "none":
            return npmodel.GLOBAL_RNG, c.call(f, None)
        if kind == "module":
            return npmodel.GLOBAL_RNG, c.call(f, c.it.loader.module(c.it, "numpy.random"))
        return None, c.call(f, 7)

    def check(paths):
        bad = []
        for p in paths:
            if p.exc is not None:
                bad.append(f"check_random_state raises {exc_name(p.exc)} for {kind}")
                continue
            want, got = p.out
            if want is None:
                if not isinstance(got, RNGV) or got.prov != ("seeded", ("const", 7)):
                    bad.append("check_random_state(7) does not return a generator seeded with 7")
            elif got is not want:
                bad.append(f"check_random_state does not return the selected generator for {kind}")
        return bad
    return Facts_(f"check_random_state {kind}", {}, code, check)


def quiet(which, meth, dims=DIMS, masked=True, omit=""):
    def code(c):
        e, p = S.estimator(c, which, "", omit)
        if meth == "construction":
            return None
        if meth == "filter_update":
            return c.method(e, meth, c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), c.obs("z", (c.m,)))
        a = {"em_vars": "all", "n_iter": 1} if meth == "em" else {}
        return c.method(e, meth, c.obs(masked=masked), **a)

    def check(paths):
        return sorted({b for p in paths for b in bad_effects(p.it, None)})
    d = "" if dims is DIMS else f" n={dims['n']} m={dims['m']}"
    return Facts_(f"no randomness: {which} {meth}{' omit ' + omit if omit else ''}{d}", dims, code, check, partial=lambda it: bad_effects(it, None))


def imports():
    mods = ("pykalman", "pykalman.standard", "pykalman.unscented", "pykalman.sqrt", "pykalman.utils", "pykalman.datasets", "pykalman.sqrt.cholesky", "pykalman.sqrt.bierman", "pykalman.sqrt.unscented", "pykalman.utils_numpy")

    def code(c):
        for m in mods:
            c.it.loader.module(c.it, m)
        r = c.call(c.cls("pykalman.datasets.load_robot"))
        return None

    def check(paths):
        return sorted({b for p in paths for b in bad_effects(p.it, None)})
    return Facts_("no randomness: imports and load_robot", {}, code, check, partial=lambda it: bad_effects(it, None))


def obligations(tier):
    out = [imports()] + [selection(k) for k in ("object", "none", "int", "module")]
    deep = tier == "thorough"
    for w in S.ALL:
        per = "AbCd" if w in S.LINEAR else "fg"
        for call, ctor in (("int", "-"), ("object", "-"), ("-", "int"), ("-", "object"), ("-", "-"), ("none", "object"), ("none", "int"), ("none", "none"), ("object", "int"), ("int", "object"), ("object", "object"), ("module", "-"), ("-", "module")):
            out += [sample(w, call, ctor, init) for init in ((False, True) if deep or call in ("object", "-") else (False,))]
        out += [sample(w, call, "-", init, per) for call in ("int", "object") for init in (False, True)]
        out += [repeat(w, x, i, tv) for x in ("call", "constructor") for i in (False, True) for tv in (("", per) if deep else ("",))]
        out += [invalid(w, k, x) for k in INVALID for x in ("call", "constructor")]
        d = DIMS if w not in ("bier", "sqrt") else {"n": 2, "m": 2, "T": SYM}
        for me in ("construction", "filter", "smooth", "filter_update") + (("em", "loglikelihood") if w in S.LINEAR else ()):
            dd = {k: v for k, v in d.items() if k != "T"} if me == "filter_update" else d
            out += [quiet(w, me, dd)]
    out += [sample("kf", c_, "-", i, "AbQCdR") for c_ in ("int", "object") for i in (False, True)]
    out += [quiet("kf", me, omit="bdQRmP") for me in ("filter", "smooth", "em", "loglikelihood")]
    out += [invalid("utils", k, "function") for k in INVALID]
    return out
