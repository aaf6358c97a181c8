import ast
from ..rules import *
from ..values import *
from . import c07
from .c04 import value

RULE = "the public methods of sibling classes resolve to functions with equal parameter names, order, kinds and default values; each documented positional call has the value graph of the keyword call; attributes named like constructor parameters hold what was given; em's result is the estimator"
EXPLANATION = "Class objects are built by abstract interpretation of the modules and each method resolved through the inheritance order; its parameter list is compared across siblings, and positional, keyword and default call forms are interpreted abstractly and compared as value graphs."
LIN = ["__init__", "sample", "filter", "filter_update", "smooth", "em", "loglikelihood"]
UNS = ["__init__", "sample", "filter", "filter_update", "smooth"]
CTOR_L = ["transition_matrices", "observation_matrices", "transition_covariance", "observation_covariance", "transition_offsets", "observation_offsets",
          "initial_state_mean", "initial_state_covariance", "random_state", "em_vars", "n_dim_state", "n_dim_obs"]
CTOR_U = ["transition_functions", "observation_functions", "transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance",
          "n_dim_state", "n_dim_obs", "random_state"]
UPD_L = ["filtered_state_mean", "filtered_state_covariance", "observation", "transition_matrix", "transition_offset", "transition_covariance",
         "observation_matrix", "observation_offset", "observation_covariance"]
UPD_U = ["filtered_state_mean", "filtered_state_covariance", "observation", "transition_function", "transition_covariance", "observation_function", "observation_covariance"]


def signature(c, dotted, method):
    f = c.cls(dotted).lookup(method)
    if f is None:
        return "missing"
    if not isinstance(f, FuncV) or not hasattr(f.node, "args"):
        raise Undecided(f"{dotted}.{method} is not a plain function")
    a = f.node.args
    if a.vararg or a.kwarg:
        raise Undecided(f"{dotted}.{method} takes a variable argument list")
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    defaults = [show(c, d) for d in f.defaults]
    kwd = {k: show(c, v) for k, v in f.kwdefaults.items()} if isinstance(f.kwdefaults, dict) else {}
    return (tuple(names), tuple(defaults), tuple((k, kwd.get(k)) for k in kwonly))


def show(c, v):
    return repr(v) if isinstance(v, (int, float, str, bool)) or v is None else c.it.text(v)


def siblings(classes, method):
    def code(c):
        return {w: signature(c, d, method) for w, d in classes.items()}

    def check(paths):
        bad = []
        for p in paths:
            ref = next(iter(p.out))
            for w, s in p.out.items():
                if s == "missing":
                    bad.append(f"{classes[w]} has no method {method}")
                elif s != p.out[ref]:
                    bad.append(f"{classes[w]}.{method}{text(s)} differs from {classes[ref]}.{method}{text(p.out[ref])}")
        return bad
    return Facts_(f"signature of {method}: {', '.join(classes)}", {}, code, check)


def text(s):
    n, d, k = s
    pad = [None] * (len(n) - len(d)) + list(d)
    return "(" + ", ".join(x if y is None else f"{x}={y}" for x, y in zip(n, pad)) + "".join(f", *, {a}={b}" for a, b in k) + ")"


def attributes(which, form, given=None):
    """Attributes of a new estimator hold the objects given."""
    names = CTOR_L if which in S.LINEAR else CTOR_U

    def args(c):
        n, m = c.n, c.m
        sh = {"transition_matrices": (n, n), "observation_matrices": (m, n), "transition_covariance": (n, n), "observation_covariance": (m, m), "transition_offsets": (n,),
              "observation_offsets": (m,), "initial_state_mean": (n,), "initial_state_covariance": (n, n)}
        out = {}
        for k in names:
            if k in sh:
                out[k] = c.arr(k, *sh[k])
            elif k == "em_vars":
                out[k] = ListV(("transition_matrices",))
            elif k == "random_state":
                out[k] = 5
            elif k.startswith("n_dim"):
                out[k] = c.it_len(n if k.endswith("state") else m)
            else:
                out[k] = OpaqueFn(k[:1], None, n if k[0] == "t" else m)
        return out if given is None else {k: v for k, v in out.items() if k in given}

    def code(c):
        a = args(c)
        e = c.call(c.cls(S.ALL[which]), *a.values()) if form == "positional" else c.call(c.cls(S.ALL[which]), **a)
        return {"given": a, "held": {k: c.get(e, k) for k in names}}

    def check(paths):
        bad = []
        for p in paths:
            if p.exc is not None:
                bad.append(f"construction with {form} arguments raises {exc_name(p.exc)}")
                continue
            for k in names:
                g, h = p.out["given"].get(k), p.out["held"][k]
                if k.startswith("n_dim") and k not in p.out["given"]:
                    continue
                ok = h is g or (isinstance(g, (int, str)) and g == h) or (k.startswith("n_dim") and poly(g) == poly(h) if isinstance(h, (int, Poly)) and g is not None else False) or equal_arrays(p.it, g, h)
                if not ok:
                    bad.append(f"the attribute {k} does not hold the value given ({form})")
        return bad
    return Facts_(f"attributes {which} {form}{' ' + ','.join(given) if given is not None else ''}", {"n": SYM, "m": SYM}, code, check)


def equal_arrays(it, g, h):
    if not (isinstance(g, Arr) and isinstance(h, Arr)):
        return False
    a, b = it.read(g), it.read(h)
    return a.shape == b.shape and a.c is b.c


def forms(which, method, upto=None, dims=None):
    """Positional against keyword arguments."""
    dims = dims or {"n": SYM, "m": SYM, "T": ("sym", 2)}

    def setup(c):
        e, p = S.estimator(c, which)
        n, m = c.n, c.m
        if method in ("filter", "smooth", "loglikelihood"):
            names, vals = ["X" if which in S.LINEAR else "Z"], [c.obs()]
        elif method == "em":
            names, vals = ["X", "y", "n_iter", "em_vars"], [c.obs(), None, 1, value("A")]
        elif method == "sample":
            names, vals = ["n_timesteps", "initial_state", "random_state"], [c.it_len(c.T), c.arr("x0", n), 4]
        else:
            names = UPD_L if which in S.LINEAR else UPD_U
            lin = {"transition_matrix": (n, n), "transition_offset": (n,), "transition_covariance": (n, n), "observation_matrix": (m, n), "observation_offset": (m,), "observation_covariance": (m, m)}
            vals = [c.arr("mean0", n), c.arr("covariance0", n, n), c.obs("z", (m,))]
            for k in names[3:]:
                vals.append(c.arr("covariance_new_" + k if "covariance" in k else k + "_new", *lin[k]) if k in lin else OpaqueFn(k[:1] + "_new", None, n if k[0] == "t" else m))
        k = upto or len(names)
        return e, names[:k], vals[:k]

    def out(c, e, r):
        if method == "em":
            return {"returns the estimator": r is e, **{k: c.get(e, k) for k in S.NAMES}}
        return {"result": r}

    def code(c):
        e, names, vals = setup(c)
        return out(c, e, c.method(e, method, *vals))

    def spec(c):
        e, names, vals = setup(c)
        r = c.method(e, method, **dict(zip(names, vals)))
        if method == "em":
            r = e
        return out(c, e, r)
    return Compare(f"call forms: {which}.{method} {upto or ''}".strip(), dims, code, spec)


def defaults(which, method, dims=None):
    """Left-out arguments against their documented defaults."""
    dims = dims or {"n": SYM, "m": SYM, "T": ("sym", 2)}

    def run(full):
        def f(c):
            e, p = S.estimator(c, which)
            n, m = c.n, c.m
            if method == "em":
                r = c.method(e, "em", c.obs(masked=False), **(dict(n_iter=10, em_vars=None, y=None) if full else {}))
                return {"returns the estimator": r is e, **{k: c.get(e, k) for k in S.NAMES}}
            if method == "sample":
                return {"result": c.method(e, "sample", c.it_len(c.T), **(dict(initial_state=None, random_state=None) if full else {}))}
            kw = {k: None for k in (UPD_L if which in S.LINEAR else UPD_U)[2:]} if full else {}
            return {"result": c.method(e, "filter_update", c.arr("mean0", n), c.arr("covariance0", n, n), **kw)}
        return f
    return Compare(f"defaults: {which}.{method}", dims, run(False), run(True))


def returns_self(which, dims):
    def code(c):
        e, p = S.estimator(c, which)
        r = c.method(e, "em", c.obs(), n_iter=1)
        return r is e

    def check(paths):
        return [f"em returns {type(p.out).__name__} instead of the estimator" if p.exc is None else f"em raises {exc_name(p.exc)}" for p in paths if p.exc is not None or p.out is not True]
    return Facts_(f"em returns the estimator: {which}", dims, code, check)


def chained(which, dims):
    """em(...).smooth(...) works on the fitted parameters."""
    def run(chain):
        def f(c):
            e, p = S.estimator(c, which)
            r = c.method(e, "em", c.obs(masked=False), n_iter=1, em_vars=value("Q"))
            return S.moments(c.method(r if chain else e, "smooth", c.obs(masked=False)))
        return f
    return Compare(f"em(...).smooth(...): {which}", dims, run(True), run(False))


def obligations(tier):
    out = []
    SMALL = {"n": 1, "m": 1, "T": ("sym", 2)}
    for m in LIN:
        out.append(siblings(S.LINEAR, m))
    for m in UNS:
        out.append(siblings(S.UNSC, m))
    for w in S.ALL:
        out += [attributes(w, "positional"), attributes(w, "keyword"), attributes(w, "keyword", ())]
        out += [attributes(w, "keyword", (k,)) for k in (CTOR_L if w in S.LINEAR else CTOR_U)]
        d = {"n": 2, "m": 1, "T": ("sym", 2)} if w in ("bier", "sqrt", "ukf", "aukf") else None
        for m in (LIN if w in S.LINEAR else UNS)[1:]:
            out.append(forms(w, m, None, SMALL if (w in ("sqrt", "bier")) and m in ("smooth", "em") else d))
        for k in range(3, len(UPD_L if w in S.LINEAR else UPD_U)):
            out.append(forms(w, "filter_update", k, d))
        out += [defaults(w, "sample", d), defaults(w, "filter_update", d)]
    for w in S.LINEAR:
        out += [defaults(w, "em", {"n": 1, "m": 1, "T": 1}), returns_self(w, {"n": SYM, "m": SYM, "T": SYM} if w != "bier" else {"n": 1, "m": 1, "T": SYM}), chained(w, {"n": 1, "m": 1, "T": 2})]
    return out
