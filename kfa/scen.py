"""Builders of symbolic estimators and arguments shared by the rules."""
from . import terms as T
from .terms import poly, ONE
from . import arrays as A
from .values import *

LINEAR = {"kf": "pykalman.KalmanFilter", "chol": "pykalman.sqrt.CholeskyKalmanFilter", "bier": "pykalman.sqrt.BiermanKalmanFilter"}
UNSC = {"ukf": "pykalman.UnscentedKalmanFilter", "aukf": "pykalman.AdditiveUnscentedKalmanFilter", "sqrt": "pykalman.sqrt.AdditiveUnscentedKalmanFilter"}
ALL = {**LINEAR, **UNSC}

# letter, constructor name, filter_update name
PARAMS = [("A", "transition_matrices", "transition_matrix"), ("b", "transition_offsets", "transition_offset"),
          ("Q", "transition_covariance", "transition_covariance"), ("C", "observation_matrices", "observation_matrix"),
          ("d", "observation_offsets", "observation_offset"), ("R", "observation_covariance", "observation_covariance"),
          ("m", "initial_state_mean", None), ("P", "initial_state_covariance", None)]
NAMES = [p[1] for p in PARAMS]


def shapes(c):
    n, m = c.n, c.m
    return {"A": (n, n), "b": (n,), "Q": (n, n), "C": (m, n), "d": (m,), "R": (m, m), "m": (n,), "P": (n, n)}


def lengths(c):
    return {"A": c.T - 1, "b": c.T - 1, "Q": c.T - 1, "C": c.T, "d": c.T, "R": c.T}


def linear_params(c, tv="", omit="", diag="", suffix="", lens=None, dtype=None):
    """{constructor name: Arr or None}; letters in tv are per-step."""
    sh, ln = shapes(c), lens or (lengths(c) if "T" in c.dims else {})
    out = {}
    for l, name, _ in PARAMS:
        if l in omit:
            out[name] = None
            continue
        s = sh[l]
        if l in tv:
            s = (ln[l],) + s
        with timed(c, name + suffix, l in tv):
            out[name] = c.arr(name + suffix, *s, dtype=dtype)
    return out


class timed:
    def __init__(self, c, name, on):
        self.c, self.name, self.on = c, name, on

    def __enter__(self):
        if self.on:
            self.c.timed = tuple(self.c.timed) + (self.name,)

    def __exit__(self, *a):
        pass


def as_tuple(p):
    return (p["transition_matrices"], p["transition_offsets"], p["observation_matrices"], p["observation_offsets"],
            p["transition_covariance"], p["observation_covariance"], p["initial_state_mean"], p["initial_state_covariance"])


def linear(c, which, p, **kw):
    o = c.call(c.cls(LINEAR[which]), **{k: v for k, v in p.items() if v is not None}, **kw)
    o.owner = "user:estimator"
    return o


def functions(c, name, out_dim, tv=None):
    """One user function, or a list with one function per step (length tv)."""
    if tv is None:
        return OpaqueFn(name, None, out_dim)
    n = poly(tv)
    if n.is_const():
        x = ListV(tuple(OpaqueFn(name, poly(i), out_dim) for i in range(int(n.const()))))
    else:
        x = ListV(Seq(n, lambda i: OpaqueFn(name, poly(i), out_dim)))
    x.owner = "user:" + name
    return x


def unscented_params(c, tv="", omit=""):
    n, m = c.n, c.m
    out = {}
    if "f" not in omit:
        out["transition_functions"] = functions(c, "f", n, c.T - 1 if "f" in tv else None)
    if "g" not in omit:
        out["observation_functions"] = functions(c, "g", m, c.T if "g" in tv else None)
    for l, name, s in (("Q", "transition_covariance", (n, n)), ("R", "observation_covariance", (m, m)),
                       ("m", "initial_state_mean", (n,)), ("P", "initial_state_covariance", (n, n))):
        if l not in omit:
            out[name] = c.arr(name, *s)
    return out


def unscented(c, which, p, **kw):
    o = c.call(c.cls(UNSC[which]), **p, **kw)
    o.owner = "user:estimator"
    return o


def estimator(c, which, tv="", omit="", **kw):
    if which in LINEAR:
        p = linear_params(c, tv, omit)
        return linear(c, which, p, **kw), p
    p = unscented_params(c, tv, omit)
    return unscented(c, which, p, **kw), p


def moments(r, pre=""):
    return {pre + "means": r[0], pre + "covariances": r[1]}


def with_defaults(c, p):
    """The documented defaults for parameters that are not given."""
    sh = shapes(c)
    out = dict(p)
    for l, name, _ in PARAMS:
        if out[name] is None:
            out[name] = c.spec("misc.zeros", sh[l][0]) if l in "bdm" else c.spec("misc.eye", *sh[l])
    return out


def as_list(c, a):
    """The nested list with the elements of an array (owned by the caller)."""
    st = c.it.read(a)
    n = poly(st.shape[0])

    def one(i):
        x = c.it.getitem(a, i)
        return as_list(c, x) if isinstance(x, Arr) and c.it.read(x).shape else x
    if n.is_const():
        out = ListV(tuple(one(i) for i in range(int(n.const()))))
    else:
        out = ListV(Seq(n, lambda i: one(poly(i))))
    out.owner = a.owner
    return out


def own(it, v, tag, seen=None):
    """Mark everything mutable reachable from v (and not owned yet) as the caller's."""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        r = it.root(v)
        if r.owner is None:
            r.owner = "user:" + tag
        st = it.read(v)
        if st.dtype == "o" and isinstance(st.c, Seq) and poly(st.shape[0]).is_const():
            for i in range(int(poly(st.shape[0]).const())):
                own(it, A.seq_get(st.c, poly(i)), tag, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            own(it, x, tag, seen)
    elif isinstance(v, NT):
        for x in v.vals:
            own(it, x, tag, seen)
    elif isinstance(v, (ListV, SetV)):
        if v.owner is None:
            v.owner = "user:" + tag
        if isinstance(v.d["items"], tuple):
            for x in v.d["items"]:
                own(it, x, tag, seen)
    elif isinstance(v, DictV):
        if v.owner is None:
            v.owner = "user:" + tag
        for x in v.d["items"].values():
            own(it, x, tag, seen)
    elif isinstance(v, Inst):
        if v.owner is None:
            v.owner = "user:" + tag
        for k, x in list(v.d.items()):
            own(it, x, f"{tag}.{k}", seen)
