from ..rules import *
from ..values import *
from .. import arrays as A

RULE = "a 1-D sequence of scalars has the value graph of the one-column array, a single vector observation that of the one-row array, lists that of arrays, with the mask bits carried along; the shapes of every result equal the documented ones"
EXPLANATION = "Abstract interpretation of every method of the six classes on both layouts of the same symbolic observations (mask bits symbolic, lengths and dimensions symbolic), and the shape component of every abstract result against the documented shape."


def flat(c, a):
    """The same observations without the unit axis."""
    st = c.it.read(a)
    k = 1 if poly(st.shape[1]) == ONE else 0
    e = A.index(St(st.shape, st.c, st.dtype, None), (slice(None), 0) if k else (0,))
    mk = st.mask
    if mk is not None:
        mk = A.flat(mk) if k else ("row", mk[1], poly(0))
    out = Arr(St(e.shape, e.c, e.dtype, mk))
    out.owner = a.owner
    return out


def run(c, e, how, z):
    if how == "loglikelihood":
        return {how: c.method(e, how, z)}
    if how == "em":
        r = c.method(e, "em", z, n_iter=1)
        return {k: c.get(r, k) for k in S.NAMES}
    return S.moments(c.method(e, how, z))


def layout(which, how, kind, dims, masked=False, omit="", aslist=False, tv="", explicit=False):
    def est(c):
        kw = {"n_dim_obs": c.it_len(c.m), "n_dim_state": c.it_len(c.n)} if explicit else {}
        return S.estimator(c, which, tv, omit, **kw)[0]

    def obs(c):
        return c.obs("Z", (c.T, 1) if kind == "sequence" else (1, c.m), masked=masked)

    def code(c):
        z = flat(c, obs(c))
        return run(c, est(c), how, S.as_list(c, z) if aslist else z)

    def spec(c):
        if how == "em" or aslist or omit or explicit:
            return run(c, est(c), how, obs(c))
        if which in S.LINEAR:
            r = c.spec("kf." + how, S.as_tuple(S.linear_params(c, tv, omit)), obs(c))
            return {how: r} if how == "loglikelihood" else S.moments(r)
        p = S.unscented_params(c)
        r = c.spec(f"ukf.{'general' if which == 'ukf' else 'additive'}_{how}", p["transition_functions"], p["observation_functions"], False, False,
                   p["transition_covariance"], p["observation_covariance"], p["initial_state_mean"], p["initial_state_covariance"], obs(c))
        return S.moments(r)
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Compare(f"{kind}: {which} {how}{' masked' if masked else ''}{' list' if aslist else ''}{' tv=' + tv if tv else ''}{' omitted=' + omit if omit else ''} {d}".strip(), dims, code, spec)


def rows_list(which, how, dims):
    """A nested list with one row per time step."""
    def code(c):
        return run(c, S.estimator(c, which)[0], how, S.as_list(c, c.obs(masked=False)))

    def spec(c):
        return run(c, S.estimator(c, which)[0], how, c.obs(masked=False))
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Compare(f"rows: {which} {how} list {d}".strip(), dims, code, spec)


def shape_of(c, v):
    return tuple(c.it.getattr(v, "shape"))


def shapes(which, how, dims, masked=True, tv=""):
    def code(c):
        e = S.estimator(c, which, tv)[0]
        if how == "sample":
            r = c.method(e, "sample", c.it_len(c.T), random_state=3)
            return {"states": shape_of(c, r[0]), "observations": shape_of(c, r[1])}
        if how == "sample given":
            r = c.method(e, "sample", c.it_len(c.T), random_state=3, initial_state=c.arr("x0", c.n))
            return {"states": shape_of(c, r[0]), "observations": shape_of(c, r[1])}
        if how.startswith("update"):
            a = {"update": lambda: (c.obs("z", (c.m,), masked=masked),), "update absent": lambda: ()}[how]()
            r = c.method(e, "filter_update", c.arr("mean0", c.n), c.arr("covariance0", c.n, c.n), *a)
            return {"mean": shape_of(c, r[0]), "covariance": shape_of(c, r[1])}
        out = run(c, e, how, c.obs(masked=masked))
        return {k: shape_of(c, v) for k, v in out.items()}

    def spec(c):
        n, m, T = c.n, c.m, c.T
        if how.startswith("sample"):
            return {"states": (T, n), "observations": (T, m)}
        if how.startswith("update"):
            return {"mean": (n,), "covariance": (n, n)}
        if how == "em":
            return dict(zip(S.NAMES, (S.shapes(c)[l] for l, _, _ in S.PARAMS)))
        if how == "loglikelihood":
            return {"loglikelihood": ()}
        return {"means": (T, n), "covariances": (T, n, n)}
    d = " ".join(f"{k}={v}" for k, v in dims.items() if isinstance(v, int))
    return Compare(f"shape of {which} {how}{'' if masked else ' unmasked'}{' tv=' + tv if tv else ''} {d}".strip(), dims, code, spec)


def obligations(tier):
    out = []
    for w in S.ALL:
        lin = w in S.LINEAR
        T0 = 2 if w == "sqrt" else 1
        hows = ["filter", "smooth"] + (["loglikelihood"] if lin else []) + (["em"] if w == "kf" or (w != "ukf" and lin and tier == "thorough") else [])
        for how in hows:
            t = ("sym", 2 if how == "em" else 1)
            for masked in (False, True):
                for n in (SYM, 2, 1) if tier == "thorough" else (2,) if how == "em" or (w == "bier" and masked) else (SYM, 1):
                    out.append(layout(w, how, "sequence", {"n": n, "m": 1, "T": t}, masked=masked))
                if how != "em":
                    out.append(layout(w, how, "sequence", {"n": 2, "m": 1, "T": 1}, masked=masked))
                    out.append(layout(w, how, "single", {"n": SYM, "m": ("sym", 2), "T": 1}, masked=masked))
                    out.append(layout(w, how, "single", {"n": 1, "m": 3, "T": 1}, masked=masked, explicit=True))
            out.append(layout(w, how, "sequence", {"n": 2, "m": 1, "T": 3 if how == "em" else t}, aslist=True))
            if how != "em":
                out.append(layout(w, how, "single", {"n": 2, "m": 2, "T": 1}, aslist=True))
                if w not in ("bier", "sqrt") or tier == "thorough":
                    out.append(rows_list(w, how, {"n": SYM, "m": SYM, "T": t}))
                out.append(rows_list(w, how, {"n": 2, "m": 2, "T": 3}))
        if lin:
            out.append(layout(w, "filter", "sequence", {"n": 1, "m": 1, "T": SYM}, omit="AbQCdRmP"))
            out.append(layout(w, "filter", "sequence", {"n": SYM, "m": 1, "T": SYM}, masked=w != "bier", omit="CdR"))
            if w == "kf":
                out.append(layout(w, "smooth", "sequence", {"n": SYM, "m": 1, "T": ("sym", 2)}, masked=True, tv="AbQCdR"))
        for how in hows + ["update", "update absent", "sample", "sample given"]:
            for n, m in [(SYM, SYM), (1, 1), (1, 2), (2, 1)]:
                for T in [SYM, 1, 2]:
                    if how.startswith("update") and T != SYM:
                        continue
                    if how == "em" and T == 1 or (how == "em" and (n, m, T) != (SYM, SYM, SYM) and tier != "thorough"):
                        continue
                    if tier != "thorough" and not (n == SYM or T == SYM):
                        continue
                    out.append(shapes(w, how, {"n": n, "m": m, "T": ("sym", 2) if T == SYM and how == "em" else T}, masked=tier == "thorough" or w not in ("bier", "sqrt") or n != SYM))
    return out
