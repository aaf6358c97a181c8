"""Scenario objects: one static obligation each, run in its own process."""
import itertools
import os
import traceback
from .driver import *
from . import driver as D
from . import scen as S

SYM = ("sym", 1)


class Obligation:
    """run(tier, seed) -> dict(status, violations, undecided, stats)."""

    def __init__(self, name):
        self.name = name

    def run(self, tier, seed):
        raise NotImplementedError


def pack(res, contexts):
    return dict(violations=[{k: v for k, v in x.items() if k not in ("masks", "di")} | {"masks": {n: np.asarray(m).astype(int).tolist() for n, m in x.get("masks", {}).items()}} for x in res.violations],
                undecided=list(res.undecided), paths=res.paths, spec_paths=res.spec_paths, streams=res.streams, evaluations=res.envs,
                functions=sorted(res.functions), unexercised=res.unexercised, dropped=list(res.dropped), contexts=contexts)


def merge(a, b):
    a.violations += b.violations
    a.undecided += b.undecided
    a.paths += b.paths
    a.spec_paths += b.spec_paths
    a.streams += b.streams
    a.envs += b.envs
    a.functions |= b.functions
    a.unexercised += b.unexercised
    a.dropped += b.dropped


FALL_NM = [(2, 1), (1, 2), (2, 2), (1, 1)]


def fallbacks(dims):
    """Contexts with the state and observation dimensions fixed, then the length."""
    sy = [k for k, v in dims.items() if not isinstance(v, int)]
    nm = [k for k in sy if k != T_SYM]
    first = []
    if nm:
        for vals in (FALL_NM if len(nm) == 2 else [(2,) * len(nm), (1,) * len(nm), (3,) * len(nm)]):
            first.append({**dims, **dict(zip(nm, [max(dims[k][1], x) for k, x in zip(nm, vals)]))})
    second = []
    if T_SYM in sy:
        base = first or [dims]
        for d in base[:3]:
            for t in (1, 2, 3):
                second.append({**d, T_SYM: max(t, d[T_SYM][1])})
    return first, second


class Compare(Obligation):
    """The value graphs of two programs agree on every path."""

    def __init__(self, name, dims, code, spec, thorough=False, **kw):
        self.name, self.dims, self.code, self.spec, self.kw = name, dims, code, spec, kw
        self.thorough = thorough

    def attempt(self, dims, tier, seed):
        res, cp, sp = D.run_compare(self.name, dims, self.code, self.spec, thorough=tier == "thorough", seed=seed, **self.kw)
        return res

    def run(self, tier, seed):
        total = Result()
        contexts = []
        notes = []

        def go(d):
            try:
                r = self.attempt(d, tier, seed)
            except TimeoutError:
                raise
            except Exception as e:
                notes.append(f"{d}: {type(e).__name__}: {e}"[:300])
                if os.environ.get("KFA_TRACE"):
                    traceback.print_exc()
                return False
            if r.undecided and not r.violations:
                notes.extend(r.undecided)
                return False
            contexts.append(d)
            merge(total, r)
            return True
        if not go(self.dims):
            f1, f2 = fallbacks(self.dims)
            ok = False
            for d in f1:
                ok = go(d) or ok
                if total.violations or not ok:
                    break
            if not ok:
                for d in f2:
                    ok = go(d) or ok
                    if total.violations:
                        break
            total.undecided = notes if not ok else [n for n in notes if False]
            out = pack(total, contexts)
            out["bounded"] = notes
            return out
        return pack(total, contexts)


class Facts_(Obligation):
    """A predicate over every abstract path of a program: check(paths) -> [violation text]."""

    def __init__(self, name, dims, code, check, opts=None, partial=None):
        # partial(interpreter): violations already established where the analysis of a path stops short
        self.name, self.dims, self.code, self.check, self.opts, self.partial = name, dims, code, check, opts, partial

    def run(self, tier, seed):
        total = Result()
        notes, contexts = [], []

        def go(d):
            try:
                ex = Explorer(d, self.opts)
                ps = ex.run(self.code)
                bad = self.check(ps)
            except TimeoutError:
                raise
            except Exception as e:
                bad = self.partial(ex.last) if self.partial and getattr(ex, "last", None) else []
                if bad:
                    for b in bad:
                        total.violations.append(dict(scenario=self.name, difference=b, dims={k: repr(v) for k, v in d.items()}))
                    total.functions |= {f"{f}:{q}" for f, q in ex.last.called if f.startswith("pykalman")}
                    return True
                notes.append(f"{d}: {type(e).__name__}: {e}"[:300])
                if os.environ.get("KFA_TRACE"):
                    traceback.print_exc()
                return False
            contexts.append(d)
            total.paths += len(ps)
            total.dropped += ex.dropped
            for p in ps:
                total.functions |= {f"{f}:{q}" for f, q in p.it.called if f.startswith("pykalman")}
                total.streams += len(p.it.streams)
            for b in bad:
                total.violations.append(dict(scenario=self.name, difference=b, dims={k: repr(v) for k, v in d.items()}))
            return True
        if not go(self.dims):
            f1, f2 = fallbacks(self.dims)
            ok = False
            for d in f1:
                ok = go(d) or ok
                if not ok:
                    break
            if not ok:
                for d in f2:
                    ok = go(d) or ok
            if not ok:
                total.undecided = notes
            out = pack(total, contexts)
            out["bounded"] = notes
            return out
        return pack(total, contexts)


class Source(Obligation):
    """A rule over the syntax trees: fn() -> (violations, count of instances, functions)."""

    def __init__(self, name, fn, minimum=1):
        self.name, self.fn, self.minimum = name, fn, minimum

    def run(self, tier, seed):
        total = Result()
        try:
            bad, n, funcs = self.fn()
        except Exception as e:
            total.undecided.append(f"{type(e).__name__}: {e}")
            return pack(total, [])
        total.paths = n
        total.functions |= set(funcs)
        for b in bad:
            total.violations.append(dict(scenario=self.name, difference=b, dims={}))
        if n < self.minimum:
            total.undecided.append(f"only {n} rule instances, {self.minimum} expected")
        return pack(total, ["source"])
