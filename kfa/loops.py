"""Summaries of loops with symbolic bounds: one stream per modified location."""
from . import terms as T
from .terms import Poly, Lin, Blk, poly, atom, ONE, ZERO, lin_of_blk
from .facts import c_ge, is_int_poly
from . import arrays as A
from .arrays import num
from .values import *
from . import values as V
from . import interp as IN
from .interp import MISSING, NeedCarry, MISSINGVAR


class Mismatch(Exception):
    pass


# A snapshot is a structure whose leaves are states that do not depend on
# mutable objects: ("arr", St), ("num", Poly), ("tup", ...), ("nt", cls, ...),
# ("const", python object), ("list", ...), ("inst", cls, attrs)
def snap(it, v, serial0, depth=0):
    if depth > 6:
        raise Mismatch("depth")
    if isinstance(v, (bool, str)) or v is None or v is MISSINGVAR:
        return ("const", v)
    if isinstance(v, (int, float, Poly)):
        p = poly(v)
        return ("num", p, "i" if is_int_poly(p) else "f")
    if isinstance(v, Arr):
        if v.serial <= serial0 and v.base is None:
            return ("obj", v, it.read(v))
        st = it.read(v)
        return ("arr", st)
    if isinstance(v, tuple):
        return ("tup",) + tuple(snap(it, x, serial0, depth + 1) for x in v)
    if isinstance(v, NT):
        return ("nt", v.cls) + tuple(snap(it, x, serial0, depth + 1) for x in v.vals)
    if isinstance(v, ListV) and v.serial > serial0 and not isinstance(v.d["items"], (Seq, Marker)):
        return ("list",) + tuple(snap(it, x, serial0, depth + 1) for x in v.d["items"])
    if isinstance(v, Inst) and v.serial > serial0 and v.cls.native is None:
        ks = sorted(v.d)
        return ("inst", v.cls, tuple(ks)) + tuple(snap(it, v.d[k], serial0, depth + 1) for k in ks)
    if isinstance(v, Inst) and v.cls.native is None and 0 < len(v.d) <= 6:
        try:
            ks = sorted(v.d)
            return ("iobj", v, ("inst", v.cls, tuple(ks)) + tuple(snap(it, v.d[k], serial0, depth + 1) for k in ks))
        except (Mismatch, Undecided):
            pass
    if isinstance(v, BoolV):
        raise Mismatch("boolean")
    return ("const", v)


def leaves(s, path=()):
    k = s[0]
    if k in ("arr", "num"):
        return [(path, s)]
    if k == "obj":
        return [(path, ("arr", s[2]))]
    if k == "iobj":
        return leaves(s[2], path)
    if k == "tup" or k == "list":
        return [x for i, y in enumerate(s[1:]) for x in leaves(y, path + (i,))]
    if k == "nt":
        return [x for i, y in enumerate(s[2:]) for x in leaves(y, path + (i,))]
    if k == "inst":
        return [x for i, y in enumerate(s[3:]) for x in leaves(y, path + (i,))]
    return []


def unify(a, b):
    """Common template of two snapshots (contents of the first)."""
    if a[0] == "iobj" and b[0] == "iobj" and a[1] is b[1]:
        return a
    if a[0] == "iobj":
        a = a[2]
    if b[0] == "iobj":
        b = b[2]
    if a[0] == "const" or b[0] == "const":
        if a[0] == b[0] and (a[1] is b[1] or type(a[1]) is type(b[1]) and isinstance(a[1], (int, str, bool)) and a[1] == b[1]):
            return a
        raise Mismatch("constants differ")
    if a[0] == "obj" and b[0] == "obj":
        if a[1] is b[1]:
            return a
        a, b = ("arr", a[2]), ("arr", b[2])
    if a[0] == "obj":
        a = ("arr", a[2])
    if b[0] == "obj":
        b = ("arr", b[2])
    if a[0] == "num" and b[0] == "arr" and not b[1].shape:
        b = ("num", b[1].c, b[1].dtype)
    if b[0] == "num" and a[0] == "arr" and not a[1].shape:
        a = ("num", a[1].c, a[1].dtype)
    if a[0] != b[0]:
        raise Mismatch("kinds differ")
    k = a[0]
    if k == "num":
        return a if a[2] == "f" or b[2] == "i" else ("num", a[1], "f")
    if k == "arr":
        x, y = a[1], b[1]
        if len(x.shape) != len(y.shape) or any(poly(p) != poly(q) for p, q in zip(x.shape, y.shape)):
            raise Mismatch("shapes differ")
        return ("arr", St(x.shape, x.c, A.promote(x.dtype, y.dtype), x.mask))
    if len(a) != len(b):
        raise Mismatch("lengths differ")
    if k == "nt":
        if a[1] is not b[1]:
            raise Mismatch("classes differ")
        return ("nt", a[1]) + tuple(unify(x, y) for x, y in zip(a[2:], b[2:]))
    if k == "inst":
        if a[1] is not b[1] or a[2] != b[2]:
            raise Mismatch("classes differ")
        return ("inst", a[1], a[2]) + tuple(unify(x, y) for x, y in zip(a[3:], b[3:]))
    return (k,) + tuple(unify(x, y) for x, y in zip(a[1:], b[1:]))


def rebuild(s, leaf, path=(), state=False):
    """Value from a template; leaf(path, shape, dtype) -> content."""
    k = s[0]
    if k == "const":
        return s[1]
    if k == "num":
        c = leaf(path, (), s[2])
        return num(c)
    if k == "obj" or k == "iobj":
        return s[1]
    if k == "arr":
        st = s[1]
        mk = None if st.mask is None else ("none",)
        if st.dtype == "o":
            raise Undecided("object array carried through a loop")
        r = St(st.shape, leaf(path, st.shape, st.dtype), st.dtype, mk)
        return r if state else Arr(r)
    if k == "tup":
        return tuple(rebuild(y, leaf, path + (i,)) for i, y in enumerate(s[1:]))
    if k == "list":
        return ListV(tuple(rebuild(y, leaf, path + (i,)) for i, y in enumerate(s[1:])))
    if k == "nt":
        return NT(s[1], [rebuild(y, leaf, path + (i,)) for i, y in enumerate(s[2:])])
    if k == "inst":
        o = Inst(s[1])
        for i, (n, y) in enumerate(zip(s[2], s[3:])):
            o.d[n] = rebuild(y, leaf, path + (i,))
        return o
    raise AssertionError(k)


def elem(stream, idx):
    """Content stream[idx]."""
    idx = poly(idx)
    stream.used = True
    sh = stream.shape
    if any(A.is_time(s) for s in sh) or len(sh) > 2:
        if len(sh) == 0:
            pass
        else:
            raise Undecided("sequence carried through a loop")

    def mk(rows, cols):
        return atom("elem", stream, idx, *stream.outer, rows=rows, cols=cols, sym=bool(stream.sym and rows is not None and rows == cols),
                    extra="int" if stream.dtype == "i" and not sh else None)
    return A.elem_content(mk, sh)


def is_sym(c):
    if isinstance(c, Poly):
        return True
    if not isinstance(c, Blk):
        return False
    try:
        x = lin_of_blk(c)
        return x.rows == x.cols and x.T == x
    except Exception:
        return False


def content_same_shape(c):
    return c


class Loop:
    def __init__(self, it, lo, hi, desc, body, node):
        self.it, self.lo, self.hi, self.desc, self.body, self.node = it, poly(lo), poly(hi), desc, body, node
        self.serial0 = V._SERIAL[0]
        self.carried = set()
        self.linear = {}          # loc -> (start value, step)
        self.notlinear = set()
        self.nosym = set()
        self.streams = {}         # (loc, path) -> Stream
        it.loop_runs += 1
        time = A.is_time(self.hi) or A.is_time(self.lo)
        self.tau = T.sym(f"{'Tt' if time else 'k'}{it.loop_runs}", 0 if T.known_nonneg(self.lo) else None)
        self.tau_atom = next(iter(self.tau.atoms()))
        self.outer = it.loop_syms_atoms()
        self.site = it.where()

    # ---------------------------------------------------------- running
    def start(self):
        return self.hi - 1 if self.desc else self.lo

    def prev(self, i):
        return i + 1 if self.desc else i - 1

    def last(self):
        return self.lo if self.desc else self.hi - 1

    def locs_since(self, m):
        out = {}
        for obj, key, old in self.it.trail[m:]:
            if obj.serial <= self.serial0 and obj is not self.it.drawctr:
                out.setdefault((obj, key), old)
        return out

    def capture(self, m):
        """Snapshots of every pre-existing location changed since the mark."""
        it = self.it
        out = {}
        for (obj, key) in self.locs_since(m):
            if key not in obj.d:
                out[(obj, key)] = ("deleted",)
                continue
            v = obj.d[key]
            try:
                out[(obj, key)] = self.snap_loc(obj, key, v)
            except Mismatch as e:
                out[(obj, key)] = ("bad", str(e))
            except NeedCarry as e:
                if e.loc == (obj, key):
                    continue
                raise
        return out

    def snap_loc(self, obj, key, v):
        it = self.it
        if isinstance(v, Marker):
            return ("unchanged",)
        if isinstance(obj, Arr) and key == "st":
            st = v
            if isinstance(st.c, Seq):
                pre = self.pre_state.get((obj, key))
                if pre is not None and isinstance(pre.c, Seq) and st.c.base is pre.c.base and st.c.puts[:len(pre.c.puts)] == pre.c.puts:
                    new = st.c.puts[len(pre.c.puts):]
                    if st.dtype == "o":
                        new = [(i, snap(it, x, self.serial0)) for i, x in new]
                    return ("puts", tuple(new), st)
                return ("bad", "whole-sequence update")
            return ("arr", st)
        if isinstance(obj, ListV) and key == "items":
            pre = self.pre_state.get((obj, key))
            if isinstance(v, Seq):
                if isinstance(pre, Seq) and v.base is pre.base and v.puts[:len(pre.puts)] == pre.puts:
                    new = v.puts[len(pre.puts):]
                    return ("append", tuple((i, snap(it, x, self.serial0)) for i, x in new), v.length - pre.length)
                return ("bad", "list update")
            if isinstance(pre, tuple) and v[:len(pre)] == pre or isinstance(pre, tuple) and len(v) >= len(pre) and all(x is y for x, y in zip(pre, v)):
                new = v[len(pre):]
                return ("append", tuple((poly(len(pre) + i), snap(it, x, self.serial0)) for i, x in enumerate(new)), poly(len(new)))
            return ("bad", "list update")
        if key in ("items",) and isinstance(obj, (DictV, SetV, Inst)):
            if isinstance(v, dict):
                return ("bad", "dictionary update")
            return ("bad", "container update")
        return snap(it, v, self.serial0)

    def run(self, idx, setup, pre=()):
        it = self.it

        def go():
            m0 = it.mark()
            setup()
            m = it.mark()
            saved = getattr(it, "iter_mark", 0)
            it.iter_mark = m
            it.loop_syms.append(poly(idx))
            try:
                self.body(idx)
            except (IN.Break,):
                raise Undecided("break out of a symbolic loop")
            except IN.Return:
                raise Undecided("return out of a symbolic loop")
            except PyRaise as e:
                return ("raise", e.exc)
            finally:
                it.loop_syms.pop()
                it.iter_mark = saved
            it.iter_mark = m
            try:
                return ("ok", self.capture(m))
            finally:
                it.iter_mark = saved
        syms = [next(iter(poly(idx).atoms()))] if idx is self.tau else []
        res = it.explore(go, syms, pre)
        for asm, r in res:
            if r[0] == "raise":
                if len(res) == 1:
                    raise PyRaise(r[1])
                raise Undecided("conditional exception in a loop")
        return [(asm, r[1]) for asm, r in res]

    # ---------------------------------------------------------- main
    def summarise(self):
        it = self.it
        if not A.d_le(self.lo, self.hi - 1):
            return
        if (self.hi - self.lo) == ONE or it.known(c_ge(self.lo + 1 - self.hi)):
            self.once()
            return
        self.pre_values = {}
        first = self.first_region()
        generic = None
        two = A.d_le(self.lo + 1, self.hi - 1)     # a second iteration exists
        if not two:
            self.once()
            return
        for _ in range(40):
            try:
                generic = self.generic_region(first)
            except NeedCarry as e:
                if e.loc in self.carried or not self.mine(e.loc):
                    raise
                self.carried.add(e.loc)
                continue
            if generic is not None:
                break
        else:
            raise Undecided("loop summary does not stabilise")
        self.finish(first, generic)

    def mine(self, loc):
        return loc in self.mod

    def once(self):
        it = self.it
        it.loop_syms.append(poly(self.start()))
        try:
            self.body(self.start())
        except IN.Break:
            pass
        finally:
            it.loop_syms.pop()

    def first_region(self):
        self.pre_state = PreState(self.it)
        first = self.run(self.start(), lambda: None)
        self.mod = {}
        for asm, d in first:
            for loc in d:
                self.mod.setdefault(loc, loc[0].d.get(loc[1], MISSING))
        return first

    def offset(self, loc, cases, i):
        """Common write offset of a sequence location over the given cases."""
        offs = set()
        for asm, d in cases:
            s = d.get(loc)
            if s is None or s[0] == "unchanged":
                continue
            if s[0] != "puts":
                return None
            for idx, v in s[1]:
                offs.add(poly(idx) - poly(i))
        return offs

    def generic_region(self, first):
        it = self.it
        # classify the locations
        self.seqs, self.lists = {}, {}
        for loc, old in self.mod.items():
            obj, key = loc
            if isinstance(obj, Arr) and key == "st" and isinstance(old, St) and isinstance(old.c, Seq):
                offs = self.offset(loc, first, self.start()) or set()
                offs |= self.offs_gen.get(loc, set()) if hasattr(self, "offs_gen") else set()
                if len(offs) == 1:
                    self.seqs[loc] = next(iter(offs))
                elif len(offs) > 1:
                    raise Undecided("sequence written at two offsets")
            elif isinstance(obj, ListV) and key == "items":
                k = {d[loc][2] for asm, d in first if loc in d and d[loc][0] == "append"}
                if len(k) == 1 and next(iter(k)) == ONE and all(loc in d and d[loc][0] == "append" for asm, d in first):
                    self.lists[loc] = old
        tau = self.tau
        lo, hi = self.lo, self.hi
        toks = [tau - lo, hi - 1 - tau, (hi - 2 - tau) if self.desc else (tau - lo - 1)]
        for p in toks:
            it.facts.push(p)
        pre = {}
        try:
            def setup():
                for loc, old in self.mod.items():
                    obj, key = loc
                    v = self.pre_value(loc, old, first)
                    it.put(obj, key, v)
            cases = self.run(tau, setup)
        finally:
            it.facts.pop(len(toks))
        # new locations?
        again = False
        for asm, d in cases:
            for loc in d:
                if loc not in self.mod:
                    self.mod[loc] = loc[0].d.get(loc[1], MISSING)
                    again = True
        if not hasattr(self, "offs_gen"):
            self.offs_gen = {}
        for loc, old in self.mod.items():
            obj, key = loc
            if isinstance(obj, Arr) and key == "st" and isinstance(old, St) and isinstance(old.c, Seq):
                offs = self.offset(loc, cases, tau)
                if offs is None:
                    continue
                if offs - self.offs_gen.get(loc, set()):
                    self.offs_gen[loc] = self.offs_gen.get(loc, set()) | offs
                    if loc not in self.seqs or offs != {self.seqs[loc]}:
                        again = True
        if again:
            return None
        # verify the hypotheses
        for loc in list(self.linear):
            v0, d = self.linear[loc]
            for asm, c in cases:
                s = c.get(loc)
                end = s[1] if s is not None and s[0] == "num" else None
                if s is None or s[0] == "unchanged":
                    end = self.lin_at(v0, d, tau)
                if end is None or end != self.lin_at(v0, d, tau) + d:
                    self.notlinear.add(loc)
                    del self.linear[loc]
                    return None
        templates = {}
        for loc in self.mod:
            try:
                templates[loc] = self.template(loc, first, cases)
            except Mismatch as e:
                if loc in self.carried or loc in self.lists:
                    raise Undecided(f"loop-carried value changes shape: {loc[1]} ({e})")
                templates[loc] = None
        if getattr(self, "templates", None) is None or not self.same_templates(templates):
            self.templates = templates
            stale = any(loc in self.carried or loc in self.lists or loc in self.seqs for loc in templates)
            if stale and not getattr(self, "checked", None) == self.tkeys(templates):
                self.checked = self.tkeys(templates)
                return None
        # symmetry hypotheses
        bad = False
        for key, s in self.streams.items():
            if not s.sym:
                continue
            loc, path = key
            for region, cs in (("first", first), ("generic", cases)):
                for asm, d in cs:
                    c = self.leaf_content(loc, path, d, region)
                    if c is not None and not is_sym(c):
                        self.nosym.add(key)
                        bad = True
                        break
        if bad:
            self.streams = {}
            return None
        return cases

    def tkeys(self, templates):
        return {(loc[0].serial, str(loc[1])): (None if t is None else tuple((p, l[0], tuple(l[1].shape) if l[0] == "arr" else (), l[1].dtype if l[0] == "arr" else l[2]) for p, l in leaves(t))) for loc, t in templates.items()}

    def same_templates(self, t):
        return self.tkeys(self.templates) == self.tkeys(t)

    def lin_at(self, v0, d, tau):
        return v0 + d * ((tau - self.lo) if not self.desc else (self.hi - 1 - tau))

    def template(self, loc, first, cases):
        t = None
        for region, cs in (("first", first), ("generic", cases)):
            for asm, d in cs:
                s = d.get(loc)
                if s is None or s[0] == "unchanged":
                    if loc in self.seqs or loc in self.lists:
                        continue
                    if region == "first":
                        old = self.mod[loc]
                        if old is MISSING or isinstance(old, Marker):
                            raise Mismatch("undefined in the first iteration")
                        if isinstance(loc[0], Arr):
                            s = ("arr", old)
                        else:
                            s = snap(self.it, old, self.serial0)
                    else:
                        continue
                if s[0] == "bad" or s[0] == "deleted":
                    raise Mismatch(s[-1])
                if s[0] == "puts":
                    x = s[2]
                    if x.dtype == "o":
                        if not s[1]:
                            continue
                        s = s[1][-1][1]
                    else:
                        s = ("arr", St(x.shape[1:], None, x.dtype, None))
                elif s[0] == "append":
                    if len(s[1]) != 1:
                        raise Mismatch("several appends per iteration")
                    s = s[1][0][1]
                t = s if t is None else unify(t, s)
        return t

    def guess_template(self, loc, first):
        t = getattr(self, "templates", {}) or {}
        if t.get(loc) is not None:
            return t[loc]
        try:
            return self.template(loc, first, [])
        except Mismatch as e:
            raise Undecided(f"loop-carried value changes shape: {loc[1]} ({e})")

    def stream(self, loc, path, shape, dtype):
        key = (loc, path)
        s = self.streams.get(key)
        if s is not None and (tuple(s.shape) != tuple(shape) or s.dtype != dtype):
            s = None
        if s is None:
            name = self.loc_name(loc) + "".join(f".{i}" for i in path)
            s = Stream(name, tuple(shape), dtype, self.desc, self.site, self.tau_atom, self.outer)
            sq = len(shape) == 2 and poly(shape[0]) == poly(shape[1])
            s.sym = sq and key not in self.nosym
            self.streams[key] = s
        return s

    def loc_name(self, loc):
        obj, key = loc
        if isinstance(obj, Frame):
            return str(key)
        f = self.frame_names().get(obj.serial)
        return f or f"{type(obj).__name__}{obj.serial}.{key}"

    def frame_names(self):
        out = {}
        f = getattr(self.it, "cur_frame", None)
        if f is not None:
            for k, v in f.d.items():
                if isinstance(v, Obj):
                    out[v.serial] = k
                if isinstance(v, NT):
                    for n, x in zip(v.cls.fields, v.vals):
                        if isinstance(x, Obj):
                            out[x.serial] = f"{k}.{n}"
        return out

    def pre_value(self, loc, old, first):
        """Value of a location at the start of the generic iteration."""
        obj, key = loc
        tau = self.tau
        if loc in self.seqs:
            c = self.seqs[loc]
            pre = old.c
            shape = old.shape
            t = self.guess_template(loc, first)
            wlo, whi = (tau + 1 + c, self.hi + c) if self.desc else (self.lo + c, tau + c)
            if old.dtype == "o":
                return St(shape, Seq(pre.length, self.obj_get(loc, t, wlo, whi, pre)), "o", old.mask)
            s = self.stream(loc, (), shape[1:], old.dtype)
            return St(shape, Seq(pre.length, lambda i: layered(i, wlo, whi, s, pre)), old.dtype, old.mask)
        if loc in self.lists:
            t = self.guess_template(loc, first)
            n0 = old.length if isinstance(old, Seq) else poly(len(old))
            cnt = (tau - self.lo) if not self.desc else (self.hi - 1 - tau)
            mkleaf = lambda i: (lambda path, shape, dtype: elem(self.stream(loc, path, shape, dtype), i))
            pre_items = old

            def get(i):
                if A.d_le(i, n0 - 1):
                    return A.seq_get(pre_items, i) if isinstance(pre_items, Seq) else A.pick(pre_items, i)
                k = i - n0
                return rebuild(t, mkleaf(self.lo + k if not self.desc else self.hi - 1 - k))
            return Seq(n0 + cnt, get)
        if loc in self.carried:
            # integer induction variable?
            if isinstance(old, (int, Poly)) and not isinstance(old, bool) and loc not in self.notlinear and is_int_poly(poly(old)):
                if loc in self.linear:
                    v0, d = self.linear[loc]
                    return num(self.lin_at(v0, d, tau))
                ends = {d[loc][1] if loc in d and d[loc][0] == "num" else None for asm, d in first}
                if len(ends) == 1 and None not in ends:
                    step = next(iter(ends)) - poly(old)
                    if step.is_const():
                        self.linear[loc] = (poly(old), step)
                        return num(self.lin_at(poly(old), step, tau))
                self.notlinear.add(loc)
            t = self.guess_template(loc, first)
            i = self.prev(tau)
            return rebuild(t, lambda path, shape, dtype: elem(self.stream(loc, path, shape, dtype), i), state=isinstance(obj, Arr))
        return Marker(loc)

    def leaf_content(self, loc, path, d, region):
        """Content of a stream leaf at the end of one case (None when not applicable)."""
        s = d.get(loc)
        if loc in self.seqs:
            c = self.seqs[loc]
            i = self.start() if region == "first" else self.tau
            o = self.mod[loc].dtype == "o"
            if s is None or s[0] == "unchanged" or not s[1]:
                v = A.seq_get(self.mod[loc].c, i + c)
                if not o:
                    return v
                v = snap(self.it, v, self.serial0)
            else:
                v = s[1][-1][1]
            if not o:
                return v
            for p, l in leaves(v):
                if p == path:
                    return l[1].c if l[0] == "arr" else l[1]
            return None
        if loc in self.lists:
            s = s[1][0][1]
        if s is None or s[0] == "unchanged":
            if region == "generic":
                i = self.prev(self.tau)
                st = self.streams.get((loc, path))
                return elem(st, i) if st is not None else None
            old = self.mod[loc]
            s = ("arr", old) if isinstance(loc[0], Arr) else snap(self.it, old, self.serial0)
        for p, l in leaves(s):
            if p == path:
                return l[1].c if l[0] == "arr" else l[1]
        return None

    def finish(self, first, cases):
        it = self.it
        self.final = {}
        last = self.last()
        for loc, old in self.mod.items():
            obj, key = loc
            t = self.templates.get(loc)
            if loc in self.seqs:
                c = self.seqs[loc]
                pre = old.c
                if old.dtype == "o":
                    for p, l in leaves(t):
                        self.fill(self.stream(loc, p, l[1].shape if l[0] == "arr" else (), l[1].dtype if l[0] == "arr" else l[2]), loc, p, first, cases, c)
                    it.put(obj, key, St(old.shape, Seq(pre.length, self.obj_get(loc, t, self.lo + c, self.hi + c, pre)), "o", old.mask))
                    continue
                s = self.stream(loc, (), old.shape[1:], old.dtype)
                s = self.fill(s, loc, (), first, cases, c)
                it.put(obj, key, St(old.shape, Seq(pre.length, (lambda s, pre, a, b: lambda i: layered(i, a, b, s, pre))(s, pre, self.lo + c, self.hi + c)), old.dtype, old.mask))
                if obj.owner is not None:
                    it.effect("write", obj.owner)
                continue
            if loc in self.lists:
                n0 = old.length if isinstance(old, Seq) else poly(len(old))
                for p, l in leaves(t):
                    self.fill(self.stream(loc, p, l[1].shape if l[0] == "arr" else (), l[1].dtype if l[0] == "arr" else l[2]), loc, p, first, cases, ZERO)
                it.put(obj, key, Seq(n0 + self.hi - self.lo, self.list_get(loc, t, old, n0)))
                continue
            if loc in self.linear:
                v0, d = self.linear[loc]
                it.put(obj, key, num(v0 + d * (self.hi - self.lo)))
                continue
            if t is None:
                it.put(obj, key, Marker(loc, force=no_summary(key)))
                continue
            ok = True
            for p, l in leaves(t):
                shape = l[1].shape if l[0] == "arr" else ()
                if len(shape) > 2 or any(A.is_time(x) for x in shape) or (l[0] == "arr" and (l[1].dtype == "o")):
                    ok = False
            if not ok:
                if loc in self.carried:
                    raise Undecided("sequence carried through a loop")
                it.put(obj, key, Marker(loc, force=no_summary(key)) if not isinstance(obj, Arr) else Marker(loc))
                continue
            for p, l in leaves(t):
                self.fill(self.stream(loc, p, l[1].shape if l[0] == "arr" else (), l[1].dtype if l[0] == "arr" else l[2]), loc, p, first, cases, ZERO)
            v = rebuild(t, lambda path, shape, dtype: elem(self.stream(loc, path, shape, dtype), last), state=isinstance(obj, Arr))
            it.put(obj, key, v)

    def obj_get(self, loc, t, wlo, whi, pre):
        def get(i):
            i = poly(i)
            if A.d_le(wlo, i) and A.d_le(i, whi - 1):
                return rebuild(t, lambda path, shape, dtype: elem(self.stream(loc, path, shape, dtype), i))
            return A.seq_get(pre, i)
        return get

    def list_get(self, loc, t, old, n0):
        def get(i):
            i = poly(i)
            if A.d_le(i, n0 - 1):
                return A.seq_get(old, i) if isinstance(old, Seq) else A.pick(old, i)
            k = i - n0
            j = self.lo + k if not self.desc else self.hi - 1 - k
            return rebuild(t, lambda path, shape, dtype: elem(self.stream(loc, path, shape, dtype), j))
        return get

    def fill(self, s, loc, path, first, cases, shift):
        fresh = not s.used
        s.shift = shift
        s.lo, s.hi = self.lo, self.hi
        s.start = self.start()
        s.cases = []
        for region, cs in (("first", first), ("generic", cases)):
            for asm, d in cs:
                c = self.leaf_content(loc, path, d, region)
                if c is None:
                    raise Undecided("missing stream content")
                s.cases.append((region, tuple(asm), c))
        if s.sym and not all(is_sym(c) for _, _, c in s.cases):
            if not fresh:
                raise Undecided("symmetry hypothesis refuted late")
            self.nosym.add((loc, path))
            self.streams.pop((loc, path), None)
            return self.fill(self.stream(loc, path, s.shape, s.dtype), loc, path, first, cases, shift)
        self.it.streams.append(s)
        return s


def no_summary(key):
    def f():
        raise Undecided(f"value of {key} after a symbolic loop")
    return f


def layered(i, wlo, whi, s, pre):
    i = poly(i)
    if A.d_le(wlo, i) and A.d_le(i, whi - 1):
        return elem(s, i)
    return A.seq_get(pre, i)


class PreState:
    """Value of a location at the start of the current iteration."""

    def __init__(self, it):
        self.it = it

    def get(self, loc):
        obj, key = loc
        v = obj.d.get(key, MISSING)
        for o, k, old in reversed(self.it.trail[self.it.iter_mark:]):
            if o is obj and k == key:
                v = old
        return v


def sym_loop(it, lo, hi, desc, body, node):
    Loop(it, lo, hi, desc, body, node).summarise()
