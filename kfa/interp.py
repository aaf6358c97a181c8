"""Abstract interpreter: resolved Python program -> value graph.

Loops with symbolic bounds are summarised once (streams); conditions that are
not decided by the facts partition the trace.  Nothing of the analysed program
is executed.
"""
import ast
import os
from fractions import Fraction
from . import terms as T
from .terms import Poly, Lin, Blk, poly, atom, of_atom, scalar_lin, blk, ONE, ZERO
from .facts import Facts, Cond, c_ge, c_eq, c_atom, is_int_poly, is_int_atom
from . import arrays as A
from .values import *
from .arrays import num

MISSING = object()


class Snaps(list):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class NeedCarry(Exception):
    def __init__(self, loc):
        self.loc = loc


class Abort(Exception):
    """Path is infeasible."""


EXC = {}


def _exc(name, base):
    c = ClassV(name, [EXC[base]] if base else [], {}, native="exception")
    EXC[name] = c
    return c


for _n, _b in [("BaseException", None), ("Exception", "BaseException"), ("ValueError", "Exception"),
               ("TypeError", "Exception"), ("KeyError", "Exception"), ("IndexError", "Exception"),
               ("LookupError", "Exception"), ("AttributeError", "Exception"), ("AssertionError", "Exception"), ("ArithmeticError", "Exception"),
               ("ZeroDivisionError", "Exception"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"), ("OSError", "Exception"), ("FileNotFoundError", "OSError"),
               ("LinAlgError", "ValueError"), ("Warning", "Exception"), ("UserWarning", "Warning"), ("RuntimeWarning", "Warning"),
               ("DeprecationWarning", "Warning"), ("FutureWarning", "Warning"), ("NameError", "Exception"), ("ImportError", "Exception"),
               ("StopIteration", "Exception"), ("UFuncTypeError", "TypeError"), ("ModuleNotFoundError", "ImportError")]:
    _exc(_n, _b)

OBJECT = ClassV("object", [], {})
BUILTIN_CLASSES = {n: ClassV(n, [], {}, native=n) for n in ("dict", "list", "tuple", "int", "float", "str", "bool", "set", "type", "slice", "frozenset", "complex", "ndarray", "MaskedArray", "RandomState", "Generator")}


class Interp:
    def __init__(self, loader, limits=None):
        self.loader = loader
        self.trail = []
        self.facts = Facts()
        self.assumed = []            # list of (cond, bool)
        self.assumed_map = {}
        self.effects = {}
        self.events = []
        self.loop_syms = []          # active summarised-loop symbols
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.stack = []              # (function name, file)
        self.loc = ("?", 0)
        self.binders = 0
        self.fresh = 0
        self.loop_runs = 0
        self.streams = []
        self.called = set()
        self.drawctr = Obj()
        self.notes = set()
        self.sites = {}
        A.I[0] = self
        T.FACTS[0] = self.facts.nonneg

    # ------------------------------------------------------------ state
    def put(self, obj, key, val):
        self.trail.append((obj, key, obj.d.get(key, MISSING)))
        obj.d[key] = val

    def delete(self, obj, key):
        self.trail.append((obj, key, obj.d.get(key, MISSING)))
        obj.d.pop(key, None)

    def mark(self):
        return len(self.trail)

    def rollback(self, mark):
        while len(self.trail) > mark:
            obj, key, old = self.trail.pop()
            if old is MISSING:
                obj.d.pop(key, None)
            else:
                obj.d[key] = old

    def effect(self, what, target, detail=""):
        self.effects[(what, target, self.where(), detail)] = True

    def drawn(self, rng):
        self.effects[("draw", str(rng.prov), self.where(), rng.serial)] = True

    def reseeded(self, rng):
        self.effects[("reseed", str(rng.prov), self.where(), rng.serial)] = True

    def where(self):
        f, l = self.loc
        fn = self.stack[-1] if self.stack else "<module>"
        return f"{f}:{l} in {fn}"

    # ------------------------------------------------------------ decisions
    env = None        # numeric environment while a value graph is evaluated

    def decide(self, c):
        if self.env is not None:
            return self.env.cond(c)
        r = self.known(c)
        if r is None:
            raise NeedSplit(c)
        return r

    def known(self, c):
        if self.env is not None:
            return self.env.cond(c)
        op, p = c.op, c.p
        if op == "ge":
            if p.is_const():
                return p.const() >= 0
            if self.facts.nonneg(p):
                return True
            if self.facts.nonneg(-p - 1) if is_int_poly(p) else self.facts.nonneg(-p) and False:
                return False
        elif op == "eq":
            if p.is_const():
                return p.is_zero()
            if is_int_poly(p):
                if self.facts.nonneg(p - 1) or self.facts.nonneg(-p - 1):
                    return False
                if self.facts.nonneg(p) and self.facts.nonneg(-p):
                    return True
        elif op == "pos":
            if p.is_const():
                return p.const() > 0
            if is_int_poly(p):
                return self.known(c_ge(p - 1))
            if positive(p):
                return True
            if positive(-p):
                return False
        r = self.assumed_map.get(c)
        if r is not None:
            return r
        if op == "atom":
            k = p.kind
            if k == "allmask":
                if self.assumed_map.get(c_atom("anymask", *p.args)) is False:
                    return False
            elif k == "anymask":
                if self.assumed_map.get(c_atom("allmask", *p.args)) is True:
                    return True
        return None

    def assume(self, c, val):
        """Push an assumption; returns a token for unassume."""
        n = 0
        if c.op == "ge" and is_int_poly(c.p):
            self.facts.push(c.p if val else -c.p - 1)
            n = 1
        elif c.op == "eq" and is_int_poly(c.p):
            if val:
                self.facts.push(c.p)
                self.facts.push(-c.p)
                n = 2
            elif self.facts.nonneg(c.p):
                self.facts.push(c.p - 1)
                n = 1
            elif self.facts.nonneg(-c.p):
                self.facts.push(-c.p - 1)
                n = 1
        elif c.op == "pos" and is_int_poly(c.p):
            self.facts.push(c.p - 1 if val else -c.p)
            n = 1
        self.assumed.append((c, val))
        old = self.assumed_map.get(c, MISSING)
        self.assumed_map[c] = val
        return (n, c, old)

    def unassume(self, tok):
        n, c, old = tok
        self.facts.pop(n)
        self.assumed.pop()
        if old is MISSING:
            self.assumed_map.pop(c, None)
        else:
            self.assumed_map[c] = old

    def explore(self, fn, syms, pre=()):
        """Run fn under every assignment of the conditions it needs that depend
        on the given local symbols: [(assumptions, value)]."""
        work = [tuple(pre)]
        out = []
        runs = 0
        while work:
            asm = work.pop()
            runs += 1
            if runs > 96:
                raise Undecided("too many cases")
            m = self.mark()
            toks = []
            loop0 = list(self.loop_syms)
            stack0 = list(self.stack)
            depth0, binders0 = self.depth, self.binders
            try:
                for c, v in asm:
                    toks.append(self.assume(c, v))
                if asm and not self.facts.feasible():
                    continue
                v = fn()
                out.append((asm, v))
            except NeedSplit as e:
                if not any(s in T.collect_atoms(e.cond) for s in syms):
                    raise
                work.append(asm + ((e.cond, False),))
                work.append(asm + ((e.cond, True),))
            finally:
                self.rollback(m)
                for t in reversed(toks):
                    self.unassume(t)
                self.loop_syms = loop0
                self.stack = stack0
                self.depth, self.binders = depth0, binders0
        if not out:
            raise Abort()
        return out

    def loop_syms_atoms(self):
        """Symbols of the enclosing summarised iterations (as polynomials)."""
        out = {}
        for p in self.loop_syms:
            for a in p.atoms():
                if a.kind == "sym" and str(a.args[0])[0] in "Tki" and str(a.args[0]) not in self.dim_names:
                    out[a] = True
        return tuple(poly(a) for a in out)

    dim_names = ()

    def sym_loop(self, lo, hi, desc, body, node):
        from .loops import sym_loop
        sym_loop(self, lo, hi, desc, body, node)

    def binder(self, lo, hi):
        """A bound symbol ranging over [lo, hi)."""
        s = T.sym(f"i{self.binders}", 0)
        a = next(iter(s.atoms()))
        self.binders += 1
        self.facts.push(poly(hi) - 1 - s)
        self.facts.push(s - poly(lo))

        def done():
            self.facts.pop(2)
            self.binders -= 1
        return a, done

    def throw(self, name, *args):
        cls = EXC.get(name) or EXC["Exception"]
        e = Inst(cls)
        e.d["args"] = tuple(args)
        raise PyRaise(e)

    # ------------------------------------------------------------ numbers
    def as_poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return poly(int(v))
        if isinstance(v, (int, float, Fraction)):
            return poly(v)
        if isinstance(v, Arr):
            st = self.read(v)
            if not st.shape:
                return st.c
            return A.squeeze_to_scalar(st).c
        if isinstance(v, BoolV):
            return poly(int(self.truth(v)))
        raise Undecided(f"number expected, got {type(v).__name__}")

    def is_number(self, v):
        return isinstance(v, (int, float, Poly, Fraction)) and not isinstance(v, bool)

    # ------------------------------------------------------------ arrays
    def read(self, a):
        if a.base is None:
            st = a.d["st"]
            if isinstance(st, Marker):
                raise NeedCarry(st.loc)
            return st
        st = a.op[0](self.read(a.base))
        if "mask_over" in a.d:
            return St(st.shape, st.c, st.dtype, a.d["mask_over"])
        return st

    def write(self, a, st):
        """Replace the contents of an array handle (through views)."""
        if a.base is None:
            if a.owner is not None:
                self.effect("write", a.owner)
            self.put(a, "st", st)
        else:
            base = self.read(a.base)
            self.write(a.base, a.op[1](base, st))

    def root(self, a):
        while a.base is not None:
            a = a.base
        return a

    def new(self, st):
        return Arr(st)

    def view(self, a, getter, setter):
        return Arr(None, base=a, op=(getter, setter))

    def to_st(self, v):
        """Array state of any array-like value."""
        if isinstance(v, Arr):
            return self.read(v)
        if isinstance(v, bool):
            return St((), poly(int(v)), "b")
        if isinstance(v, int):
            return St((), poly(v), "i")
        if isinstance(v, float):
            return St((), poly(v), "f")
        if isinstance(v, Poly):
            return St((), v, "i" if is_int_poly(v) else "f")
        if isinstance(v, Fraction):
            return St((), poly(v), "f")
        if isinstance(v, (ListV, tuple)):
            items = v.d["items"] if isinstance(v, ListV) else v
            return self.list_state(items)
        if isinstance(v, NT):
            return self.list_state(v.vals)
        if isinstance(v, BoolV):
            return St((), poly(int(self.truth(v))), "b")
        if isinstance(v, (SRange, range)):
            it = self.iterate(v)
            if isinstance(it, list):
                return self.list_state(tuple(it))
            lo, hi, desc, get = it
            return A.demote(St((hi - lo,), Seq(hi - lo, lambda i: i + lo), "i"))
        if isinstance(v, (OpaqueFn, FuncV, Native, Inst, ClassV, BoundM)) or v is None:
            return St((), ("obj", v), "o")
        raise Undecided(f"array-like of {type(v).__name__}")

    def list_state(self, items):
        if isinstance(items, Seq):
            probe = self.seq_list_shape(items)
            if probe is None:
                return St((items.length,), items, "o")
            shape = (items.length,) + probe[0]
            q = Seq(items.length, lambda i: self.to_st(A.seq_get(items, i)).c)
            if A.kind(shape) in ("v", "m"):
                return St(shape, A.lam_content(shape, q), probe[1])
            return St(shape, q, probe[1])
        if not items:
            return St((ZERO,), A.fill((ZERO,), 0), "f")
        sts = [self.to_st(x) for x in items]
        if any(s.dtype == "o" for s in sts):
            cs = [x for x in items]
            if any(len(s.shape) for s in sts):
                raise Undecided("nested object array")
            return St((poly(len(items)),), Seq(poly(len(items)), lambda i: A.pick(cs, i)), "o")
        return A.stack_list(sts)

    def seq_list_shape(self, q):
        """(element shape, dtype) of a symbolic list of arrays, None for objects."""
        s, done = self.binder(ZERO, q.length)
        try:
            res = self.explore(lambda: self.to_st(A.seq_get(q, poly(s))), [s])
        finally:
            done()
        shapes = {tuple(st.shape) for _, st in res}
        if len(shapes) != 1:
            raise Undecided("ragged list")
        dt = res[0][1].dtype
        for _, st in res[1:]:
            dt = A.promote(dt, st.dtype)
        if dt == "o":
            return None
        return shapes.pop(), dt

    def wrap(self, st):
        """Array or scalar value from a state (rank 0 becomes a scalar)."""
        if not st.shape:
            if st.dtype == "o":
                return st.c[1] if isinstance(st.c, tuple) and st.c and st.c[0] == "obj" else st.c
            if st.mask is not None and st.mask != ("none",):
                return Arr(st)
            return num(st.c) if is_int_poly(st.c) else st.c
        return Arr(st)

    def wrap0(self, st):
        return Arr(st)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Fraction):
            return bool(v)
        if isinstance(v, BoolV):
            r = self.decide(v.cond)
            return (not r) if v.neg else r
        if isinstance(v, Poly):
            if v.is_const():
                return not v.is_zero()
            return not self.decide(c_eq(v))
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, NT):
            return True
        if isinstance(v, (ListV, SetV)):
            it = v.d["items"]
            if isinstance(it, Seq):
                return self.decide(c_ge(it.length - 1))
            return len(it) > 0
        if isinstance(v, DictV):
            return len(v.d["items"]) > 0
        if isinstance(v, Arr):
            st = self.read(v)
            n = ONE
            for s in st.shape:
                n = n * poly(s)
            if n == ONE:
                return self.truth(self.wrap(A.St((), A.squeeze_to_scalar(st).c, st.dtype)))
            if n.is_const() and n.is_zero():
                return False
            if not n.is_const() and self.decide(c_eq(n - 1)):
                return self.truth(self.wrap(A.St((), A.squeeze_to_scalar(st).c, st.dtype)))
            self.throw("ValueError", "The truth value of an array with more than one element is ambiguous.")
        if isinstance(v, MaskV):
            if v.term == ("false",):
                return False
            raise Undecided("truth of a mask")
        if isinstance(v, (range,)):
            return len(v) > 0
        if isinstance(v, SRange):
            return self.decide(c_ge(v.hi - v.lo - 1))
        if isinstance(v, Inst):
            f = v.cls.lookup("__bool__") or v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundM(v, f), [], {}))
            if "items" in v.d and v.cls.native == "dict":
                return len(v.d["items"]) > 0
            return True
        return True

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """list of values, or (lo, hi, desc, get) for a symbolic range."""
        if isinstance(v, Marker):
            raise NeedCarry(v.loc)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, NT):
            return list(v.vals)
        if isinstance(v, range):
            if len(v) > 4000:
                raise Undecided("long range")
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ListV) or isinstance(v, SetV):
            it = v.d["items"]
            if isinstance(it, Seq):
                return self.sym_iter(ZERO, it.length, False, lambda i: A.seq_get(it, i))
            return list(it)
        if isinstance(v, DictV):
            return list(v.d["items"].keys())
        if isinstance(v, Inst) and v.cls.native == "dict":
            return list(v.d["items"].keys())
        if isinstance(v, SRange):
            return self.sym_iter(v.lo, v.hi, v.desc, lambda i: num(i))
        if isinstance(v, SymIter):
            return v.norm(self)
        if isinstance(v, Arr):
            st = self.read(v)
            if not st.shape:
                self.throw("TypeError", "iteration over a 0-d array")
            n = poly(st.shape[0])
            if n.is_const():
                return [self.getitem(v, k) for k in range(int(n.const()))]
            return (ZERO, n, False, lambda i: self.getitem(v, num(i)))
        if isinstance(v, Inst):
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(BoundM(v, f), [], {}))
            self.throw("TypeError", f"'{v.cls.name}' object is not iterable")
        if v is None or isinstance(v, (int, float, Poly, BoolV, FuncV, Native, OpaqueFn)):
            self.throw("TypeError", "object is not iterable")
        raise Undecided(f"iteration over {type(v).__name__}")

    def sym_iter(self, lo, hi, desc, get):
        lo, hi = poly(lo), poly(hi)
        n = hi - lo
        if n.is_const():
            k = max(0, int(n.const()))
            idx = [lo + i for i in range(k)]
            if desc:
                idx.reverse()
            return [get(i) for i in idx]
        return (lo, hi, desc, get)

    def concrete(self, v):
        it = self.iterate(v)
        if isinstance(it, tuple):
            raise Undecided("symbolic iteration")
        return it

    def unpack(self, v, n, star=None):
        if isinstance(v, Arr):
            st = self.read(v)
            if not st.shape:
                self.throw("TypeError", "cannot unpack")
            k = poly(st.shape[0])
            if star is None and k != poly(n) and not A.d_eq(k, n):
                self.throw("ValueError", "unpack mismatch")
            if star is None:
                return [self.getitem(v, i) for i in range(n)]
        items = self.iterate(v)
        if isinstance(items, tuple):
            if star is not None:
                raise Undecided("starred unpacking")
            if not A.d_eq(items[1] - items[0], n):
                self.throw("ValueError", "unpack mismatch")
            return [items[3](items[0] + i) for i in range(n)]
        if star is None and len(items) != n:
            self.throw("ValueError", f"unpack mismatch (expected {n}, got {len(items)})")
        return items

    # ------------------------------------------------------------ names
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.d and not (f is not frame and getattr(f, "is_class", False)):
                v = f.d[name]
                if isinstance(v, Marker):
                    if v.force is not None:
                        return v.force()
                    raise NeedCarry(v.loc)
                return v
            f = f.parent
        from . import npmodel
        if name in npmodel.BUILTINS:
            return npmodel.BUILTINS[name]
        self.throw("NameError", f"name '{name}' is not defined")

    def owner_frame(self, frame, name):
        if name in frame.globals_decl:
            f = frame
            while f.parent is not None:
                f = f.parent
            return f
        if name in frame.nonlocal_decl:
            f = frame.parent
            while f is not None and name not in f.d:
                f = f.parent
            return f
        return frame

    def setname(self, frame, name, v):
        f = self.owner_frame(frame, name)
        if f.parent is None and f is not frame:
            self.effect("global", f"{f.module}.{name}")
        self.put(f, name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and i + 1 < len(stmts) and self.ends(s):
                self.exec_if(s, frame, stmts[i + 1:])
                return
            self.exec(s, frame)

    def ends(self, s):
        """An if statement with a return in one of its branches."""
        def last(b):
            return b and (isinstance(b[-1], ast.Return) or isinstance(b[-1], ast.If) and (last(b[-1].body) or last(b[-1].orelse)))
        return last(s.body) or last(s.orelse)

    def exec_if(self, s, f, rest):
        """if with early returns: the rest of the block belongs to both branches."""
        self.loc = (f.file, s.lineno)
        self.cur_frame = f
        t = self.as_test(self.eval(s.test, f))
        if self.real_test(t):
            r = self.join_flow(t, lambda: self.exec_block(list(s.body) + list(rest), f), lambda: self.exec_block(list(s.orelse) + list(rest), f))
            if r is not None:
                return
        if self.truth(t):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)
        self.exec_block(rest, f)

    def join_flow(self, t, fa, fb):
        """join of two blocks that both fall through or both return."""
        def run(fn):
            def g():
                try:
                    fn()
                except Return as e:
                    return (e.v,)
                return None
            return g
        r = self.join(t, run(fa), run(fb))
        if r is None:
            return None
        if r[0] is not None:
            raise Return(r[0][0])
        return r

    def exec(self, s, frame):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget")
        self.loc = (frame.file, s.lineno)
        self.cur_frame = frame
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}")
        m(s, frame)

    def x_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def x_Pass(self, s, f):
        pass

    def x_Assign(self, s, f):
        v = self.eval(s.value, f)
        self.loc = (f.file, s.lineno)
        for t in s.targets:
            self.assign(t, v, f)

    def x_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def x_AugAssign(self, s, f):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(f, t.id)
            r = self.inplace(op, cur, self.eval(s.value, f))
            self.setname(f, t.id, r)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, f)
            key = self.eval_key(t.slice, f)
            cur = self.getitem(base, key)
            r = self.inplace(op, cur, self.eval(s.value, f))
            self.setitem(base, key, r)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, f)
            cur = self.getattr(base, t.attr)
            r = self.inplace(op, cur, self.eval(s.value, f))
            self.setattr(base, t.attr, r)
        else:
            raise Undecided("augmented target")

    def inplace(self, op, cur, v):
        if isinstance(cur, ListV):
            if op == "Add":
                items = cur.d["items"]
                more = self.concrete(v)
                if isinstance(items, Seq):
                    raise Undecided("extend of a symbolic list")
                self.list_effect(cur)
                self.put(cur, "items", items + tuple(more))
                return cur
        if isinstance(cur, Arr):
            st = self.read(cur)
            if st.shape:
                new = self.to_st(self.binop(op, cur, v))
                if tuple(new.shape) != tuple(st.shape):
                    new = St(st.shape, A.bcast_to(new, st.shape), new.dtype, new.mask)
                if st.dtype == "i" and new.dtype == "f":
                    self.throw("TypeError", "Cannot cast ufunc output from float64 to int64")
                self.store_check(st, new, "in-place operation")
                self.write(cur, St(st.shape, new.c, st.dtype, new.mask if st.mask is not None else st.mask))
                return cur
        return self.binop(op, cur, v)

    def store_check(self, st, new, what):
        """Storing reals into an integer-typed array loses the fraction."""
        if st.dtype in ("u", "i") and new.dtype in ("f", "u") and not (st.dtype == "u" and new.dtype == "u" and what == "copy"):
            if not (new.dtype == "u" and st.dtype == "u"):
                self.effect("truncate", what)

    def list_effect(self, obj):
        if obj.owner is not None:
            self.effect("write", obj.owner)

    def x_Return(self, s, f):
        raise Return(self.eval(s.value, f) if s.value is not None else None)

    def x_If(self, s, f):
        t = self.as_test(self.eval(s.test, f))
        if self.real_test(t):
            r = self.join_flow(t, lambda: self.exec_block(s.body, f), lambda: self.exec_block(s.orelse, f))
            if r is not None:
                return
        if self.truth(t):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def x_For(self, s, f):
        it = self.iterate(self.eval(s.iter, f))
        if isinstance(it, list):
            for v in it:
                self.assign(s.target, v, f)
                try:
                    self.exec_block(s.body, f)
                except Break:
                    return
                except Continue:
                    continue
            self.exec_block(s.orelse, f)
            return
        lo, hi, desc, get = it

        def body(i):
            self.assign(s.target, get(i), f)
            try:
                self.exec_block(s.body, f)
            except Continue:
                pass
        self.sym_loop(lo, hi, desc, body, s)
        self.exec_block(s.orelse, f)

    def x_While(self, s, f):
        n = 0
        while True:
            try:
                c = self.truth(self.eval(s.test, f))
            except NeedSplit:
                if self.while_as_range(s, f):
                    break
                raise
            if not c:
                self.exec_block(s.orelse, f)
                return
            if isinstance(s.test, ast.Compare) and n == 0 and self.while_as_range(s, f):
                return
            n += 1
            if n > 300:
                raise Undecided("while loop")
            try:
                self.exec_block(s.body, f)
            except Break:
                return
            except Continue:
                continue

    def while_as_range(self, s, f):
        """while i < hi: ...; i += 1  (or i >= lo / i > lo, i -= 1) with symbolic bounds."""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return False
        left, right, op = t.left, t.comparators[0], type(t.ops[0]).__name__
        if not isinstance(left, ast.Name) and isinstance(right, ast.Name):
            left, right = right, left
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if not isinstance(left, ast.Name):
            return False
        var = left.id
        step = None
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.Break,)):
                return False
            if isinstance(n, (ast.AugAssign,)) and isinstance(n.target, ast.Name) and n.target.id == var:
                if step is not None or not (isinstance(n.value, ast.Constant) and n.value.value == 1) or n not in s.body:
                    return False
                step = {"Add": 1, "Sub": -1}.get(type(n.op).__name__)
            elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == var for tt in n.targets for x in ast.walk(tt)):
                if step is not None or n not in s.body:
                    return False
                v = n.value
                if isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == var and isinstance(v.right, ast.Constant) and v.right.value == 1:
                    step = {"Add": 1, "Sub": -1}.get(type(v.op).__name__)
                else:
                    return False
            elif isinstance(n, ast.Continue):
                return False
        if step is None:
            return False
        start = self.lookup(f, var)
        bound = self.eval(right, f)
        if not (self.is_number(start) and self.is_number(bound)):
            return False
        start, bound = poly(start), poly(bound)
        if step == 1 and op in ("Lt", "LtE"):
            lo, hi, desc = start, bound + (op == "LtE"), False
        elif step == -1 and op in ("Gt", "GtE"):
            lo, hi, desc = bound + (op == "Gt"), start + 1, True
        else:
            return False
        if (hi - lo).is_const():
            return False

        def body(i):
            self.put(f, var, num(i))
            self.exec_block(s.body, f)
            self.put(f, var, MISSINGVAR)

        self.sym_loop(lo, hi, desc, body, s)
        self.put(f, var, num(lo - 1 if desc else hi))
        return True

    def x_Break(self, s, f):
        raise Break()

    def x_Continue(self, s, f):
        raise Continue()

    def x_Raise(self, s, f):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise PyRaise(cur[-1])
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, f)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def x_Assert(self, s, f):
        try:
            ok = self.truth(self.eval(s.test, f))
        except NeedSplit as e:
            # a checked precondition: the contract of the routine
            self.notes.add(f"assumed: {ast.unparse(s.test)}")
            return
        if not ok:
            self.throw("AssertionError", "assert")

    def x_Try(self, s, f):
        try:
            self.exec_block(s.body, f)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(e.exc, self.eval(h.type, f)):
                    if h.name:
                        self.put(f, h.name, e.exc)
                    self.handling = getattr(self, "handling", []) + [e.exc]
                    try:
                        self.exec_block(h.body, f)
                    finally:
                        self.handling = self.handling[:-1]
                        self.exec_block(s.finalbody, f) if s.finalbody else None
                    return
            if s.finalbody:
                self.exec_block(s.finalbody, f)
            raise
        except (Return, Break, Continue):
            if s.finalbody:
                self.exec_block(s.finalbody, f)
            raise
        else:
            self.exec_block(s.orelse, f)
            self.exec_block(s.finalbody, f)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if not isinstance(t, ClassV):
            raise Undecided("exception filter")
        return t in exc.cls.mro

    def x_With(self, s, f):
        self.with_items(s, list(s.items), f)

    def with_items(self, s, items, f):
        if not items:
            self.exec_block(s.body, f)
            return
        item = items[0]
        m = v = self.eval(item.context_expr, f)
        if isinstance(m, Inst) and m.cls.lookup("__enter__"):
            v = self.call(self.getattr(m, "__enter__"), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, f)
        if not (isinstance(m, Inst) and m.cls.lookup("__exit__")):
            self.with_items(s, items[1:], f)
            return
        try:
            self.with_items(s, items[1:], f)
        except PyRaise as e:
            if not self.truth(self.call(self.getattr(m, "__exit__"), [e.exc.cls, e.exc, None], {})):
                raise
            return
        except (Return, Break, Continue):
            self.call(self.getattr(m, "__exit__"), [None, None, None], {})
            raise
        self.call(self.getattr(m, "__exit__"), [None, None, None], {})

    def x_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(f, t.id)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, f)
                key = self.eval(t.slice, f)
                if isinstance(base, DictV):
                    d = dict(base.d["items"])
                    if key not in d:
                        self.throw("KeyError", key)
                    d.pop(key)
                    self.list_effect(base)
                    self.put(base, "items", d)
                else:
                    raise Undecided("del")
            else:
                raise Undecided("del")

    def x_Global(self, s, f):
        f.globals_decl |= set(s.names)

    def x_Nonlocal(self, s, f):
        f.nonlocal_decl |= set(s.names)

    def x_FunctionDef(self, s, f):
        fn = self.make_func(s, f)
        for d in reversed(s.decorator_list):
            fn = self.call(self.eval(d, f), [fn], {})
        self.setname(f, s.name, fn)

    def make_func(self, s, f):
        a = s.args
        defaults = [self.eval(d, f) for d in a.defaults]
        kwd = {k.arg: self.eval(d, f) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncV(s, f, f.module, getattr(s, "name", "<lambda>"), defaults, kwd, f.cls if getattr(f, "is_class", False) else None)

    def x_ClassDef(self, s, f):
        bases = [self.eval(b, f) for b in s.bases]
        cf = Frame(f.module, f, s.name)
        cf.file = f.file
        cf.is_class = True
        self.exec_block(s.body, cf)
        bs = []
        native = None
        fields = None
        for b in bases:
            if isinstance(b, ClassV):
                bs.append(b)
                native = native or b.native
            elif isinstance(b, NTCls):
                fields = b
            elif isinstance(b, Native):
                raise Undecided(f"base class {b.name}")
            else:
                raise Undecided("base class")
        if fields is not None and not bs:
            # subclass of a namedtuple without behaviour of its own
            self.setname(f, s.name, NTCls(s.name, fields.fields, fields.defaults))
            return
        cls = ClassV(s.name, bs, dict(cf.d), f.module, native)
        for v in cls.ns.values():
            if isinstance(v, FuncV):
                v.cls = cls
        cls.node = s
        out = cls
        for d in reversed(s.decorator_list):
            out = self.call(self.eval(d, f), [out], {})
        self.setname(f, s.name, out)

    def x_Import(self, s, f):
        for a in s.names:
            m = self.loader.module(self, a.name, f.module)
            if a.asname:
                self.setname(f, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.setname(f, top, self.loader.module(self, top, f.module))

    def x_ImportFrom(self, s, f):
        name = ("." * s.level) + (s.module or "")
        for a in s.names:
            v = self.loader.from_import(self, name, a.name, f)
            self.setname(f, a.asname or a.name, v)

    # ------------------------------------------------------------ targets
    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.setname(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack(v, None, star=True)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, f)
                mid = items[i:len(items) - after]
                self.assign(t.elts[i].value, ListV(mid), f)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, f)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.eval_key(t.slice, f), v)
        else:
            raise Undecided("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        v = self.lookup(f, e.id)
        if v is MISSINGVAR:
            raise Undecided("loop counter read before assignment")
        return v

    def e_Tuple(self, e, f):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete(self.eval(x.value, f))
            else:
                out.append(self.eval(x, f))
        return tuple(out)

    def e_List(self, e, f):
        return ListV(self.e_Tuple(e, f))

    def e_Set(self, e, f):
        return SetV(self.e_Tuple(e, f))

    def e_Dict(self, e, f):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, f)
                d.update(self.dict_items(x))
            else:
                d[self.hkey(self.eval(k, f))] = self.eval(v, f)
        return DictV(d)

    def hkey(self, k):
        if isinstance(k, (ListV, DictV, SetV)):
            self.throw("TypeError", "unhashable type")
        return k

    def dict_items(self, x):
        if isinstance(x, DictV) or (isinstance(x, Inst) and x.cls.native == "dict"):
            return x.d["items"]
        raise Undecided("dict expected")

    def e_Lambda(self, e, f):
        return self.make_func(e, f)

    # a test on real data: both branches are evaluated and their results joined
    def as_test(self, v):
        """The truth of a number as a condition."""
        if isinstance(v, Poly) and not v.is_const():
            return BoolV(c_eq(v), True)
        return v

    def real_test(self, t):
        if not isinstance(t, BoolV) or self.env is not None:
            return False
        c = t.cond
        return c.op in ("pos", "ge", "eq") and (not is_int_poly(c.p) or any(a.kind != "sym" for a in c.p.atoms())) and self.known(c) is None

    def join(self, t, fa, fb):
        """Merge of the two outcomes as ite terms; None when they cannot be merged."""
        outs = []
        for val, fn in ((True, fa), (False, fb)):
            m = self.mark()
            tok = self.assume(t.cond, val != t.neg)
            st0, d0, l0 = list(self.stack), self.depth, list(self.loop_syms)
            try:
                v = fn()
                new = {}
                for obj, key, old in self.trail[m:]:
                    if key not in obj.d:
                        return None
                    x = obj.d[key]
                    new[(obj, key)] = self.join_snap(x)
                outs.append((self.join_snap(v), new))
            except (PyRaise, Return, Break, Continue):
                return None
            finally:
                self.rollback(m)
                self.unassume(tok)
                self.stack, self.depth, self.loop_syms = st0, d0, l0
        if t.neg:
            outs.reverse()
        (va, na), (vb, nb) = outs
        merged = []
        for loc in list(na) + [k for k in nb if k not in na]:
            obj, key = loc
            a = na[loc] if loc in na else self.join_snap(obj.d[key]) if key in obj.d else MISSING
            b = nb[loc] if loc in nb else self.join_snap(obj.d[key]) if key in obj.d else MISSING
            r = self.join_val(t.cond, a, b)
            if r is None:
                return None
            merged.append((obj, key, r[0]))
        r = self.join_val(t.cond, va, vb)
        if r is None:
            return None
        for obj, key, v in merged:
            self.put(obj, key, v)
        return r

    def join_snap(self, x):
        if isinstance(x, Arr):
            return ("arr", self.read(x), x)
        if type(x) is tuple:
            return Snaps([self.join_snap(y) for y in x])
        return x

    def join_val(self, c, a, b):
        if a is MISSING or b is MISSING:
            return None
        if isinstance(a, tuple) and len(a) == 3 and a[0] == "arr" and isinstance(b, tuple) and len(b) == 3 and b[0] == "arr":
            if a[2] is b[2] and a[1] is b[1]:
                return (a[2],)
            r = self.join_val(c, a[1], b[1])
            return r and (Arr(r[0]),)
        if isinstance(a, Snaps) and isinstance(b, Snaps):
            if len(a) != len(b):
                return None
            out = [self.join_val(c, x, y) for x, y in zip(a, b)]
            return None if any(o is None for o in out) else (tuple(o[0] for o in out),)
        if a is b:
            return (a,)
        if isinstance(a, St) and isinstance(b, St):
            if tuple(a.shape) != tuple(b.shape) or a.dtype == "o" or b.dtype == "o" or a.mask != b.mask:
                return None
            if isinstance(a.c, Poly) and isinstance(b.c, Poly):
                return (St(a.shape, T.ite(c, a.c, b.c), A.promote(a.dtype, b.dtype), a.mask),)
            if isinstance(a.c, Blk) and isinstance(b.c, Blk):
                return (St(a.shape, A.ite(c, a.c, b.c), A.promote(a.dtype, b.dtype), a.mask),)
            return None
        ok = (int, float, Poly)
        if isinstance(a, bool) or isinstance(b, bool):
            return (a,) if a is b else None
        if isinstance(a, ok) and isinstance(b, ok):
            return (num(T.ite(c, poly(a), poly(b))),)
        if isinstance(a, (str, type(None))) and a == b:
            return (a,)
        return None

    def e_IfExp(self, e, f):
        t = self.as_test(self.eval(e.test, f))
        if self.real_test(t):
            r = self.join(t, lambda: self.eval(e.body, f), lambda: self.eval(e.orelse, f))
            if r is not None:
                return r[0]
            return self.eval(e.body if self.truth(t) else e.orelse, f)
        return self.eval(e.body if self.truth(t) else e.orelse, f)

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v if not isinstance(v, BoolV) else t
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        op = type(e.op).__name__
        return self.unary(op, v)

    def unary(self, op, v):
        if op == "Not":
            v = self.as_test(v)
            if isinstance(v, BoolV):
                return BoolV(v.cond, not v.neg)
            return not self.truth(v)
        if op == "USub":
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Poly):
                return num(-v)
            st = self.to_st(v)
            return self.wrap(St(st.shape, A.map1(A.neg, st.c), st.dtype, st.mask))
        if op == "UAdd":
            return v
        if op == "Invert":
            from . import npmodel
            return npmodel.invert(self, v)
        raise Undecided(f"unary {op}")

    def e_BinOp(self, e, f):
        a = self.eval(e.left, f)
        b = self.eval(e.right, f)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            r = self.dunder_binop(op, a, b)
            if r is not MISSING:
                return r
        if isinstance(a, Marker):
            raise NeedCarry(a.loc)
        if isinstance(a, str) or isinstance(b, str):
            return self.str_binop(op, a, b)
        num_a, num_b = isinstance(a, (int, float, bool)), isinstance(b, (int, float, bool))
        if num_a and num_b:
            try:
                if op == "Add":
                    return a + b
                if op == "Sub":
                    return a - b
                if op == "Mult":
                    return a * b
                if op == "Div":
                    if isinstance(a, float) and not a.is_integer() and False:
                        pass
                    return a / b
                if op == "FloorDiv":
                    return a // b
                if op == "Mod":
                    return a % b
                if op == "Pow":
                    return a ** b
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "BitXor":
                    return a ^ b
            except ZeroDivisionError:
                self.throw("ZeroDivisionError", "division by zero")
            except TypeError:
                self.throw("TypeError", "operand")
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if op in ("BitAnd", "BitOr"):
                ta = self.truth(a)
                if op == "BitAnd" and not ta:
                    return False
                if op == "BitOr" and ta:
                    return True
                return self.truth(b)
        if isinstance(a, (tuple,)) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "Add":
            x, y = a.d["items"], b.d["items"]
            if isinstance(x, Seq) or isinstance(y, Seq):
                return ListV(self.seq_concat(x, y))
            return ListV(x + y)
        if isinstance(a, (tuple, ListV)) and isinstance(b, int) and op == "Mult" or isinstance(b, (tuple, ListV)) and isinstance(a, int) and op == "Mult":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, tuple):
                return a * b
            return ListV(a.d["items"] * b)
        if isinstance(a, ListV) and isinstance(b, Poly) and op == "Mult":
            it = a.d["items"]
            if not isinstance(it, Seq) and len(it) == 1:
                x = it[0]
                return ListV(Seq(b, lambda i: x))
        if isinstance(a, SetV) and isinstance(b, SetV):
            x, y = a.d["items"], b.d["items"]
            if op == "Sub":
                return SetV(tuple(k for k in x if k not in y))
            if op == "BitAnd":
                return SetV(tuple(k for k in x if k in y))
            if op == "BitOr":
                return SetV(x + y)
            if op == "BitXor":
                return SetV(tuple(k for k in x if k not in y) + tuple(k for k in y if k not in x))
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
            return DictV({**a.d["items"], **b.d["items"]})
        for x in (a, b):
            if x is None:
                self.throw("TypeError", f"unsupported operand type(s) for {op}: NoneType")
        from . import npmodel
        if isinstance(a, (npmodel.BoolSeq, MaskV)) or isinstance(b, (npmodel.BoolSeq, MaskV)):
            return npmodel.bool_binop(self, op, a, b)
        return self.num_binop(op, a, b)

    def num_binop(self, op, a, b):
        # scalars
        if isinstance(a, (int, float, Poly, bool)) and isinstance(b, (int, float, Poly, bool)):
            pa, pb = poly(a), poly(b)
            if op == "Add":
                return num(pa + pb)
            if op == "Sub":
                return num(pa - pb)
            if op == "Mult":
                return num(pa * pb)
            if op == "Div":
                if pb.is_zero():
                    self.throw("ZeroDivisionError", "division by zero")
                if not pb.is_const() and is_int_poly(pb) and self.known(c_eq(pb)) is not False:
                    if self.decide(c_eq(pb)):
                        self.throw("ZeroDivisionError", "division by zero")
                r = pa / pb
                return r if not (r.is_const()) else (float(r.const()) if r.const().denominator != 1 else float(r.const()))
            if op == "Pow":
                return num(self.power(pa, pb))
            if op in ("FloorDiv", "Mod"):
                q = self.floordiv(pa, pb)
                if q is None:
                    raise Undecided(op)
                return num(q) if op == "FloorDiv" else num(pa - q * pb)
            raise Undecided(op)
        sa, sb = self.to_st(a), self.to_st(b)
        if sa.dtype == "o" or sb.dtype == "o":
            raise Undecided("object arithmetic")
        if op == "Add":
            return self.wrapm(A.add(sa, sb))
        if op == "Sub":
            return self.wrapm(A.add(sa, sb, True))
        if op == "Mult":
            return self.wrapm(A.mul(sa, sb))
        if op == "Div":
            r = A.mul(sa, self.recip(sb))
            return self.wrapm(St(r.shape, r.c, "f", r.mask))
        if op == "MatMult":
            return self.wrapm(A.matmul(sa, sb))
        if op == "Pow":
            if not sb.shape:
                p = sb.c
                if p.is_const():
                    c = p.const()
                    if c == 2:
                        return self.wrapm(A.ew("square", sa))
                    if c == Fraction(1, 2):
                        return self.wrapm(A.ew("sqrt", sa))
                    if c == 1:
                        return self.wrapm(sa)
                    if c == -1:
                        return self.wrapm(self.recip(sa))
                    if c == 0:
                        return self.wrapm(St(sa.shape, A.fill(sa.shape, 1), sa.dtype))
            raise Undecided("power")
        raise Undecided(op)

    def floordiv(self, a, b):
        if b.is_const() and b.const().denominator == 1 and b.const() > 0:
            k = int(b.const())
            q, r = ZERO, ZERO
            for mon, v in a.d.items():
                if not mon:
                    q = q + poly(v // k)
                    if v.denominator != 1:
                        return None
                    r = r + poly(v - (v // k) * k)
                    continue
                if v.denominator == 1 and v % k == 0:
                    q = q + Poly({mon: v / k})
                else:
                    return None
            return q
        return None

    def power(self, a, b):
        if b.is_const():
            c = b.const()
            if c.denominator == 1 and abs(c) <= 8:
                return T.ppow(a, int(c))
            if c == Fraction(1, 2):
                return T.psqrt(a)
            if c == Fraction(-1, 2):
                return T.psqrt(a).inverse()
        raise Undecided("power")

    def recip(self, st):
        if not st.shape:
            if st.c.is_zero():
                return St((), poly(atom("const", "inf")), "f", st.mask)
            return St((), st.c.inverse(), "f", st.mask)
        return A.ew("recip", st)

    def wrapm(self, st):
        if not st.shape and st.mask is not None:
            return self.wrap(St((), st.c, st.dtype, st.mask))
        return self.wrap(st)

    def str_binop(self, op, a, b):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == "Mod" and isinstance(a, str):
            return self.fmt_mod(a, b)
        self.throw("TypeError", "string operand")

    def fmt_mod(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        try:
            return a % tuple(self.text(x) if not isinstance(x, (int, float, str)) else x for x in args)
        except TypeError:
            try:
                import re
                return re.sub(r"%[#0\- +]*\d*(?:\.\d+)?[diouxXeEfFgGcrsa]", "%s", a) % tuple(self.text(x) for x in args)
            except TypeError:
                self.throw("TypeError", "string formatting")

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (ListV,)):
            it = v.d["items"]
            if not isinstance(it, Seq):
                return "[" + ", ".join(repr(x) if isinstance(x, str) else self.text(x) for x in it) + "]"
        if isinstance(v, tuple):
            return "(" + ", ".join(self.text(x) for x in v) + ")"
        if isinstance(v, (int, float, bool, Poly)) or v is None:
            return str(v)
        if isinstance(v, Inst) and "args" in v.d and v.cls.native == "exception":
            return ", ".join(self.text(x) for x in v.d["args"])
        return f"<{type(v).__name__}>"

    def dunder_binop(self, op, a, b):
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv"}
        n = names.get(op)
        if n is None:
            return MISSING
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Inst):
                fn = x.cls.lookup(pre + n + "__")
                if fn is not None:
                    return self.call(BoundM(x, fn), [y], {})
        return MISSING

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        r = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, f)
            r = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(r):
                    return False
            left = right
        return r

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, BoolV):
                return r if op == "In" else BoolV(r.cond, not r.neg)
            return r if op == "In" else not r
        from . import npmodel
        arrs = [x for x in (a, b) if isinstance(x, Arr) and self.read(x).shape]
        if arrs:
            return npmodel.array_compare(self, op, a, b)
        if isinstance(a, (npmodel.BoolSeq, MaskV)) or isinstance(b, (npmodel.BoolSeq, MaskV)):
            return npmodel.bool_binop(self, op, a, b)
        if isinstance(a, Arr):
            a = self.wrap(self.read(a))
        if isinstance(b, Arr):
            b = self.wrap(self.read(b))
        return self.scalar_compare(op, a, b)

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, BoolV) or isinstance(b, BoolV):
                if a is True or b is True:
                    return self.truth(a) and self.truth(b)
                if a is False or b is False:
                    return not self.truth(a) if b is False else not self.truth(b)
            return a is b
        if isinstance(a, MaskV) and isinstance(b, MaskV):
            if a.term == ("false",) or b.term == ("false",):
                if a.term == b.term:
                    return True
                t = a.term if b.term == ("false",) else b.term
                if t[0] in ("seq", "row"):
                    # nomask or an array of False: not determined by the values
                    raise Undecided("identity of a mask")
                return False
            return a.term == b.term
        if isinstance(a, MaskV) or isinstance(b, MaskV):
            return False
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a == b and type(a) is type(b)
        return a is b

    def contains(self, c, x):
        if isinstance(c, str):
            if not isinstance(x, str):
                self.throw("TypeError", "'in <string>' requires string")
            return x in c
        if isinstance(c, DictV) or (isinstance(c, Inst) and c.cls.native == "dict"):
            return x in self.dict_items(c) if not isinstance(x, Arr) else False
        if isinstance(c, (tuple, ListV, SetV, NT)):
            items = c if isinstance(c, tuple) else (c.vals if isinstance(c, NT) else c.d["items"])
            if isinstance(items, Seq):
                raise Undecided("membership in a symbolic list")
            for y in items:
                if x is y or self.truth(self.compare("Eq", x, y)):
                    return True
            return False
        if isinstance(c, (range, SRange)):
            lo, hi = (c.lo, c.hi) if isinstance(c, SRange) else (c.start, c.stop)
            return A.d_le(lo, x) and A.d_le(poly(x) + 1, hi)
        if c is None:
            self.throw("TypeError", "argument of type 'NoneType' is not iterable")
        if isinstance(c, Arr):
            for y in self.concrete(c):
                if self.truth(self.compare("Eq", x, y)):
                    return True
            return False
        raise Undecided(f"membership in {type(c).__name__}")

    def scalar_compare(self, op, a, b):
        numeric = lambda v: isinstance(v, (int, float, Poly, Fraction, bool))
        if numeric(a) and numeric(b):
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            p = poly(a) - poly(b)
            integer = is_int_poly(p)
            if op in ("Eq", "NotEq"):
                r = BoolV(c_eq(p), op == "NotEq")
            elif op == "GtE":
                r = BoolV(c_ge(p)) if integer else BoolV(Cond("pos", -p), True)
            elif op == "Gt":
                r = BoolV(c_ge(p - 1)) if integer else BoolV(Cond("pos", p))
            elif op == "LtE":
                r = BoolV(c_ge(-p)) if integer else BoolV(Cond("pos", p), True)
            else:
                r = BoolV(c_ge(-p - 1)) if integer else BoolV(Cond("pos", -p))
            k = self.known(r.cond)
            if k is not None:
                return (not k) if r.neg else k
            return r
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, BoolV):
                return r if op == "Eq" else BoolV(r.cond, not r.neg)
            return r if op == "Eq" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, SetV) and isinstance(b, SetV):
            x, y = set(a.d["items"]), set(b.d["items"])
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            return self.scalar_compare(op, self.truth(a) if isinstance(a, BoolV) else a, self.truth(b) if isinstance(b, BoolV) else b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Undecided("tuple ordering")
        self.throw("TypeError", f"'{op}' not supported")

    def equal(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not (x is y or self.truth(self.compare("Eq", x, y))):
                    return False
            return True
        if isinstance(a, ListV) and isinstance(b, ListV):
            x, y = a.d["items"], b.d["items"]
            if isinstance(x, Seq) or isinstance(y, Seq):
                raise Undecided("list equality")
            return self.equal(x, y)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return set(a.d["items"]) == set(b.d["items"])
        if isinstance(a, DictV) and isinstance(b, DictV):
            x, y = a.d["items"], b.d["items"]
            return set(x) == set(y) and all(self.truth(self.compare("Eq", x[k], y[k])) for k in x)
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if isinstance(a, (bool, int, BoolV)) and isinstance(b, (bool, int, BoolV)):
                return self.truth(a) == self.truth(b)
            return False
        if isinstance(a, DTypeV) and isinstance(b, DTypeV):
            return a.k == b.k
        if isinstance(a, DTypeV) or isinstance(b, DTypeV):
            from . import npmodel
            ka, kb = npmodel.dtype_kind(self, a), npmodel.dtype_kind(self, b)
            if "u" in (ka, kb) and ka != kb:
                return BoolV(c_atom("usertype", min(str(ka), str(kb)), max(str(ka), str(kb))))
            return ka == kb
        if type(a) is not type(b):
            return False
        if isinstance(a, (str, bytes)):
            return a == b
        return a is b

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def e_Subscript(self, e, f):
        base = self.eval(e.value, f)
        return self.getitem(base, self.eval_key(e.slice, f))

    def eval_key(self, s, f):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, f) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_key(x, f) for x in s.elts)
        return self.eval(s, f)

    def e_Slice(self, e, f):
        return self.eval_key(e, f)

    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in f.d:
            return self.super_of(f)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals",) and not e.args:
            return DictV({k: v for k, v in f.d.items()})
        fn = self.eval(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete(self.eval(a.value, f))
            else:
                args.append(self.eval(a, f))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.dict_items(self.eval(k.value, f)))
            else:
                kw[k.arg] = self.eval(k.value, f)
        loc = self.loc
        self.loc = (f.file, e.lineno)
        r = self.call(fn, args, kw)
        self.loc = loc
        return r

    def super_of(self, f):
        g = f
        while g is not None and g.cls is None:
            g = g.parent
        if g is None:
            self.throw("RuntimeError", "super(): no arguments")
        return SuperV(g.cls, g.self_)

    def e_JoinedStr(self, e, f):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                out.append(self.text(self.eval(v.value, f)))
        return "".join(out)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.setname(f, e.target.id, v)
        return v

    def e_Starred(self, e, f):
        raise Undecided("starred")

    def e_ListComp(self, e, f):
        r = self.comp(e.generators, f, lambda g: self.eval(e.elt, g))
        return ListV(r)

    def e_GeneratorExp(self, e, f):
        r = self.comp(e.generators, f, lambda g: self.eval(e.elt, g))
        return ListV(r)

    def e_SetComp(self, e, f):
        r = self.comp(e.generators, f, lambda g: self.eval(e.elt, g))
        if isinstance(r, Seq):
            raise Undecided("symbolic set")
        return SetV(r)

    def e_DictComp(self, e, f):
        r = self.comp(e.generators, f, lambda g: (self.hkey(self.eval(e.key, g)), self.eval(e.value, g)))
        if isinstance(r, Seq):
            raise Undecided("symbolic dict")
        return DictV(dict(r))

    def comp(self, gens, f, elt):
        g = Frame(f.module, f, "<comp>")
        g.file = f.file
        return self.comp_level(gens, 0, g, elt)

    def comp_level(self, gens, k, g, elt):
        if k == len(gens):
            return (elt(g),)
        gen = gens[k]
        it = self.iterate(self.eval(gen.iter, g))
        if isinstance(it, list):
            out = ()
            for v in it:
                self.assign(gen.target, v, g)
                if all(self.truth(self.eval(c, g)) for c in gen.ifs):
                    r = self.comp_level(gens, k + 1, g, elt)
                    if isinstance(r, Seq):
                        raise Undecided("nested symbolic comprehension")
                    out += r
            return out
        if k != len(gens) - 1 or gen.ifs:
            raise Undecided("filtered symbolic comprehension")
        lo, hi, desc, get = it
        n = hi - lo

        def at(i):
            h = Frame(g.module, g, "<comp>")
            h.file = g.file
            j = lo + i if not desc else hi - 1 - i
            self.assign(gen.target, get(j), h)
            return elt(h)
        # one evaluation now, for effects and errors
        s, done = self.binder(ZERO, n)
        self.loop_syms.append(poly(s))
        try:
            self.explore(lambda: at(poly(s)), [s])
        finally:
            self.loop_syms.pop()
            done()
        # capture the environment now (closure over values, not over names)
        frozen = self.freeze(g)
        elt0 = elt

        def frozen_at(i):
            h = Frame(g.module, frozen, "<comp>")
            h.file = g.file
            j = lo + i if not desc else hi - 1 - i
            self.assign(gen.target, get(j), h)
            self.loop_syms.append(poly(i))
            try:
                return elt0(h)
            finally:
                self.loop_syms.pop()
        return Seq(n, frozen_at)

    def freeze(self, f):
        """Copy of a frame chain up to the module level; arrays are copied."""
        if f is None or f.parent is None:
            return f
        g = Frame(f.module, self.freeze(f.parent), f.name)
        g.file, g.cls = f.file, f.cls
        g.self_ = getattr(f, "self_", None)
        for k, v in f.d.items():
            g.d[k] = self.frozen_value(v)
        return g

    def frozen_value(self, v, depth=0):
        if isinstance(v, Arr):
            try:
                a = Arr(self.read(v))
            except NeedCarry:
                return v
            a.owner = self.root(v).owner
            return a
        if isinstance(v, tuple):
            return tuple(self.frozen_value(x) for x in v)
        if isinstance(v, NT):
            return NT(v.cls, [self.frozen_value(x) for x in v.vals])
        return v

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Undecided("call depth")
        try:
            return self.call_(fn, args, kw)
        finally:
            self.depth -= 1

    def call_(self, fn, args, kw):
        if isinstance(fn, Native):
            return fn.fn(self, *args, **kw)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, BoundM):
            if isinstance(fn.func, Native):
                return fn.func.fn(self, fn.self_, *args, **kw)
            return self.call(fn.func, [fn.self_] + list(args), kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, NTCls):
            return self.make_nt(fn, args, kw)
        if isinstance(fn, OpaqueFn):
            if kw:
                raise Undecided("keyword call of a user function")
            return self.call_opaque(fn, args)
        if isinstance(fn, Inst):
            m = fn.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundM(fn, m), args, kw)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, Marker):
            raise NeedCarry(fn.loc)
        if isinstance(fn, Arr):
            st = self.read(fn)
            if st.dtype == "o" and not st.shape:
                return self.call(self.wrap(st), args, kw)
        if fn is None or isinstance(fn, (int, float, str, Poly, Arr, ListV, tuple, DictV)):
            self.throw("TypeError", f"'{type(fn).__name__}' object is not callable")
        raise Undecided(f"call of {type(fn).__name__}")

    def call_opaque(self, fn, args):
        cols = []
        for a in args:
            st = self.to_st(a)
            if len(st.shape) != 1:
                raise Undecided("user function applied to a non-vector")
            if st.mask not in (None, ("none",)):
                raise Undecided("user function applied to a masked vector")
            cols.append(T.lin_of_blk(st.c))
        rows = fn.out_dim
        a = atom("call", fn.name, fn.idx, tuple(cols), poly(rows), rows=poly(rows), cols=ONE)
        if poly(rows) == ONE:
            return self.new(St((ONE,), blk(scalar_lin(poly(a))), "f"))
        return self.new(St((poly(rows),), blk(of_atom(a)), "f"))

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw("TypeError", f"{fn.name}() takes {len(names)} positional arguments but {len(args)} were given")
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kw.items():
            if (k in names and k not in posonly) or k in kwonly:
                if k in vals:
                    self.throw("TypeError", f"{fn.name}() got multiple values for argument '{k}'")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw("TypeError", f"{fn.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(extra)
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw("TypeError", f"{fn.name}() missing 1 required positional argument: '{n}'")
                vals[n] = fn.defaults[j]
        for n in kwonly:
            if n not in vals:
                if n not in fn.kwdefaults:
                    self.throw("TypeError", f"{fn.name}() missing keyword-only argument '{n}'")
                vals[n] = fn.kwdefaults[n]
        return vals

    def call_func(self, fn, args, kw):
        s = SUMMARIES.get((fn.module, fn.name)) if self.use_summaries else None
        if s is not None:
            r = s(self, fn, args, kw)
            if r is not MISSING:
                return r
        vals = self.bind_args(fn, args, kw)
        f = Frame(fn.module, fn.frame, fn.name)
        f.file = fn.frame.file
        f.cls = fn.cls
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        f.self_ = vals.get(names[0]) if names else None
        for k, v in vals.items():
            f.d[k] = v
        qual = (fn.cls.name + "." if fn.cls else "") + fn.name
        self.called.add((fn.frame.file, qual))
        self.stack.append(qual)
        loc = self.loc
        self.loop_depth_frames = getattr(self, "loop_depth_frames", 0)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, f)
            if is_generator(fn.node):
                return self.run_generator(fn, f)
            try:
                self.exec_block(fn.node.body, f)
            except Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.loc = loc

    def run_generator(self, fn, f):
        f.d["__yield__"] = None
        acc = ListV(())
        f.gen = acc
        try:
            self.exec_block(fn.node.body, f)
        except Return:
            pass
        return acc

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        acc = f.gen
        self.list_append(acc, v)
        return None

    def e_YieldFrom(self, e, f):
        for v in self.concrete(self.eval(e.value, f)):
            self.list_append(f.gen, v)
        return None

    def list_append(self, lst, v):
        self.list_effect(lst)
        items = lst.d["items"]
        if isinstance(items, Marker):
            raise NeedCarry(items.loc)
        if isinstance(items, Seq):
            n = items.length
            self.put(lst, "items", Seq(n + 1, items.base, items.puts + ((n, v),)))
        else:
            self.put(lst, "items", items + (v,))

    def seq_concat(self, x, y):
        lx = x.length if isinstance(x, Seq) else poly(len(x))
        ly = y.length if isinstance(y, Seq) else poly(len(y))

        def get(i):
            if A.d_le(i, lx - 1):
                return A.seq_get(x, i) if isinstance(x, Seq) else A.pick(x, i)
            return A.seq_get(y, i - lx) if isinstance(y, Seq) else A.pick(y, i - lx)
        return Seq(lx + ly, get)

    def make_nt(self, cls, args, kw):
        vals = list(args)
        if len(vals) > len(cls.fields):
            self.throw("TypeError", "too many arguments")
        rest = cls.fields[len(vals):]
        for n in rest:
            if n in kw:
                vals.append(kw.pop(n))
            else:
                k = cls.fields.index(n) - (len(cls.fields) - len(cls.defaults))
                if k < 0:
                    self.throw("TypeError", f"missing argument {n}")
                vals.append(cls.defaults[k])
        if kw:
            self.throw("TypeError", "unexpected keyword")
        return NT(cls, vals)

    def instantiate(self, cls, args, kw):
        from . import npmodel
        if cls.native == "exception":
            e = Inst(cls)
            e.d["args"] = tuple(args)
            return e
        if cls.native and cls.native in BUILTIN_CLASSES and cls is BUILTIN_CLASSES[cls.native]:
            return npmodel.construct(self, cls.native, args, kw)
        o = Inst(cls)
        if cls.native == "dict":
            o.d["items"] = {}
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundM(o, init), args, kw)
        elif args or kw:
            if cls.native == "dict":
                npmodel.dict_init(self, o, *args, **kw)
            else:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        from . import npmodel
        if isinstance(o, Marker):
            raise NeedCarry(o.loc)
        if isinstance(o, Inst):
            if name in o.d and name != "items_":
                if not (o.cls.native == "dict" and name == "items"):
                    v = o.d[name]
                    if isinstance(v, Marker):
                        if v.force is not None:
                            return v.force()
                        raise NeedCarry(v.loc)
                    return v
            v = o.cls.lookup(name)
            if v is not None or o.cls.has(name):
                if isinstance(v, (FuncV, Native)):
                    return BoundM(o, v)
                if isinstance(v, PropV):
                    return self.call(v.fget, [o], {})
                if isinstance(v, StaticV):
                    return v.fn
                if isinstance(v, ClassMV):
                    return BoundM(o.cls, v.fn)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                if o.cls.native == "dict" and "__dict__" in o.d:
                    return o.d["__dict__"]
                return InstDict(o)
            if name == "__getattribute__":
                return Native("getattribute", lambda it, n: it.getattr(o, n))
            if o.cls.native == "dict":
                if o.d.get("__dict__") is o and name in o.d["items"]:
                    return o.d["items"][name]
                m = npmodel.DICT_METHODS.get(name)
                if m is not None:
                    return BoundM(o, m)
            g = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(BoundM(o, g), [name], {})
            if o.cls.native == "exception" and name == "args":
                return o.d.get("args", ())
            self.throw("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__dict__":
                return DictV(o.ns)
            v = o.lookup(name)
            if v is not None or o.has(name):
                if isinstance(v, StaticV):
                    return v.fn
                if isinstance(v, ClassMV):
                    return BoundM(o, v.fn)
                return v
            nm = npmodel.class_attr(self, o, name)
            if nm is not None:
                return nm
            self.throw("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro if isinstance(o.self_, Inst) else o.self_.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    return BoundM(o.self_, v) if isinstance(v, (FuncV, Native)) else v
            if name == "__init__":
                if isinstance(o.self_, Inst) and o.self_.cls.native == "dict":
                    return BoundM(o.self_, Native("dict.__init__", npmodel.dict_init))
                return Native("object.__init__", lambda it, *a, **k: None)
            self.throw("AttributeError", name)
        if isinstance(o, ModV):
            if name in o.ns:
                v = o.ns[name]
                return v() if isinstance(v, Lazy) else v
            return self.loader.mod_attr(self, o, name)
        if isinstance(o, NT):
            if name in o.cls.fields:
                return o.vals[o.cls.fields.index(name)]
            if name == "_fields":
                return o.cls.fields
            if name == "_replace":
                return Native("_replace", lambda it, **kw: NT(o.cls, [kw.get(n, v) for n, v in zip(o.cls.fields, o.vals)]))
            if name == "_asdict":
                return Native("_asdict", lambda it: DictV(dict(zip(o.cls.fields, o.vals))))
            self.throw("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        return npmodel.attribute(self, o, name)

    def setattr(self, o, name, v):
        from . import npmodel
        if isinstance(o, Inst):
            if o.owner is not None:
                self.effect("attr", f"{o.owner}.{name}")
            p = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    self.throw("AttributeError", "can't set attribute")
                self.call(p.fset, [o, v], {})
                return
            self.put(o, name, v)
            return
        if isinstance(o, Arr):
            npmodel.set_array_attr(self, o, name, v)
            return
        if isinstance(o, RNGV):
            raise Undecided("rng attribute")
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, (ModV, ClassV)):
            self.effect("global", f"{o.name}.{name}")
            raise Undecided("assignment to a module or class attribute")
        self.throw("AttributeError", f"can't set attribute {name}")

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, key):
        from . import npmodel
        if isinstance(o, Marker):
            raise NeedCarry(o.loc)
        if isinstance(o, (tuple, NT)):
            vals = o if isinstance(o, tuple) else o.vals
            return self.seq_item(vals, key)
        if isinstance(o, str):
            if isinstance(key, (int, slice)):
                return o[key]
            raise Undecided("string index")
        if isinstance(o, ListV):
            items = o.d["items"]
            if isinstance(items, Marker):
                raise NeedCarry(items.loc)
            if isinstance(items, Seq):
                if isinstance(key, slice):
                    lo, hi = A.norm_slice((key.start, key.stop), items.length)
                    return ListV(Seq(hi - lo, lambda i: A.seq_get(items, i + lo)))
                i = A.norm_index(self.as_poly(key), items.length)
                return A.seq_get(items, i)
            r = self.seq_item(items, key)
            return ListV(r) if isinstance(key, slice) else r
        if isinstance(o, DictV) or (isinstance(o, Inst) and o.cls.native == "dict"):
            d = o.d["items"]
            key = self.hkey(key)
            if key not in d:
                self.throw("KeyError", key)
            return d[key]
        if isinstance(o, InstDict):
            if key not in o.o.d:
                self.throw("KeyError", key)
            return o.o.d[key]
        if isinstance(o, Arr):
            return npmodel.array_getitem(self, o, key)
        if isinstance(o, (npmodel.BoolSeq, MaskV)):
            return npmodel.bool_getitem(self, o, key)
        if isinstance(o, (range, SRange)):
            it = self.iterate(o)
            if isinstance(it, list):
                return self.seq_item(tuple(it), key)
            lo, hi, desc, get = it
            i = A.norm_index(self.as_poly(key), hi - lo)
            return num(lo + i if not desc else hi - 1 - i)
        if isinstance(o, Inst):
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(BoundM(o, m), [key], {})
        if isinstance(o, npmodel.IndexTrick):
            return o.get(self, key)
        if o is None or isinstance(o, (int, float, Poly, FuncV, OpaqueFn, Native, Inst)):
            if isinstance(o, Poly) and key in ((), Ellipsis):
                return o
            self.throw("TypeError", f"'{type(o).__name__}' object is not subscriptable")
        raise Undecided(f"subscript of {type(o).__name__}")

    def seq_item(self, vals, key):
        if isinstance(key, slice):
            parts = []
            for x in (key.start, key.stop, key.step):
                if x is not None and not isinstance(x, int):
                    if isinstance(x, Poly) and x.is_const():
                        x = int(x.const())
                    else:
                        raise Undecided("symbolic slice of a tuple")
                parts.append(x)
            return tuple(vals[slice(*parts)])
        if isinstance(key, bool):
            key = int(key)
        if isinstance(key, Poly):
            if not key.is_const():
                n = len(vals)
                for k in range(n):
                    if A.d_eq(key, k):
                        return vals[k]
                for k in range(1, n + 1):
                    if A.d_eq(key, -k):
                        return vals[-k]
                self.throw("IndexError", "tuple index out of range")
            key = int(key.const())
        if isinstance(key, Arr):
            key = int(self.as_poly(key).const())
        if not isinstance(key, int):
            self.throw("TypeError", "indices must be integers")
        try:
            return vals[key]
        except IndexError:
            self.throw("IndexError", "list index out of range")

    def setitem(self, o, key, v):
        from . import npmodel
        if isinstance(o, ListV):
            items = o.d["items"]
            self.list_effect(o)
            if isinstance(items, Seq):
                i = A.norm_index(self.as_poly(key), items.length)
                self.put(o, "items", A.seq_put(items, i, v))
                return
            if isinstance(key, slice):
                l = list(items)
                l[key] = self.concrete(v)
                self.put(o, "items", tuple(l))
                return
            k = self.as_poly(key)
            if not k.is_const():
                # a constant-size list indexed symbolically
                i = A.norm_index(k, poly(len(items)))
                for j in range(len(items)):
                    if A.d_eq(i, j):
                        l = list(items)
                        l[j] = v
                        self.put(o, "items", tuple(l))
                        return
                self.throw("IndexError", "list assignment index out of range")
            k = int(k.const())
            l = list(items)
            try:
                l[k] = v
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
            self.put(o, "items", tuple(l))
            return
        if isinstance(o, DictV) or (isinstance(o, Inst) and o.cls.native == "dict"):
            self.list_effect(o)
            d = dict(o.d["items"])
            d[self.hkey(key)] = v
            self.put(o, "items", d)
            return
        if isinstance(o, InstDict):
            self.setattr(o.o, key, v)
            return
        if isinstance(o, Arr):
            npmodel.array_setitem(self, o, key, v)
            return
        if isinstance(o, tuple):
            self.throw("TypeError", "'tuple' object does not support item assignment")
        if isinstance(o, Inst):
            m = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(BoundM(o, m), [key, v], {})
                return
        raise Undecided(f"item assignment to {type(o).__name__}")


class Missingvar:
    pass


MISSINGVAR = Missingvar()
Interp.use_summaries = True
SUMMARIES = {}


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, fn):
        self.fn = fn


class ClassMV:
    def __init__(self, fn):
        self.fn = fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class InstDict:
    def __init__(self, o):
        self.o = o


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class SymIter:
    """enumerate / zip / reversed over symbolic ranges."""

    def __init__(self, lo, hi, desc, get):
        self.lo, self.hi, self.desc, self.get = lo, hi, desc, get

    def norm(self, it):
        return it.sym_iter(self.lo, self.hi, self.desc, self.get)


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    todo.append(c)
        _GEN[node] = r
    return r


def positive(p):
    """p > 0 for generic reals of known sign."""
    if p.is_const():
        return p.const() > 0
    for k, v in p.d.items():
        if v <= 0:
            return False
        for a, e in k:
            if not T._positive_atom(T._LIST[a]) and e % 2:
                return False
    return True
