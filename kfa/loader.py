"""Module resolution: sources under the repository, models for everything else."""
import ast
import os
from .values import *
from . import interp as IN
from . import npmodel

REPO = os.environ.get("KFA_REPO", "/repo")
SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
PRELUDEDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude")
PRELUDE = ("pathlib",)
_AST = {}


def parse(path):
    k = (path, os.stat(path).st_mtime_ns)
    if k not in _AST:
        with open(path) as f:
            src = f.read()
        _AST[k] = (ast.parse(src), src)
    return _AST[k]


class Loader:
    def __init__(self):
        self.mods = {}

    def find(self, name):
        if name.split(".")[0] == "pykalman":
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p):
                return os.path.join(p, "__init__.py"), True
            if os.path.exists(p + ".py"):
                return p + ".py", False
        if name in PRELUDE:
            return os.path.join(PRELUDEDIR, name + ".py"), False
        if name.split(".")[0] == "spec":
            p = os.path.join(SPECDIR, *name.split(".")[1:]) + ".py"
            if os.path.exists(p):
                return p, False
        return None, None

    def resolve(self, name, importer):
        """Absolute name of a possibly relative module."""
        if not name.startswith("."):
            return name
        level = len(name) - len(name.lstrip("."))
        rest = name[level:]
        pkg = importer.split(".")
        if not self.is_pkg(importer):
            pkg = pkg[:-1]
        if level > 1:
            pkg = pkg[:len(pkg) - (level - 1)]
        return ".".join(pkg + ([rest] if rest else []))

    def is_pkg(self, name):
        return bool(self.find(name)[1])

    def module(self, it, name, importer=None):
        name = self.resolve(name, importer)
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.find(name)
        if path is None:
            m = ModV(name, dict(npmodel.module_ns(name)))
            m.external = True
            self.mods[name] = m
            return m
        if "." in name and name.rpartition(".")[0] != "spec":
            self.module(it, name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        m = ModV(name)
        m.external = False
        m.file = path
        self.mods[name] = m
        tree, src = parse(path)
        f = IN.Frame(name, None, name)
        f.file = os.path.relpath(path, REPO) if path.startswith(REPO) else os.path.relpath(path, SPECDIR)
        f.d["__name__"] = name
        f.d["__file__"] = f.file
        m.ns = f.d
        m.frame = f
        stack, loc, depth = list(it.stack), it.loc, it.depth
        it.stack = []
        it.exec_block(tree.body, f)
        it.stack, it.loc, it.depth = stack, loc, depth
        return m

    def mod_attr(self, it, m, name):
        full = m.name + "." + name
        if getattr(m, "external", True):
            if full in npmodel.TABLE:
                return npmodel.TABLE[full]
            if any(k.startswith(full + ".") for k in npmodel.TABLE):
                return self.module(it, full)

            def unknown(it, *a, **k):
                raise Undecided(f"{full} has no transfer function")
            return Native(full, unknown)
        if self.find(full)[0] is not None:
            return self.module(it, full)
        it.throw("AttributeError", f"module '{m.name}' has no attribute '{name}'")

    def from_import(self, it, name, attr, frame):
        absn = self.resolve(name, frame.module)
        if absn == "__future__":
            return None
        m = self.module(it, absn)
        if attr == "*":
            if getattr(m, "external", True):
                raise Undecided("star import")
            for k, v in list(m.ns.items()):
                if not k.startswith("_"):
                    frame.d[k] = v
            return None
        if attr in m.ns:
            return m.ns[attr]
        if not getattr(m, "external", True) and self.find(absn + "." + attr)[0] is None:
            it.throw("ImportError", f"cannot import name '{attr}' from '{absn}'")
        return self.mod_attr(it, m, attr)
