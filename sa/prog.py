"""Program model: parses every module of the package, resolves names, classes
and methods.  Nothing is imported or executed."""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("PYCBA_REPO", "/repo")
PKG = os.path.join(REPO, "src", "pycba")


class AnchorMissing(Exception):
    """A named construct the analysis is anchored on does not exist."""


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.qual = ".".join(
            x for x in (module.name, cls.name if cls else None, self.name) if x
        )
        self.is_static = self.is_class = self.is_prop = self.is_setter = False
        for d in getattr(node, "decorator_list", []):
            t = ast.unparse(d)
            if t == "staticmethod":
                self.is_static = True
            elif t == "classmethod":
                self.is_class = True
            elif t in ("property", "functools.cached_property", "cached_property"):
                self.is_prop = True
            elif t.endswith(".setter"):
                self.is_setter = True

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def loc(self, node=None):
        n = node or self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', '?')}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.props, self.setters, self.nested = {}, {}, {}, {}
        self.consts = {}  # class-level assignments name -> expr node
        self.fields = []  # annotated (name, default node)
        self.bases = [ast.unparse(b) for b in node.bases]
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s, module, self)
                if f.is_prop:
                    self.props[s.name] = f
                elif f.is_setter:
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                self.nested[s.name] = ClassInfo(s, module)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.consts[s.target.id] = s.value

    @property
    def is_enum(self):
        return any("Enum" in b for b in self.bases)

    @property
    def is_namedtuple(self):
        return any("NamedTuple" in b for b in self.bases)

    @property
    def is_dataclass(self):
        return any("dataclass" in d for d in self.decorators)

    @property
    def is_exception(self):
        return any(b.endswith(("Error", "Exception", "Warning")) for b in self.bases)

    def __repr__(self):
        return f"<Class {self.module.name}.{self.name}>"


class Module:
    def __init__(self, name, path, relpath):
        self.name, self.path, self.relpath = name, path, relpath
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in import_bindings(s):
                    self.imports[k] = v
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)


def import_bindings(s):
    out = []
    if isinstance(s, ast.Import):
        for a in s.names:
            out.append((a.asname or a.name.split(".")[0], ("ext", a.name if a.asname else a.name.split(".")[0])))
    else:
        mod = s.module or ""
        for a in s.names:
            nm = a.asname or a.name
            if s.level > 0 or mod.startswith("pycba"):
                m = mod[len("pycba"):].lstrip(".") if s.level == 0 else mod
                out.append((nm, ("pkg", m, a.name)))
            else:
                out.append((nm, ("ext", f"{mod}.{a.name}")))
    return out


class Program:
    def __init__(self, pkg=None):
        self.pkg = pkg or PKG
        self.modules = {}
        root = os.path.dirname(os.path.dirname(self.pkg))
        for fn in sorted(os.listdir(self.pkg)):
            if fn.endswith(".py"):
                p = os.path.join(self.pkg, fn)
                name = fn[:-3]
                self.modules[name] = Module(name, p, os.path.relpath(p, root))
        self.class_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, c)

    # ------------------------------------------------------------ lookup
    def func(self, dotted):
        """'beam.Beam.k_FF' or 'load.parse_LM'.  Raises AnchorMissing."""
        parts = dotted.split(".")
        m = self.modules.get(parts[0])
        if m is None:
            raise AnchorMissing(f"module {parts[0]}")
        if len(parts) == 2:
            if parts[1] in m.funcs:
                return m.funcs[parts[1]]
            r = self.resolve_import(m, parts[1])
            if r and r[0] == "func":
                return r[1]
            raise AnchorMissing(dotted)
        c = m.classes.get(parts[1])
        if c is None:
            r = self.resolve_import(m, parts[1])
            if r and r[0] == "class":
                c = r[1]
        if c is None:
            raise AnchorMissing(".".join(parts[:2]))
        for n in parts[2:-1]:
            if n not in c.nested:
                raise AnchorMissing(dotted)
            c = c.nested[n]
        f = self.find_method(c, parts[-1])
        if f is None:
            raise AnchorMissing(dotted)
        return f

    def has(self, dotted):
        try:
            self.func(dotted)
            return True
        except AnchorMissing:
            return False

    def cls(self, dotted):
        parts = dotted.split(".")
        if len(parts) == 1:
            c = self.class_by_name.get(parts[0])
            if c is None:
                raise AnchorMissing(dotted)
            return c
        m = self.modules.get(parts[0])
        if m is None or parts[1] not in m.classes:
            c = self.class_by_name.get(parts[1])
            if c is None:
                raise AnchorMissing(dotted)
            return c
        return m.classes[parts[1]]

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            k = todo.pop(0)
            if k in out:
                continue
            out.append(k)
            for b in k.bases:
                bn = b.split("[")[0].split(".")[-1]
                r = self.lookup_global(k.module, bn)
                if r and r[0] == "class":
                    todo.append(r[1])
        return out

    def find_method(self, c, name, kind="any"):
        for k in self.mro(c):
            if kind in ("any", "method") and name in k.methods:
                return k.methods[name]
            if kind in ("any", "prop") and name in k.props:
                return k.props[name]
            e = k.consts.get(name)      # alias bound in the class body
            if isinstance(e, ast.Name) and e.id != name:
                if kind in ("any", "method") and e.id in k.methods:
                    return k.methods[e.id]
                if kind in ("any", "prop") and e.id in k.props:
                    return k.props[e.id]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
        return None

    def issub(self, c, other):
        return other in self.mro(c)

    def lookup_global(self, m, name):
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("assign", m, m.assigns[name])
        if name in m.imports:
            return self.resolve_binding(m.imports[name])
        return None

    def resolve_import(self, m, name):
        if name in m.imports:
            return self.resolve_binding(m.imports[name])
        return None

    def resolve_binding(self, b):
        if b[0] == "ext":
            return b
        _, modname, name = b
        if modname == "":
            if name in self.modules:
                return ("module", self.modules[name])
            modname = "__init__"
        mod = self.modules.get(modname.split(".")[-1])
        if mod is None:
            return ("ext", f"pycba.{modname}.{name}")
        if name in self.modules and mod.name == "__init__":
            return ("module", self.modules[name])
        return self.lookup_global(mod, name)

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            todo = list(m.classes.values())
            for c in todo:
                todo.extend(c.nested.values())
                yield from c.methods.values()
                yield from c.props.values()
                yield from c.setters.values()

    def find_public(self, cls, meth):
        return self.func(f"{cls}.{meth}")
