"""Loads the repository's modules as ASTs and resolves names."""
import ast
import os
from . import theory as T

REPO_SRC = os.environ.get("PYVC_SRC", "/repo/src")


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.is_pkg = path.endswith("__init__.py")
        self.names = {}
        self.collect(self.tree.body)

    def collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = ("class", n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ("import", f"{base}.{a.name}")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("const", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = ("const", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self.collect(n.body)
            elif isinstance(n, ast.TypeAlias):
                self.names[n.name.id] = ("alias", n.value)


CANON = {
    "celpy.celtypes": "celtypes", "kr8s._objects.APIObject": "kr8s.APIObject", "kr8s.asyncio": "kr8s",
    "asyncio.TimeoutError": "TimeoutError", "celpy.celparser.tree_dump": "celpy.tree_dump",
    "json.decoder.JSONDecodeError": "json.JSONDecodeError", "lark.Tree": "lark.Tree", "typing.NamedTuple": "NamedTuple",
    "fastjsonschema": "fastjsonschema", "collections.defaultdict": "defaultdict",
}


def canon(dotted):
    for k in sorted(CANON, key=len, reverse=True):
        if dotted == k or dotted.startswith(k + "."):
            return CANON[k] + dotted[len(k):]
    return dotted


class Repo:
    def __init__(self, src=None):
        self.src = src or REPO_SRC
        self.modules = {}
        root = os.path.join(self.src, "koreo")
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = Module(rel, p)
        self.classnodes = {}
        pend = []
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    pend.append((m, n))
        # register classes, parents first
        progress = True
        while pend and progress:
            progress = False
            rest = []
            for m, n in pend:
                full = f"{m.name}.{n.name}"
                parents, ok = [], True
                for b in n.bases:
                    bb = b.value if isinstance(b, ast.Subscript) else b
                    r = self.resolve_dotted(m, bb)
                    if r is None:
                        ok = False
                        break
                    if r == "NamedTuple":
                        parents.append("tuple")
                        T.RECORDS.add(full)
                    elif r == "typing.TypedDict":
                        parents.append("dict")
                    elif r in T.CLASSES:
                        parents.append(r)
                    elif r in ("typing.Protocol", "typing.Generic", "object", "enum.Enum"):
                        pass
                    else:
                        ok = r in {f"{x.name}.{y.name}" for x, y in pend}
                        ok = False if ok else True
                if not ok:
                    rest.append((m, n))
                    continue
                progress = True
                T.add_class(full, *parents)
                self.classnodes[full] = (m, n)
                if full in T.RECORDS:
                    T.FIELDS[full] = [(s.target.id, s.annotation, s.value) for s in n.body
                                      if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                elif not parents:
                    T.PLAIN.append(full)
            pend = rest

    def resolve_dotted(self, m, node):
        """dotted name for a Name/Attribute AST node: canonical external name, or koreo 'module.name'"""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        parts.append(node.id)
        parts.reverse()
        b = m.names.get(parts[0])
        if b is None:
            return canon(".".join(parts))
        if b[0] == "import":
            return canon(self.follow(".".join([b[1]] + parts[1:])))
        return ".".join([m.name] + parts)

    def follow(self, dotted):
        """follow re-exports: koreo.a.b.X where module koreo.a.b imports X"""
        seen = 0
        while seen < 10:
            seen += 1
            mod, _, rest = self.split(dotted)
            if mod is None or not rest:
                return dotted
            head, *tail = rest.split(".")
            b = self.modules[mod].names.get(head)
            if b and b[0] == "import":
                dotted = ".".join([b[1]] + tail)
                continue
            return dotted
        return dotted

    def split(self, dotted):
        """(module, sep, rest) with the longest koreo module prefix"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                return m, ".", ".".join(parts[i:])
        return None, "", dotted

    def func(self, module, qual):
        m = self.modules.get(module)
        if m is None:
            return None
        parts = qual.split(".")
        b = m.names.get(parts[0])
        if b is None:
            return None
        node = b[1]
        for p in parts[1:]:
            node = next((x for x in getattr(node, "body", []) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.name == p), None)
            if node is None:
                return None
        return node if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
