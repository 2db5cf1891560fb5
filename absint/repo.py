"""Loads the repository's source (never imports it)."""

from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SLATE_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (anchor gone, unparsable source...)."""


class ModuleInfo:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.file = os.path.relpath(path, REPO)
        self.env = None  # filled by the interpreter


def _delegate(name, params, body):
    return f"    def {name}(self{', ' + params if params else ''}):\n        {body}\n"


_COMMON = [("__len__", "", "return len(self._base_)"),
           ("__iter__", "", "return iter(self._base_)"),
           ("__contains__", "item", "return item in self._base_"),
           ("__getitem__", "key", "return self._base_[key]"),
           ("__setitem__", "key, value", "self._base_[key] = value"),
           ("__delitem__", "key", "del self._base_[key]"),
           ("__bool__", "", "return len(self._base_) != 0")]
_METHODS = {
    "dict": ["clear", "items", "keys", "values", "get", "pop", "popitem", "setdefault", "update",
             "copy"],
    "list": ["append", "extend", "insert", "pop", "remove", "clear", "index", "count", "sort",
             "reverse", "copy"],
}
_CONTAINERS = {"dict": "dict", "UserDict": "dict", "OrderedDict": "dict", "Dict": "dict",
               "list": "list", "UserList": "list", "List": "list"}


def spell_out_containers(tree):
    """Rewrite classes that extend a builtin container into ones that hold one.

    `class A(dict): ...` becomes a class whose base keeps a dict in an attribute and passes the
    container's operations on to it, so that instances are ordinary objects to the analysis.
    """

    made = []
    for at, node in enumerate(tree.body):
        if not isinstance(node, ast.ClassDef):
            continue
        for i, base in enumerate(node.bases):
            plain = base.value if isinstance(base, ast.Subscript) else base
            kind = _CONTAINERS.get(getattr(plain, "id", getattr(plain, "attr", "")))
            if kind is None:
                continue
            name = f"{node.name}Container_"
            typ = kind + (f"[{ast.unparse(base.slice)}]" if isinstance(base, ast.Subscript) else "")
            text = f"class {name}:\n    _base_: {typ}\n"
            text += (f"    def __init__(self, *args, **kwargs):\n"
                     f"        self._base_ = {kind}(*args, **kwargs)\n")
            text += "".join(_delegate(*spec) for spec in _COMMON)
            text += "".join(
                f"    def {meth}(self, *args, **kwargs):\n"
                f"        return self._base_.{meth}(*args, **kwargs)\n"
                for meth in _METHODS[kind])
            extra = ast.parse(text).body[0]
            for sub in ast.walk(extra):
                if hasattr(sub, "lineno"):
                    sub.lineno = sub.end_lineno = node.lineno
                    sub.col_offset = sub.end_col_offset = node.col_offset
            made.append((at, extra))
            node.bases[i] = ast.copy_location(ast.Name(name, ast.Load()), base)
            break
    for at, extra in reversed(made):
        tree.body.insert(at, extra)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        package = os.path.join(self.root, "slate")
        if not os.path.isdir(package):
            raise AnalysisBroken(f"no package directory {package}")
        for base, dirs, files in os.walk(package):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for file in sorted(files):
                if not file.endswith(".py"):
                    continue
                path = os.path.join(base, file)
                with open(path, encoding="utf-8") as handle:
                    source = handle.read()
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    tree = ast.parse(source, path)
                except SyntaxError as exc:
                    raise AnalysisBroken(f"{path}: {exc}") from exc
                self.digest.update(rel.encode() + b"\0" + source.encode())
                spell_out_containers(tree)
                self.modules[rel] = ModuleInfo(rel, path, tree, source)

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} has vanished")
        return self.modules[name]

    def functions(self):
        """Every function definition in the package: (module, qualname, node)."""

        for info in self.modules.values():
            stack = [(info.tree, "")]
            while stack:
                node, prefix = stack.pop()
                for child in ast.iter_child_nodes(node):
                    if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield info, prefix + child.name, child
                        stack.append((child, prefix + child.name + "."))
                    elif isinstance(child, ast.ClassDef):
                        stack.append((child, prefix + child.name + "."))
                    else:
                        stack.append((child, prefix))
