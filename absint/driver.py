"""Runs small driver programs (abstractly) against the repository's source."""

from __future__ import annotations

import ast
import textwrap

from . import facts
from .interp import Config, Frame, Interp, Raised, Unsupported
from .repo import AnalysisBroken, ModuleInfo, Repo
from .terms import ANY, Bound, Cls, Fn, Obj, Sym

_REPO = None


def repo():
    global _REPO
    if _REPO is None:
        _REPO = Repo()
    return _REPO


def interp(**config):
    return Interp(repo(), Config(**config))


def load_driver(ip, source, name="driver"):
    """Evaluates driver source as a module; returns its environment."""

    source = textwrap.dedent(source)
    info = ModuleInfo.__new__(ModuleInfo)
    info.name, info.path, info.source = f"<{name}>", f"<{name}>", source
    info.tree, info.file = ast.parse(source), f"<{name}>"
    env = {}
    info.env = env
    ip.mods[info.name] = env
    frame = Frame(None, info, None, 0)
    frame.env = env
    ip.frames.append(frame)
    ip.loading = True
    try:
        for stmt in info.tree.body:
            try:
                ip.exec_stmt(stmt)
            except Raised as exc:
                raise AnalysisBroken(
                    f"driver line {stmt.lineno}: {exc} {exc.eargs}") from exc
    finally:
        ip.loading = False
        ip.frames.pop()
    return env


def run(ip, source, args, fn="main"):
    """Explores every path of `fn` in the driver; `args` builds the arguments per path."""

    facts._MEMO.clear()  # symbols of the same name may have other bounds now
    env = load_driver(ip, source)
    func = env[fn]

    def entry(machine):
        vals = args(machine) if callable(args) else list(args)
        frame = Frame(None, func.module, None, 0)
        frame.env = {}
        machine.frames = [frame]
        return machine.call_fn(func, vals, {}, func.node)

    return ip.explore(entry)


def find(ip, module, qualname):
    """A function/class of the repository by name (raises when it is gone)."""

    env = ip.mods.get(module)
    if env is None:
        raise AnalysisBroken(f"module {module} has vanished")
    head, _, rest = qualname.partition(".")
    val = env.get(head)
    if val is None:
        raise AnalysisBroken(f"{module}.{qualname} has vanished")
    if rest:
        if not isinstance(val, Cls) or val.lookup(rest) is None:
            raise AnalysisBroken(f"{module}.{qualname} has vanished")
        return val.lookup(rest)
    return val


def symbolic(ip, name, annotation):
    """Unknown value for a type expression such as 'Span' or 'tuple[int, int] | None'."""

    typ = ip.parse_type(ast.parse(annotation, mode="eval").body, None)
    return ip.make_sym(name, typ)
