"""The abstract interpreter.

Paths are enumerated by replay: every undecided condition asks `choose`, and the explorer
re-runs the entry with each prefix of decisions. Loops over unknown iterables are widened:
everything the body may modify becomes a fresh loop-carried value, then either the loop is
left or one generic iteration is analysed (its end is a `backedge` path).
"""

from __future__ import annotations

import ast
import builtins as _py
import copy
import functools
import os
import re
import time
from fractions import Fraction

from .facts import Facts, fixed_len, lin_of, mk_lin
from .repo import AnalysisBroken
from .terms import *  # noqa: F403
from .terms import (ANY, App, BM, BOOL, BYTES, Bi, Bound, Cat, Cls, Cmp, Const, DCT, EnumM,
                    FALSE, FLOAT, Fn, Gen, Heap, INT, LST, Lazy, Lin, Mod, NONE, NONE_V, Obj,
                    Partial, Prop, STR, Slice, Super, Sym, TRUE, Term, Tup, Wrapped, num,
                    ty_of, ty_parts, ty_union)
from . import models, strings


# -- control signals ---------------------------------------------------------------------


class Raised(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, args=(), node=None, origin=""):
        self.exc, self.eargs, self.node, self.origin = exc, args, node, origin
        super().__init__(str(exc))


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class GenBreak(Exception):
    """Leaves a generator early (consumer broke out of its loop)."""

    def __init__(self, token):
        self.token = token


class PathEnd(BaseException):
    """The path stops here (not an event of the analysed program)."""

    def __init__(self, status, info=None):
        self.status, self.info = status, info


class Widen(BaseException):
    """A loop run so far has to be widened: the exploration starts again."""


class Unsupported(Exception):
    def __init__(self, what, node=None):
        self.what, self.node = what, node
        super().__init__(what)


class Ev:
    """One observable event of a path."""

    __slots__ = ("kind", "node", "fn", "file", "data", "time", "loops", "depth")

    def __init__(self, kind, node, fn, file, data, time, loops, depth):
        self.kind, self.node, self.fn, self.file = kind, node, fn, file
        self.data, self.time, self.loops, self.depth = data, time, loops, depth

    def __getattr__(self, name):
        try:
            return self.data[name]
        except KeyError:
            raise AttributeError(name) from None

    @property
    def where(self):
        line = getattr(self.node, "lineno", 0)
        return f"{self.file}:{line} ({self.fn})"

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.where}>"


class Frame:
    __slots__ = ("env", "fn", "module", "parent", "cls", "hook", "depth", "globals_",
                 "nonlocals", "self_val", "assigned")

    def __init__(self, fn, module, parent=None, depth=0):
        self.env = {}
        self.fn, self.module, self.parent, self.depth = fn, module, parent, depth
        self.cls = None
        self.hook = None
        self.globals_ = set()
        self.nonlocals = set()
        self.self_val = None


class LoopCtx:
    __slots__ = ("lid", "start", "frame", "iterating", "index", "node", "key", "depth")

    def __init__(self, lid, key, start, frame, node, depth):
        self.lid, self.key, self.start, self.frame = lid, key, start, frame
        self.iterating = False
        self.index = None
        self.node = node
        self.depth = depth


class PathResult:
    def __init__(self, status, value, exc, interp):
        self.status, self.value, self.exc = status, value, exc
        self.trace = interp.trace
        self.facts = interp.facts
        self.loops = interp.loop_log
        self.backedge = interp.backedge_info
        self.notes = interp.notes
        self.root = interp.root_env
        self.interp_heap = interp.by_site

    def events(self, *kinds):
        return [e for e in self.trace if e.kind in kinds]

    def describe(self):
        cond = ", ".join(
            ("" if v else "not ") + show_atom(a) for a, v in self.facts.order
        )
        return cond or "always"


def show_atom(atom):
    if atom[0] in ("le", "lt"):
        return f"{atom[1]!r} {'<=' if atom[0] == 'le' else '<'} 0"
    if atom[0] == "isnone":
        return f"{atom[1]!r} is None"
    if atom[0] == "eq":
        return f"{atom[1]!r} == {atom[2]!r}"
    if atom[0] == "truthy":
        return f"{atom[1]!r}"
    return f"{atom[0]}({', '.join(map(repr, atom[1:]))})"


# no answer at all is worse than an answer about what was analysed in this time
DEADLINE = time.monotonic() + float(os.environ.get("SLATE_BUDGET", "480"))


class Config:
    """What one analysis assumes and observes."""

    def __init__(self, **kw):
        self.stubs = {}  # qualname -> callable(interp, args, kwargs, node)
        self.externals = {}  # dotted name -> callable(interp, args, kwargs, node)
        self.ext_methods = {}  # method name -> callable(interp, recv, args, kwargs, node)
        self.may_raise = None  # callable(interp, name) -> iterable of exception names
        self.check_partial = False
        self.skip_post_init = ()
        self.attr_types = {}
        self.attr_ranges = {("Color", "rgb"): (0, 255)}
        self.unroll = 400
        self.max_paths = 20000
        self.max_depth = 40
        self.module_objects = ("Terminal",)
        self.no_inline = ()
        self.enum_split = True
        self.on_call = None
        self.event_calls = False
        self.sym_types = {}
        self.trace_reads = False
        self.env = None  # environment variables, where they are known
        for key, val in kw.items():
            setattr(self, key, val)


SIMPLE_TYPES = {
    "int": INT, "float": FLOAT, "str": STR, "bool": BOOL, "bytes": BYTES, "None": NONE,
    "object": ANY, "Any": ANY, "AnyStr": STR,
}


class _Rest(ast.stmt):
    """What follows a statement that entered a context of an ExitStack."""

    _fields = ()

    def __init__(self, stack, var, rest, outer):
        super().__init__()
        self.stack, self.var, self.rest, self.outer = stack, var, rest, outer


class Interp:
    def __init__(self, repo, config=None):
        self.repo = repo
        self.config = config or Config()
        self.classes = {}
        self.havoc = {}  # loop key -> set of modified locations
        self.learned = {}  # (loop key, name) -> type
        self.summ = {}  # previous round: (loop key, site) -> list of op lists
        self.new_summ = {}
        self.loop_breaks = {}
        self.new_breaks = set()
        self.prefix = []
        self.pending = []
        self.widened = set()
        self.touched = {}
        self.unsupported = {}
        self.stat_paths = 0
        self.stat_rounds = 0
        self.functions_seen = set()
        self.calls_seen = set()
        self._reset_path()
        self._load_modules()
        self.functions_seen = set()
        self.calls_seen = set()

    # -- path bookkeeping ----------------------------------------------------------------

    def _reset_path(self):
        self.facts = Facts((id(self), getattr(self, 'stat_rounds', 0)))
        self.trace = []
        self.clock = 0
        self.counter = {}
        self.by_site = {}
        self.loop_stack = []
        self.frames = []
        self.pos = 0
        self.loop_log = {}
        self.backedge_info = None
        self.notes = []
        self.alloc_n = 0
        self.root_env = None
        self.sum_updates = []
        self.memo = {}
        self.results = {}  # of functions with a cache: [(arguments, keys, result)]

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}#{n}" if n else base

    def tick(self):
        self.clock += 1
        return self.clock

    def choose(self, n, why=None):
        if getattr(self, "loading", False):
            return 0
        if self.pos < len(self.prefix):
            pick = self.prefix[self.pos]
        else:
            pick = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.prefix[: self.pos] + [alt])
            self.prefix = self.prefix[: self.pos] + [0]
        self.pos += 1
        if self.pos > 400:
            raise PathEnd("limit", "too many decisions on one path")
        return pick

    def decide(self, atom):
        if isinstance(atom, bool):
            return atom
        res = self.facts.implied(atom)
        if res is not None:
            return res
        val = self.choose(2) == 0
        self.facts.assume(atom, val)
        return val

    def event(self, kind, node, **data):
        frame = self.frames[-1] if self.frames else None
        fn = frame.fn.qualname if frame and frame.fn else "<module>"
        file = frame.module.file if frame else "?"
        ev = Ev(kind, node, fn, file, data, self.tick(),
                tuple(c.lid for c in self.loop_stack), len(self.frames))
        self.trace.append(ev)
        return ev

    def explore(self, entry):
        """Runs `entry(self)` over all paths; returns the results of the last round."""

        self.widened = set()
        for rnd in range(8):
            self.stat_rounds = rnd + 1
            before = ({k: set(v) for k, v in self.havoc.items()}, dict(self.learned))
            self.new_summ, self.new_breaks = {}, set()
            results = []
            stack = [[]]
            count = 0
            while stack:
                self.prefix = stack.pop()
                self.pending = []
                self._reset_path()
                count += 1
                if count > self.config.max_paths:
                    raise AnalysisBroken(f"more than {self.config.max_paths} paths")
                if time.monotonic() > DEADLINE:
                    raise AnalysisBroken("the time for this analysis is used up")
                try:
                    value = self._unshared(entry(self))
                    res = PathResult("return", value, None, self)
                except Raised as exc:
                    res = PathResult("raise", None, exc, self)
                except PathEnd as end:
                    res = PathResult(end.status, None, None, self)
                    res.info = end.info
                except ReturnSig as sig:
                    res = PathResult("return", self._unshared(sig.val), None, self)
                except RecursionError:
                    res = PathResult("limit", None, None, self)
                    res.info = "recursion"
                except Widen:
                    results, stack = [], [[]]
                    self.new_summ, self.new_breaks = {}, set()
                    continue
                finally:
                    self._restore_globals()
                if res.status != "infeasible":
                    results.append(res)
                for key, ops in self.sum_updates:
                    self.new_summ.setdefault(key, []).append(ops)
                stack += self.pending
            self.stat_paths = len(results)
            stable = (
                before[0] == self.havoc and before[1] == self.learned
                and self._summ_key(self.summ) == self._summ_key(self.new_summ)
                and self.loop_breaks == self.new_breaks
            )
            self.summ, self.loop_breaks = self.new_summ, self.new_breaks
            if stable:
                return results
        return results

    @staticmethod
    def _summ_key(summ):
        return {k: sorted({repr([o[0] for o in ops]) for ops in v}) for k, v in summ.items()}

    def _unshared(self, val, depth=0):
        """A result as it is now: with copies of the module-level containers that were changed
        (they are about to be restored)."""

        if depth > 6 or not any(isinstance(obj, (LST, DCT)) for obj, _ in self.touched.values()):
            return val
        if isinstance(val, Tup):
            items = [self._unshared(i, depth + 1) for i in val.items]
            return val if all(a is b for a, b in zip(items, val.items)) else Tup(items, val.cls)
        if isinstance(val, (LST, DCT)) and val.items is not None:
            out = val
            if id(val) in self.touched:
                out = copy.copy(val)
            if isinstance(val, LST):
                out.items = [self._unshared(i, depth + 1) for i in val.items]
            else:
                out.items = {k: self._unshared(v, depth + 1) for k, v in val.items.items()}
            return out
        if isinstance(val, Obj) and val.global_ is None:
            for name, item in list(val.fields.items()):
                val.fields[name] = self._unshared(item, depth + 1)
        return val

    def _restore_globals(self):
        for obj, saved in self.touched.values():
            if isinstance(obj, Obj):
                obj.fields = dict(saved)
            elif isinstance(obj, LST):
                obj.items, obj.known, obj.version, obj.length = (
                    None if saved[0] is None else list(saved[0])), {}, 0, saved[1]
            elif isinstance(obj, DCT):
                obj.items = dict(saved[0])
                obj.sym = saved[1]
                obj.version = 0
            elif isinstance(obj, dict):
                obj.clear()
                obj.update(saved)
        self.touched = {}

    def touch(self, obj):
        """Remember the pristine state of a module-level object before changing it."""

        if id(obj) in self.touched or getattr(self, "loading", False):
            return
        if isinstance(obj, Obj):
            self.touched[id(obj)] = (obj, dict(obj.fields))
        elif isinstance(obj, LST):
            self.touched[id(obj)] = (
                obj, (None if obj.items is None else list(obj.items), obj.length))
        elif isinstance(obj, DCT):
            self.touched[id(obj)] = (obj, (dict(obj.items), obj.sym))
        elif isinstance(obj, dict):
            self.touched[id(obj)] = (obj, dict(obj))

    # -- allocation ----------------------------------------------------------------------

    def site(self, node):
        frame = self.frames[-1] if self.frames else None
        file = frame.module.file if frame else "?"
        return f"{file}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def register(self, obj):
        obj.born = self.tick()
        self.by_site.setdefault(obj.site, []).append(obj)
        return obj

    def new_list(self, items, node=None, elem=ANY):
        self.alloc_n += 1
        site = "list@" + self.site(node)
        return self.register(LST(f"{site}#{self.alloc_n}", items=items, site=site, elem=elem))

    def sym_list(self, name, length=None, elem=ANY, site=None):
        if length is None:
            length = Sym(f"len({name})", INT, lo=0)
        return self.register(
            LST(name, items=None, name=name, length=length, elem=elem, site=site or name))

    def new_dict(self, items=None, node=None, kind="dict"):
        self.alloc_n += 1
        site = f"{kind}@" + self.site(node)
        return self.register(DCT(f"{site}#{self.alloc_n}", items=items, site=site, kind=kind))

    def new_obj(self, cls, node=None, lazy=None):
        self.alloc_n += 1
        site = lazy or f"{cls.name if cls else 'obj'}@" + self.site(node)
        return self.register(
            Obj(cls, lazy or f"{site}#{self.alloc_n}", lazy=lazy, site=site))

    # -- types ---------------------------------------------------------------------------

    def parse_type(self, node, module):
        if node is None:
            return ANY
        if isinstance(node, ast.Constant):
            if node.value is None:
                return NONE
            if isinstance(node.value, str):
                try:
                    return self.parse_type(ast.parse(node.value, mode="eval").body, module)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.Name):
            if node.id in SIMPLE_TYPES:
                return SIMPLE_TYPES[node.id]
            if node.id in self.classes:
                cls = self.classes[node.id]
                if cls.named:
                    return tuple_type([self.parse_type(f[1], cls.module) for f in cls.fields], cls)
                return ("cls", node.id)
            if node.id in ("list", "List"):
                return ("list", ANY)
            if node.id in ("dict", "Dict"):
                return ("dict", ANY, ANY)
            if node.id == "tuple":
                return ANY
            if node.id in ("TextIO", "IO"):
                return ("ext", "TextIO")
            return ANY
        if isinstance(node, ast.Attribute):
            return self.parse_type(ast.Name(node.attr, ast.Load()), module)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return ty_union(self.parse_type(node.left, module),
                            self.parse_type(node.right, module))
        if isinstance(node, ast.Subscript):
            base = node.value.id if isinstance(node.value, ast.Name) else getattr(
                node.value, "attr", "")
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if base in ("tuple", "Tuple"):
                if any(isinstance(a, ast.Constant) and a.value is Ellipsis for a in args):
                    return ("iter", self.parse_type(args[0], module))
                return ("tuple", tuple(self.parse_type(a, module) for a in args))
            if base in ("list", "List", "Sequence"):
                return ("list", self.parse_type(args[0], module))
            if base in ("dict", "Dict", "Mapping") and len(args) == 2:
                return ("dict", self.parse_type(args[0], module),
                        self.parse_type(args[1], module))
            if base in ("Iterable", "Iterator", "Generator"):
                return ("iter", self.parse_type(args[0], module))
            if base == "Optional":
                return ty_union(self.parse_type(args[0], module), NONE)
            if base == "Union":
                out = self.parse_type(args[0], module)
                for arg in args[1:]:
                    out = ty_union(out, self.parse_type(arg, module))
                return out
            if base == "Literal":
                return STR
            if base == "Callable":
                return ("callable",)
            if base == "IO":
                return ("ext", "TextIO")
            if base in self.classes:
                return ("cls", base)
        return ANY

    def make_sym(self, name, typ, site=None):
        """A fully unknown value of a type."""

        kind = typ[0]
        if kind == "tuple":
            return Tup([self.make_sym(f"{name}[{i}]", t) for i, t in enumerate(typ[1])],
                       *typ[2:])
        if kind == "list":
            return self.sym_list(name, elem=typ[1], site=site)
        if kind == "dict":
            dct = DCT(name, sym=True, name=name, site=site or name)
            dct.key_ty, dct.val_ty = typ[1], typ[2]
            return self.register(dct)
        if kind == "none":
            return NONE_V
        if kind == "cls":
            cls = self.classes.get(typ[1])
            if cls is not None and not cls.is_enum and not cls.frozen:
                return self.new_obj(cls, lazy=name)
            if cls is not None and cls.is_enum and cls.members and self.config.enum_split:
                members = list(cls.members.values())
                sym = Sym(name, typ)
                return sym
        return Sym(name, typ)

    def cur_type(self, val):
        """Type of a value under the path facts."""

        typ = ty_of(val)
        if typ[0] == "union" and isinstance(val, Term):
            parts = typ[1]
            if self.facts.known.get(("isnone", val)) is False:
                parts = tuple(p for p in parts if p != NONE)
            elif self.facts.known.get(("isnone", val)) is True:
                return NONE
            for atom, pol in self.facts.known.items():
                if atom[0] == "isinst" and atom[1] == val:
                    name = atom[2]
                    if pol:
                        parts = tuple(p for p in parts if type_name(p) == name) or parts
                    else:
                        parts = tuple(p for p in parts if type_name(p) != name) or parts
            if len(parts) == 1:
                return parts[0]
            return ("union", parts)
        if typ == ANY and isinstance(val, Term):
            for atom, pol in self.facts.known.items():
                if pol and atom[0] == "isinst" and atom[1] == val:
                    name = atom[2]
                    if name in SIMPLE_TYPES:
                        return SIMPLE_TYPES[name]
                    if name in self.classes:
                        return ("cls", name)
        return typ

    # -- module loading ------------------------------------------------------------------

    def _load_modules(self):
        self.loading = True
        self.mods = {}
        # Pass 1: class names, so annotations resolve everywhere.
        for info in self.repo.modules.values():
            for node in ast.walk(info.tree):
                if isinstance(node, ast.ClassDef):
                    if node.name not in self.classes:
                        self.classes[node.name] = Cls(node.name, node, info)
        for cls in self.classes.values():
            self._class_header(cls)
        for name in self.repo.modules:
            self._module_env(name)
        self.loading = False
        self._reset_path()

    def _class_header(self, cls):
        node = cls.node
        for dec in node.decorator_list:
            call = dec.func if isinstance(dec, ast.Call) else dec
            dname = call.id if isinstance(call, ast.Name) else getattr(call, "attr", "")
            if dname == "dataclass":
                cls.dataclass = True
                if isinstance(dec, ast.Call):
                    for kw in dec.keywords:
                        if kw.arg == "frozen" and isinstance(kw.value, ast.Constant):
                            cls.frozen = bool(kw.value.value)
                        if kw.arg == "eq" and isinstance(kw.value, ast.Constant):
                            cls.dc_eq = bool(kw.value.value)
        for base in node.bases:
            bname = base.id if isinstance(base, ast.Name) else getattr(base, "attr", "")
            if bname in ("Enum", "IntEnum", "StrEnum"):
                cls.is_enum = True
            if bname == "NamedTuple":
                cls.named = True
            if bname in self.classes:
                cls.bases.append(self.classes[bname])
                if self.classes[bname].frozen and cls.dataclass:
                    pass
            elif bname:
                cls.bases.append(Bi(bname))
        for stmt in node.body:
            if isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                cls.ann[stmt.target.id] = stmt.annotation
        # attributes of self with declared or obvious types
        for fn in node.body:
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                continue
            me = fn.args.args[0].arg
            params = {a.arg: a.annotation
                      for a in fn.args.args + fn.args.kwonlyargs if a.annotation}
            for stmt in ast.walk(fn):
                if isinstance(stmt, ast.AnnAssign) and _is_self_attr(stmt.target, me):
                    cls.ann.setdefault(stmt.target.attr, stmt.annotation)
                elif isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 \
                        and _is_self_attr(stmt.targets[0], me):
                    attr = stmt.targets[0].attr
                    if isinstance(stmt.value, ast.Call) and isinstance(
                            stmt.value.func, ast.Name) and stmt.value.func.id in self.classes:
                        cls.ann.setdefault(attr, ast.Name(stmt.value.func.id, ast.Load()))
                    elif isinstance(stmt.value, ast.Name) and stmt.value.id in params:
                        cls.ann.setdefault(attr, params[stmt.value.id])
                    elif isinstance(stmt.value, ast.Constant) and type(
                            stmt.value.value) in (int, str, float, bool):
                        cls.ann.setdefault(
                            attr, ast.Name(type(stmt.value.value).__name__, ast.Load()))

    def _module_env(self, name):
        if name in self.mods:
            return self.mods[name]
        info = self.repo.modules[name]
        env = {}
        self.mods[name] = env
        info.env = env
        frame = Frame(None, info, None, 0)
        frame.env = env
        env["__name__"] = Const(name)
        self.frames.append(frame)
        try:
            for stmt in info.tree.body:
                try:
                    self.exec_stmt(stmt)
                except (Unsupported, Raised) as exc:
                    self.unsupported.setdefault(
                        (name, getattr(stmt, "lineno", 0)),
                        f"{exc} {getattr(exc, 'eargs', '')}"
                        f" at {getattr(exc.node, 'lineno', 0)}")
                except PathEnd:
                    pass
        finally:
            self.frames.pop()
        for key, val in env.items():
            if isinstance(val, Heap) and getattr(val, "global_", None) is None:
                val.global_ = f"{name}.{key}"
        return env

    # -- names ---------------------------------------------------------------------------

    def lookup(self, name, node):
        frame = self.frames[-1]
        cur = frame
        if name not in frame.globals_:
            while cur is not None:
                if name in cur.env:
                    return cur.env[name]
                cur = cur.parent
        env = self.mods.get(frame.module.name) if frame.module.name in self.mods \
            else getattr(frame.module, "env", None)
        if env and name in env:
            return env[name]
        if name in models.BUILTIN_CONSTS:
            return models.BUILTIN_CONSTS[name]
        if hasattr(_py, name):
            return Bi(name)
        if name in self.root_names:
            return self.root_names[name]
        raise Raised("NameError", (Const(name),), node)

    root_names = {}

    def store_name(self, name, val):
        frame = self.frames[-1]
        if name in frame.globals_:
            env = frame.module.env
            self.touch(env)
            env[name] = val
            return
        if name in frame.nonlocals:
            cur = frame.parent
            while cur is not None:
                if name in cur.env:
                    self._note_frame_store(cur, name)
                    cur.env[name] = val
                    return
                cur = cur.parent
        self._note_frame_store(frame, name)
        frame.env[name] = val

    def _note_frame_store(self, frame, name):
        for ctx in self.loop_stack:
            if ctx.frame is not frame and frame.depth < ctx.depth and frame.depth > 0:
                self.havoc.setdefault(ctx.key, set()).add(("var", frame.depth, name))

    # -- statements ----------------------------------------------------------------------

    def exec_block(self, stmts):
        for stmt in stmts:
            self.exec_stmt(stmt)

    def exec_stmt(self, node):
        method = getattr(self, "s_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"statement {type(node).__name__}", node)
        method(node)

    def s_Pass(self, node):
        pass

    def s_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.ev(node.value)

    def s_Assign(self, node):
        val = self.ev(node.value)
        for target in node.targets:
            self.assign(target, val)

    def s_AnnAssign(self, node):
        if node.value is not None:
            val = self.ev(node.value)
            if isinstance(val, LST) and val.elem == ANY:
                typ = self.parse_type(node.annotation, self.frames[-1].module)
                if typ[0] == "list":
                    val.elem = typ[1]
            self.assign(node.target, val)

    def s_AugAssign(self, node):
        target = node.target
        if isinstance(target, ast.Name):
            old = self.lookup(target.id, node)
            new = self.ev(node.value)
            self.store_name(target.id, self.aug(node.op, old, new, node))
        elif isinstance(target, ast.Attribute):
            obj = self.ev(target.value)
            old = self.getattr(obj, target.attr, node)
            new = self.ev(node.value)
            self.setattr(obj, target.attr, self.aug(node.op, old, new, node), node)
        elif isinstance(target, ast.Subscript):
            obj = self.ev(target.value)
            idx = self.ev_index(target.slice)
            old = self.getitem(obj, idx, node)
            new = self.ev(node.value)
            self.setitem(obj, idx, self.aug(node.op, old, new, node), node)
        else:
            raise Unsupported("augmented target", node)

    def aug(self, op, old, new, node):
        if isinstance(old, LST) and isinstance(op, ast.Add):
            self.call_method(old, "extend", [new], {}, node)
            return old
        if isinstance(old, DCT) and isinstance(op, ast.BitOr):
            self.call_method(old, "update", [new], {}, node)
            return old
        if isinstance(old, Obj) and old.cls is not None:
            name = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__"}.get(
                type(op).__name__)
            meth = old.cls.lookup(name) if name else None
            if meth is not None:
                return self.call(Bound(meth, old), [new], {}, node)
        return self.binop(op, old, new, node)

    def s_Delete(self, node):
        for target in node.targets:
            if isinstance(target, ast.Name):
                self.frames[-1].env.pop(target.id, None)
            elif isinstance(target, ast.Subscript):
                obj = self.ev(target.value)
                idx = self.ev_index(target.slice)
                self.delitem(obj, idx, node)
            elif isinstance(target, ast.Attribute):
                obj = self.ev(target.value)
                self.event("delattr", node, obj=obj, attr=target.attr)
                if isinstance(obj, Obj):
                    obj.fields.pop(target.attr, None)

    def s_Return(self, node):
        raise ReturnSig(NONE_V if node.value is None else self.ev(node.value))

    def s_Break(self, node):
        raise BreakSig()

    def s_Continue(self, node):
        raise ContinueSig()

    def s_If(self, node):
        if self.truth(self.ev(node.test), node.test):
            self.exec_block(node.body)
        else:
            self.exec_block(node.orelse)

    def s_Raise(self, node):
        if node.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise cur[-1]
            raise Raised("RuntimeError", (), node)
        val = self.ev(node.exc)
        name, args = self.exc_of(val)
        raise Raised(name, args, node, origin="raise")

    def exc_of(self, val):
        if isinstance(val, Bi):
            return val.name, ()
        if isinstance(val, Cls):
            return val, ()
        if isinstance(val, Obj):
            return (val.cls if val.cls is not None else getattr(val, "args", None) or
                    "Exception"), (val,)
        if isinstance(val, App) and val.op == "exc":
            return val.args[0].val, val.args[1:]
        if isinstance(val, Sym) and val.meta and isinstance(val.meta, Raised):
            return val.meta.exc, val.meta.eargs
        return "Exception", (val,)

    def s_Assert(self, node):
        if not self.truth(self.ev(node.test), node.test):
            raise Raised("AssertionError", (), node)

    def s_Global(self, node):
        self.frames[-1].globals_ |= set(node.names)

    def s_Nonlocal(self, node):
        self.frames[-1].nonlocals |= set(node.names)

    def s_Import(self, node):
        for alias in node.names:
            name = alias.name
            if name in models.ABSENT_MODULES:
                raise Raised("ImportError", (Const(name),), node)
            top = name if alias.asname else name.split(".")[0]
            info = self.repo.modules.get(top)
            self.store_name(alias.asname or top, Mod(top, info))

    def s_ImportFrom(self, node):
        module = self.frames[-1].module.name
        target = node.module or ""
        if node.level:
            base = module.split(".")
            is_pkg = self.frames[-1].module.path.endswith("__init__.py")
            drop = node.level - (1 if is_pkg else 0)
            base = base[: len(base) - drop] if drop else base
            target = ".".join(base + ([target] if target else []))
        if target == "__future__":
            return
        if target in self.repo.modules:
            env = self._module_env(target)
            for alias in node.names:
                if alias.name == "*":
                    names = env.get("__all__")
                    if isinstance(names, LST) and names.items is not None:
                        keys = [n.val for n in names.items]
                    else:
                        keys = [k for k in env if not k.startswith("_")]
                    for key in keys:
                        if key in env:
                            self.store_name(key, env[key])
                    continue
                if alias.name in env:
                    self.store_name(alias.asname or alias.name, env[alias.name])
                elif f"{target}.{alias.name}" in self.repo.modules:
                    sub = f"{target}.{alias.name}"
                    self._module_env(sub)
                    self.store_name(alias.asname or alias.name,
                                    Mod(sub, self.repo.modules[sub]))
                elif self.loading:
                    # circular import at load time: resolve late
                    self.store_name(alias.asname or alias.name,
                                    Bi(f"?{target}.{alias.name}"))
                else:
                    raise Raised("ImportError", (Const(alias.name),), node)
            return
        for alias in node.names:
            self.store_name(alias.asname or alias.name,
                            models.external(f"{target}.{alias.name}"))

    def s_FunctionDef(self, node):
        self.store_name(node.name, self.make_function(node))

    s_AsyncFunctionDef = s_FunctionDef

    def make_function(self, node, cls=None):
        frame = self.frames[-1]
        parent = frame if (frame.fn is not None or frame.cls is not None) else None
        if frame.cls is not None and frame.fn is None:
            parent = frame.parent  # class body
        fn = Fn(node, frame.module, parent, cls=cls)
        fn.defaults = (
            [self.ev(d) for d in node.args.defaults],
            [None if d is None else self.ev(d) for d in node.args.kw_defaults],
        )
        value = fn
        names = []
        for dec in reversed(node.decorator_list):
            base = dec.func if isinstance(dec, ast.Call) else dec
            if isinstance(base, ast.Attribute) and base.attr in ("setter", "deleter"):
                old = self.lookup(base.value.id, node) if isinstance(
                    base.value, ast.Name) else None
                if isinstance(old, Prop):
                    if base.attr == "setter":
                        value = Prop(old.getter, value, old.cached)
                    else:
                        value = old
                continue
            try:
                dval = self.ev(base)
            except (Raised, Unsupported):
                dval = None
            dname = dval.name if isinstance(dval, Bi) else ""
            names.append(dname)
            short = dname.split(".")[-1]
            if short == "property":
                value = Prop(value)
            elif short == "cached_property":
                value = Prop(value, cached=True)
            elif short in ("classmethod", "staticmethod"):
                value = Wrapped(short, value)
            elif short in ("lru_cache", "cache", "contextmanager", "wraps", "overload",
                           "override", "no_type_check", "abstractmethod"):
                pass
            elif isinstance(dval, (Fn, Bound)):
                value = self.call(dval, [value], {}, node)
        fn.decorators = tuple(names)
        return value

    def s_ClassDef(self, node):
        frame = self.frames[-1]
        cls = self.classes.get(node.name)
        if cls is None or cls.node is not node:
            cls = Cls(node.name, node, frame.module)
            if frame.fn is not None or node.name not in self.classes:
                self.classes.setdefault(node.name, cls)
            self._class_header(cls)
        cls.bases = []
        for base in node.bases:
            try:
                val = self.ev(base.value if isinstance(base, ast.Subscript) else base)
            except (Raised, Unsupported):
                continue
            if isinstance(val, (Cls, Bi)):
                cls.bases.append(val)
        sub = Frame(None, frame.module, frame if frame.fn is not None else None,
                    frame.depth)
        sub.cls = cls
        sub.env = cls.ns
        cls.ns.clear()
        cls.fields = []
        for base in cls.bases:
            if isinstance(base, Cls) and base.dataclass:
                cls.fields += base.fields
                cls.uncompared |= base.uncompared
                cls.unhashed |= base.unhashed
        self.frames.append(sub)
        try:
            for stmt in node.body:
                if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    cls.ns[stmt.name] = self.make_function(stmt, cls)
                elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                    name = stmt.target.id
                    ann = ast.unparse(stmt.annotation)
                    if not ann.startswith("ClassVar"):
                        init = True
                        default = stmt.value
                        if isinstance(default, ast.Call) and getattr(
                                default.func, "id", getattr(default.func, "attr", "")
                        ) == "field":
                            spec = {k.arg: k.value for k in default.keywords}
                            if isinstance(spec.get("init"), ast.Constant):
                                init = bool(spec["init"].value)
                            compared = getattr(spec.get("compare"), "value", True)
                            hashed = getattr(spec.get("hash"), "value", None)
                            if not compared:
                                cls.uncompared.add(name)
                            if not (compared if hashed is None else hashed):
                                cls.unhashed.add(name)
                            default = spec.get("default") or (
                                ("factory", spec["default_factory"])
                                if "default_factory" in spec else None)
                        cls.fields = [f for f in cls.fields if f[0] != name]
                        cls.fields.append((name, stmt.annotation, default, init))
                    if stmt.value is not None and not (
                            isinstance(stmt.value, ast.Call) and cls.dataclass):
                        cls.ns[name] = self.ev(stmt.value)
                elif isinstance(stmt, ast.Assign) and cls.is_enum:
                    for target in stmt.targets:
                        if isinstance(target, ast.Name):
                            val = self.ev(stmt.value)
                            member = EnumM(cls, target.id, val)
                            cls.members[target.id] = member
                            cls.ns[target.id] = member
                else:
                    self.exec_stmt(stmt)
        finally:
            self.frames.pop()
        self.store_name(node.name, cls)

    def s_With(self, node):
        self.run_with(node.items, node)

    def run_with(self, items, node):
        if not items:
            self.exec_block(node.body)
            return
        item, rest = items[0], items[1:]
        ctx = self.ev(item.context_expr)
        if isinstance(ctx, Gen) and any(
                d.endswith("contextmanager") for d in ctx.fn.decorators):
            outer = self.frames[-1]
            pending = []

            def body(val):
                # `yield` in the context manager: run the with-body in the caller's frame
                self.frames.append(outer)
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, val)
                    try:
                        self.run_with(rest, node)
                    except (ReturnSig, BreakSig, ContinueSig) as sig:
                        pending.append(sig)
                finally:
                    self.frames.pop()
                return NONE_V

            self.run_gen(ctx, body)
            if pending:
                raise pending[0]
            return
        if models.kind_of(ctx) == "ExitStack":
            if item.optional_vars is not None:
                self.assign(item.optional_vars, ctx)
            self.run_exitstack(ctx, item.optional_vars, rest, node.body, node)
            return
        if isinstance(ctx, Obj) and ctx.cls is not None and ctx.cls.lookup("__enter__"):
            val = self.call(Bound(ctx.cls.lookup("__enter__"), ctx), [], {}, node)
            exit_ = Bound(ctx.cls.lookup("__exit__"), ctx)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val)
            try:
                self.run_with(rest, node)
            except Raised as exc:
                sym = Sym(self.fresh("exc"), ANY, meta=exc)
                if self.truth(self.call(exit_, [sym, sym, NONE_V], {}, node)):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(exit_, [NONE_V] * 3, {}, node)
                raise
            self.call(exit_, [NONE_V] * 3, {}, node)
            return
        self.event("ext", node, name="__enter__", recv=ctx, args=(), kwargs={})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, ctx)
        name = ctx.args[0].val if isinstance(ctx, App) and ctx.op == "ctx" else ""
        try:
            self.run_with(rest, node)
        except Raised as exc:
            self.event("ext", node, name="__exit__", recv=ctx, args=(), kwargs={})
            if models.suppresses(self, ctx, exc):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.event("ext", node, name="__exit__", recv=ctx, args=(), kwargs={})
            raise
        self.event("ext", node, name="__exit__", recv=ctx, args=(), kwargs={})

    def run_exitstack(self, stack, var, rest, body, node):
        """The body of `with ExitStack()`; contexts entered by it nest the rest of it."""

        keep = len(stack.fields["todo"])
        try:
            if rest:
                self.run_with(rest, node)
            else:
                self.exitstack_body(stack, var, body, node)
        except (Raised, ReturnSig, BreakSig, ContinueSig, GenBreak):
            models.run_exitstack(self, stack, keep, node)
            raise
        models.run_exitstack(self, stack, keep, node)

    def exitstack_body(self, stack, var, body, node):
        for i, stmt in enumerate(body):
            call = stmt.value if isinstance(stmt, (ast.Expr, ast.Assign)) else None
            if isinstance(var, ast.Name) and isinstance(call, ast.Call) and isinstance(
                    call.func, ast.Attribute) and call.func.attr == "enter_context" \
                    and isinstance(call.func.value, ast.Name) \
                    and call.func.value.id == var.id and len(call.args) == 1:
                target = stmt.targets[0] if isinstance(stmt, ast.Assign) else None
                inner = ast.With(items=[ast.withitem(call.args[0], target)],
                                 body=[_Rest(stack, var, body[i + 1:], node)])
                ast.copy_location(inner, stmt)
                ast.copy_location(inner.body[0], stmt)
                self.exec_stmt(inner)
                return
            self.exec_stmt(stmt)

    def s__Rest(self, node):
        self.run_exitstack(node.stack, node.var, [], node.rest, node.outer)

    def s_Try(self, node):
        try:
            self._try_except(node)
        except (Raised, ReturnSig, BreakSig, ContinueSig, GenBreak):
            self.exec_block(node.finalbody)
            raise
        self.exec_block(node.finalbody)

    def _try_except(self, node):
        try:
            self.exec_block(node.body)
        except Raised as exc:
            for handler in node.handlers:
                if self.exc_matches(handler.type, exc):
                    if handler.name:
                        self.store_name(handler.name,
                                        Sym(self.fresh("exc"), ANY, meta=exc))
                    self.event("handled", handler, exc=exc_name(exc.exc))
                    if not hasattr(self, "handling"):
                        self.handling = []
                    self.handling.append(exc)
                    try:
                        self.exec_block(handler.body)
                    finally:
                        self.handling.pop()
                    return
            raise
        self.exec_block(node.orelse)

    def exc_matches(self, typ, exc):
        if typ is None:
            return True
        val = self.ev(typ)
        vals = val.items if isinstance(val, Tup) else [val]
        for cand in vals:
            if isinstance(cand, Bi):
                if exc_is(exc.exc, cand.name.split(".")[-1]):
                    return True
            elif isinstance(cand, Cls):
                if isinstance(exc.exc, Cls) and cand in exc.exc.mro():
                    return True
        return False

    def s_Match(self, node):
        subject = self.ev(node.subject)
        for case in node.cases:
            if self.match_pattern(case.pattern, subject):
                if case.guard is None or self.truth(self.ev(case.guard), case.guard):
                    self.exec_block(case.body)
                    return

    def match_pattern(self, pat, val):
        if isinstance(pat, ast.MatchValue):
            return self.truth(self.equals(val, self.ev(pat.value), pat))
        if isinstance(pat, ast.MatchSingleton):
            return self.truth(self.identical(val, Const(pat.value)))
        if isinstance(pat, ast.MatchOr):
            return any(self.match_pattern(p, val) for p in pat.patterns)
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is not None and not self.match_pattern(pat.pattern, val):
                return False
            if pat.name:
                self.store_name(pat.name, val)
            return True
        if isinstance(pat, ast.MatchSequence) and isinstance(val, Tup):
            if len(val.items) != len(pat.patterns):
                return False
            return all(self.match_pattern(p, v) for p, v in zip(pat.patterns, val.items))
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            return self.truth(self.isinstance_(val, self.ev(pat.cls), pat))
        raise Unsupported("match pattern", pat)

    # -- loops ---------------------------------------------------------------------------

    def loop_key(self, node):
        chain = "/".join(
            f"{f.fn.qualname}" for f in self.frames if f.fn is not None)
        return f"{chain}:{self.site(node)}"

    def s_For(self, node):
        it = self.ev(node.iter)
        if isinstance(it, Gen) and not isinstance(it.fn, (ast.GeneratorExp,)):
            self.for_gen(node, it)
            return
        items = self.seq_items(it, node)
        if items is not None and len(items) <= self.config.unroll:
            broke = False
            for item in items:
                self.assign(node.target, item)
                try:
                    self.exec_block(node.body)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    continue
            if not broke:
                self.exec_block(node.orelse)
            return
        self.widened_loop(node, it)

    def for_gen(self, node, gen):
        outer = self.frames[-1]
        token = object()
        left = []

        def body(val):
            self.frames.append(outer)
            try:
                self.assign(node.target, val)
                try:
                    self.exec_block(node.body)
                except ContinueSig:
                    pass
                except BreakSig:
                    raise GenBreak(token) from None
                except ReturnSig as sig:
                    left.append(sig.val)
                    raise GenBreak(token) from None
            finally:
                self.frames.pop()
            return NONE_V

        try:
            self.run_gen(gen, body)
        except GenBreak as brk:
            if brk.token is not token:
                raise
            if left:
                raise ReturnSig(left[0]) from None
            return
        gen.spent = True
        self.exec_block(node.orelse)

    def s_While(self, node):
        """Runs a loop as long as its test is known; a loop with an unknown test is widened."""

        key = self.loop_key(node)
        if key in self.widened or getattr(self, "loading", False):
            self.widened_loop(node, None)
            return
        endless = isinstance(node.test, ast.Constant)
        rounds = 0
        while True:
            before = self.pos
            goes_on = self.truth(self.ev(node.test), node.test)
            rounds += 1
            if self.pos != before or rounds > self.config.unroll:
                self.widened.add(key)
                raise Widen
            if not goes_on:
                self.exec_block(node.orelse)
                return
            try:
                self.exec_block(node.body)
            except BreakSig:
                return
            except ContinueSig:
                pass
            if endless and self.pos != before:
                self.widened.add(key)
                raise Widen

    def widened_loop(self, node, it):
        key = self.loop_key(node)
        lid = self.fresh(f"L{getattr(node, 'lineno', 0)}")
        frame = self.frames[-1]
        ctx = LoopCtx(lid, key, self.clock, frame, node, len(self.frames))
        log = {"key": key, "node": node, "init": {}, "phi": {}, "back": None, "iter": it,
               "fn": frame.fn.qualname if frame.fn else "<module>",
               "file": frame.module.file}
        self.loop_log[lid] = log
        trip = self.trip_count(it) if it is not None else None
        log["trip"] = trip
        choice = None
        if it is not None:
            choice = self.choose(2)  # 0: leave, 1: generic iteration
        names = assigned_names(node)
        saved_len = {}
        index = None
        elem = None
        # widen
        for name in sorted(names):
            if name in frame.env:
                init = frame.env[name]
                log["init"][name] = init
                phi = self.widen_value(f"{lid}.{name}", init, (key, name))
                log["phi"][name] = phi
                frame.env[name] = phi
        for loc in sorted(self.havoc.get(key, ()), key=repr):
            if loc[0] == "var":
                for other in self.frames:
                    if other.depth == loc[1] and loc[2] in other.env:
                        init = other.env[loc[2]]
                        phi = self.widen_value(f"{lid}.{loc[2]}", init, (key, loc[2]))
                        log["init"].setdefault(loc[2], init)
                        log["phi"][loc[2]] = phi
                        other.env[loc[2]] = phi
                        break
            elif loc[0] == "field":
                for obj in self.by_site.get(loc[1], ()):
                    if isinstance(obj, Obj) and obj.born <= ctx.start:
                        init = self.getattr(obj, loc[2], node)
                        phi = self.widen_value(
                            f"{lid}.{obj.oid}.{loc[2]}", init, (key, loc[1:]))
                        log["init"][(obj.oid, loc[2])] = init
                        log["phi"][(obj.oid, loc[2])] = phi
                        obj.fields[loc[2]] = phi
        conts = {}
        for loc in self.havoc.get(key, ()):
            if loc[0] == "cont":
                conts.setdefault(loc[1], set()).add(loc[2])
        for csite in sorted(conts):
            for obj in self.by_site.get(csite, ()):
                if obj.born <= ctx.start:
                    saved_len[obj.oid] = self.widen_container(
                        obj, lid, conts[csite], self.summ.get((key, csite)))
        if conts:
            for objs in list(self.by_site.values()):
                for obj in objs:
                    if isinstance(obj, LST) and obj.born <= ctx.start and isinstance(
                            obj.proto, LST):
                        obj.proto = self._widen_proto(obj.proto, lid, conts, set())
        self.loop_stack.append(ctx)
        try:
            if it is None:
                test = self.truth(self.ev(node.test), node.test)
                choice = 1 if test else 0
            if choice == 0:
                self.event("loop", node, lid=lid, what="exit")
                self.after_loop(key, lid, saved_len, trip)
                self.loop_stack.pop()
                ctx = None
                self.exec_block(node.orelse)
                return
            self.event("loop", node, lid=lid, what="iter")
            if it is not None:
                elem, index = self.generic_element(it, lid, node)
            ctx.index = index
            log["index"] = index
            self.during_loop(key, lid, saved_len, index)
            marks = {oid: len(ops) for oid, ops in self._op_logs().items()}
            if it is not None:
                self.assign(node.target, elem)
                log["elem"] = elem
            try:
                self.exec_block(node.body)
            except ContinueSig:
                pass
            except BreakSig:
                self.event("loop", node, lid=lid, what="break")
                self.new_breaks.add(key)
                self.loop_stack.remove(ctx)
                ctx = None
                return
            # back edge
            back = {}
            for name in names:
                if name in frame.env:
                    back[name] = frame.env[name]
                    typ = self.flow_type(frame.env[name])
                    self.learn((key, name), typ)
            for pkey in log["phi"]:
                if isinstance(pkey, tuple):
                    for objs in self.by_site.values():
                        for obj in objs:
                            if isinstance(obj, Obj) and obj.oid == pkey[0]:
                                back[pkey] = obj.fields.get(pkey[1])
            log["back"] = back
            self._check_shapes(key, log)
            for oid, ops in self._op_logs().items():
                obj = self._by_oid(oid)
                self.sum_updates.append(((key, obj.site), ops[marks.get(oid, 0):]))
            self.backedge_info = log
            raise PathEnd("backedge", lid)
        finally:
            if ctx is not None and ctx in self.loop_stack:
                self.loop_stack.remove(ctx)

    def _check_shapes(self, key, log):
        for name, phi in log["phi"].items():
            now = log["back"].get(name)
            if not isinstance(phi, LST) or now is phi:
                continue
            lkey = (key, name)
            if isinstance(name, tuple):
                obj = self._by_oid(name[0])
                lkey = (key, (obj.site, name[1]))
            if not isinstance(now, LST):
                self.learned[(lkey, "len")] = self.learned[(lkey, "rows")] = ("no",)
                continue
            if self.facts.eq_implied(self.length(now), self.length(phi)) is not True:
                self.learned[(lkey, "len")] = ("no",)
            if phi.row_len is not None:
                rows = models.row_len(self, now)
                if rows is None or self.facts.eq_implied(rows, phi.row_len) is not True:
                    self.learned[(lkey, "rows")] = ("no",)

    def flow_type(self, val):
        """Type of a value, narrowed by what is known on this path."""

        if isinstance(val, Tup):
            return tuple_type([self.flow_type(i) for i in val.items], val.cls)
        if isinstance(val, (Sym, App)) and ty_of(val)[0] == "union":
            parts = ty_of(val)[1]
            if NONE in parts:
                known = self.facts.implied(("isnone", val))
                if known is None and self.facts.implied(("truthy", val)) is True:
                    known = False
                if known is True:
                    return NONE
                if known is False:
                    rest = tuple(p for p in parts if p != NONE)
                    return rest[0] if len(rest) == 1 else ("union", rest)
        return ty_of(val)

    def learn(self, key, typ, join=ty_union):
        old = self.learned.get(key)
        new = typ if old is None else join(old, typ)
        if new != old:
            self.learned[key] = new

    def _op_logs(self):
        out = {}
        for objs in self.by_site.values():
            for obj in objs:
                if isinstance(obj, (LST, DCT)) and obj.ops:
                    out[obj.oid] = obj.ops
        return out

    def _by_oid(self, oid):
        for objs in self.by_site.values():
            for obj in objs:
                if obj.oid == oid:
                    return obj
        return None

    def widen_value(self, name, init, lkey):
        typ = ty_of(init)
        learned = self.learned.get(lkey)
        if isinstance(init, Tup):
            if learned is not None and (learned[0] != "tuple"
                                        or len(learned[1]) != len(init.items)):
                return Sym(name, ty_union(typ, learned))
            return Tup([
                self.widen_value(f"{name}[{i}]", v, (lkey, i))
                for i, v in enumerate(init.items)], init.cls)
        if learned is not None:
            typ = ty_join(typ, learned)
        if isinstance(init, LST):
            if init.items is not None and not init.items and learned is not None:
                typ = learned
            lst = self.sym_list(self.fresh(name), elem=typ[1] if typ[0] == "list" else ANY)
            if typ[0] != "list":
                return Sym(name, ANY)
            # until refuted at a back edge, the loop is taken to keep lengths
            if (lkey, "len") not in self.learned:
                lst.length = self.length(init)
            if (lkey, "rows") not in self.learned:
                lst.row_len = models.row_len(self, init)
            return lst
        if isinstance(init, Heap):
            if isinstance(init, Obj) and init.cls is not None and init.cls.frozen:
                return Sym(name, typ)
            if learned is None or learned == ty_of(init):
                return init if isinstance(init, Obj) else Sym(name, ANY)
            return Sym(name, typ)
        if isinstance(init, (Fn, Bound, BM, Cls, Mod, Bi, Partial)):
            return init if learned is None or learned == ty_of(init) else Sym(name, ANY)
        if typ == BOOL:
            return Sym(name, BOOL)
        return Sym(name, typ)

    @staticmethod
    def _balanced(runs):
        """Every analysed iteration leaves the length as it was."""

        if runs is None:
            return False
        delta = {"append": 1, "insert": 1, "pop": -1, "remove": -1, "delitem": -1,
                 "setitem": 0, "sort": 0, "reverse": 0}
        return all(
            all(op[0] in delta for op in ops) and sum(delta[op[0]] for op in ops) == 0
            for ops in runs)

    def _widen_proto(self, proto, lid, conts, seen):
        """Elements described by a prototype may be modified by the loop, too."""

        if id(proto) in seen or any(
                proto is o for o in self.by_site.get(proto.site, ())):
            return proto  # widened by itself
        seen.add(id(proto))
        inner = proto.proto
        if isinstance(inner, LST):
            inner = self._widen_proto(inner, lid, conts, seen)
        hit = conts.get(proto.site)
        if hit is None and inner is proto.proto:
            return proto
        new = self.sym_list(self.fresh(f"{proto.oid}|{lid}"), length=self.length(proto),
                            elem=proto.elem, site=proto.site)
        new.proto, new.proto_fresh = inner, proto.proto_fresh
        new.row_len, new.born = proto.row_len, proto.born
        if proto.items is not None and not hit:
            new.items = list(proto.items)
        if hit:
            new.elem = self.learned_elem(proto)
            new.proto = None
            if "len" in hit:
                new.length = Sym(f"len({new.name})", INT, lo=0)
        return new

    def learned_elem(self, lst):
        got = self.learned.get(("elem", lst.site))
        if got is None:
            return lst.elem
        if lst.items is not None and not lst.items:
            return got
        if lst.items is not None and lst.elem == ANY:
            old = ty_of(lst.items[0])
            for item in lst.items[1:]:
                old = ty_join(old, ty_of(item))
            return ty_join(old, got)
        return ty_join(lst.elem, got)

    def widen_container(self, obj, lid, kinds, runs):
        if isinstance(obj, LST):
            length = self.length(obj)
            keep = "len" not in kinds or self._balanced(runs)
            proto, fresh = obj.proto, obj.proto_fresh
            if obj.items is not None:
                proto, fresh = None, False
                if obj.items and all(i is obj.items[0] for i in obj.items):
                    proto = obj.items[0]
            obj.elem = self.learned_elem(obj)
            obj.items = None
            obj.name = obj.name or obj.oid
            obj.version += 1
            obj.name = f"{obj.oid}|{lid}"
            obj.known = {}
            obj.proto = None
            if "rows" in kinds:
                obj.row_len = None
            if keep:
                obj.length = length
                return None
            obj.length = Sym(f"len({obj.name})", INT, lo=0)
            obj.ops = (obj.ops or []) + [("widened",)]
            return length
        if isinstance(obj, DCT):
            obj.sym = True
            obj.items = {}
            obj.name = f"{obj.oid}|{lid}"
            obj.version += 1
        return None

    def _summary(self, key, obj):
        """One unconditional append per iteration in the previous round?"""

        runs = self.summ.get((key, obj.site))
        if not runs or key in self.loop_breaks:
            return None
        for ops in runs:
            if len(ops) != 1 or ops[0][0] != "append":
                return None
        return runs[0][0][1]

    def after_loop(self, key, lid, saved, trip):
        if trip is None:
            return
        for oid, length in saved.items():
            obj = self._by_oid(oid)
            if isinstance(obj, LST) and length is not None:
                value = self._summary(key, obj)
                if value is not None:
                    obj.length = self.add(length, trip)
                    proto = self._generalise(value, lid)
                    if proto is not None:
                        obj.proto, obj.proto_fresh = proto
                        obj.elem = ty_of(proto[0])

    def during_loop(self, key, lid, saved, index):
        for oid, length in saved.items():
            obj = self._by_oid(oid)
            if isinstance(obj, LST) and length is not None and index is not None:
                value = self._summary(key, obj)
                if value is not None:
                    obj.length = self.add(length, index)

    def _generalise(self, value, lid):
        """A value appended in every iteration, as a description of all elements."""

        if isinstance(value, LST):
            return value, True
        if isinstance(value, Const):
            return value, False
        if isinstance(value, Tup) and all(isinstance(v, (Const, Sym)) and not str(
                getattr(v, "name", "")).startswith("L") for v in value.items):
            return value, False
        return None

    def trip_count(self, it):
        if isinstance(it, Lazy):
            if it.kind == "range":
                args = it.args
                if len(args) == 1:
                    return args[0]
                if len(args) == 2:
                    return self.sub(args[1], args[0])
                return None
            if it.kind in ("enumerate", "reversed", "map"):
                return self.trip_count(it.args[-1] if it.kind == "map" else it.args[0])
            if it.kind == "zip":
                counts = [self.trip_count(a) for a in it.args]
                if not counts or any(c is None for c in counts):
                    return None
                short = counts[0]
                for count in counts[1:]:
                    if self.facts.eq_implied(short, count) is not True:
                        short = App("min", (short, count), INT)
                return short
            return None
        if isinstance(it, LST):
            return self.length(it)
        if isinstance(it, (Sym, App, Cat)) and self.cur_type(it) == STR:
            return self.length(it)
        return None

    def generic_element(self, it, lid, node, index=None):
        """(element, 0-based iteration index) of a generic iteration."""

        if index is None:
            index = Sym(f"{lid}.i", INT, lo=0)
        if isinstance(it, Lazy):
            if it.kind == "range":
                args = it.args
                if len(args) == 1:
                    start, stop, step = Const(0), args[0], Const(1)
                else:
                    start, stop = args[0], args[1]
                    step = args[2] if len(args) > 2 else Const(1)
                if isinstance(step, Const) and step.val == 1:
                    var = self.add(start, index)
                    self.require(self.facts.lin_atom(var, stop, True))
                    return var, index
                if isinstance(step, Const) and step.val == -1:
                    var = self.sub(start, index)
                    self.require(self.facts.lin_atom(stop, var, True))
                    return var, index
                return Sym(f"{lid}.v", INT), index
            if it.kind == "enumerate":
                elem, index = self.generic_element(it.args[0], lid, node, index)
                start = it.args[1] if len(it.args) > 1 else Const(0)
                return Tup((self.add(index, start), elem)), index
            if it.kind == "zip":
                return Tup(
                    self.generic_element(a, lid, node, index)[0] for a in it.args), index
            if it.kind == "map":
                elem, index = self.generic_element(it.args[1], lid, node, index)
                return self.call(it.args[0], [elem], {}, node), index
            if it.kind == "filter":
                elem, _ = self.generic_element(it.args[1], lid, node)
                if not isinstance(it.args[0], Const):
                    self.require_val(self.call(it.args[0], [elem], {}, node))
                return elem, None
            if it.kind == "reversed":
                seq = it.args[0]
                if isinstance(seq, LST):
                    self.require(self.facts.lin_atom(index, self.length(seq), True))
                    pos = self.sub(self.sub(self.length(seq), index), Const(1))
                    return self.getitem(seq, pos, node), index
                return self.generic_element(seq, lid, node)[0], index
            if it.kind in ("items", "keys", "values"):
                dct = it.args[0]
                key = self.make_sym(f"{lid}.key", dct.key_ty)
                if it.kind == "keys":
                    return key, None
                val = App("dictitem", (Sym(f"{dct.name}@{dct.version}"), key), dct.val_ty)
                if it.kind == "values":
                    return val, None
                return Tup((key, val)), None
            if it.kind == "chain":
                return Sym(f"{lid}.v", ANY), None
        if isinstance(it, LST):
            self.require(self.facts.lin_atom(index, self.length(it), True))
            return self.getitem(it, index, node), index
        if isinstance(it, DCT):
            return self.make_sym(f"{lid}.key", it.key_ty), None
        if isinstance(it, Gen) and isinstance(it.fn, Fn):
            raise Unsupported("iteration over a generator of unknown length")
        if isinstance(it, Gen):  # generator expression over something symbolic
            genx, frame = it.fn, it.bound
            return self.genexp_element(genx, frame, lid, node)
        typ = self.cur_type(it)
        if typ == STR:
            self.require(self.facts.lin_atom(index, self.length(it), True))
            return self.str_index(it, index, node), index
        if typ[0] in ("iter", "list"):
            base = it.name if isinstance(it, Sym) else repr(it)
            self.require(self.facts.lin_atom(index, self.length(it), True))
            return self.make_item(it, index, typ[1]), index
        if isinstance(it, Bi) or isinstance(it, Cls):
            return Sym(f"{lid}.e", ANY), None
        return self.make_item(it, index, ANY), index

    def make_item(self, base, index, typ):
        term = App("item", (base, index), typ)
        return self.materialise(term)

    def materialise(self, term):
        """Gives structure to a term of tuple / list / mutable-class type."""

        typ = term.ty
        if typ[0] == "tuple":
            return Tup([self.materialise(App("item", (term, Const(i)), t))
                        for i, t in enumerate(typ[1])], *typ[2:])
        if typ[0] == "list":
            mkey = ("mat", term)
            if mkey not in self.memo:
                self.memo[mkey] = self.sym_list(repr(term), elem=typ[1])
            return self.memo[mkey]
        if typ[0] == "cls":
            cls = self.classes.get(typ[1])
            if cls is not None and not cls.is_enum and not cls.frozen:
                mkey = ("mat", term)
                if mkey not in self.memo:
                    self.memo[mkey] = self.new_obj(cls, lazy=repr(term))
                return self.memo[mkey]
        return term

    def genexp_element(self, genx, frame, lid, node):
        gen = genx.generators[0]
        saved = self.frames
        sub = Frame(frame.fn, frame.module, frame, frame.depth + 1)
        self.frames = self.frames + [sub]
        try:
            it = self.ev(gen.iter)
            elem, _ = self.generic_element(it, lid, node)
            self.assign(gen.target, elem)
            for cond in gen.ifs:
                self.require_val(self.ev(cond))
            return self.ev(genx.elt), None
        finally:
            self.frames = saved

    def require(self, atom):
        """Restrict the path to where the atom holds."""

        if isinstance(atom, bool):
            if not atom:
                raise PathEnd("infeasible")
            return
        res = self.facts.implied(atom)
        if res is False:
            raise PathEnd("infeasible")
        if res is None:
            self.facts.assume(atom, True)

    def require_val(self, val):
        if isinstance(val, Cmp):
            res = self.facts.implied(val.atom)
            if res is None:
                self.facts.assume(val.atom, val.pol)
            elif res is not val.pol:
                raise PathEnd("infeasible")
            return
        if not self.truth(val):
            raise PathEnd("infeasible")

    # -- generators ----------------------------------------------------------------------

    def run_gen(self, gen, on_yield):
        """Runs a generator function, calling on_yield(value) at every yield."""

        if gen.spent:
            return NONE_V
        frame = gen.bound
        frame.hook = on_yield
        frame.depth = len(self.frames) + 1
        self.frames.append(frame)
        if len(self.frames) > self.config.max_depth * 3:
            raise PathEnd("limit", "generator depth")
        try:
            self.exec_block(gen.fn.node.body)
        except ReturnSig as sig:
            return sig.val
        finally:
            self.frames.pop()
        return NONE_V

    def e_Yield(self, node):
        val = NONE_V if node.value is None else self.ev(node.value)
        frame = self.frames[-1]
        hook_frame = frame
        while hook_frame is not None and hook_frame.hook is None:
            hook_frame = hook_frame.parent if hook_frame.fn is None else None
        if hook_frame is None:
            self.event("yield", node, value=val)
            return Sym(self.fresh("sent"), ANY)
        self.event("yield", node, value=val)
        popped = self.frames.pop()
        try:
            return hook_frame.hook(val)
        finally:
            self.frames.append(popped)

    def e_YieldFrom(self, node):
        it = self.ev(node.value)
        frame = self.frames[-1]
        if isinstance(it, Gen) and isinstance(it.fn, Fn):
            def forward(val):
                self.event("yield", node, value=val)
                if frame.hook is None:
                    return NONE_V
                popped = self.frames.pop()
                try:
                    return frame.hook(val)
                finally:
                    self.frames.append(popped)
            return self.run_gen(it, forward)
        items = self.seq_items(it, node)
        if items is None:
            self.event("yield_from", node, value=it)
            return NONE_V
        for item in items:
            self.event("yield", node, value=item)
            if frame.hook is not None:
                popped = self.frames.pop()
                try:
                    frame.hook(item)
                finally:
                    self.frames.append(popped)
        return NONE_V

    def collect(self, gen, node):
        """list(generator): LST, symbolic when a widened loop produced elements."""

        out = []
        loops_before = len(self.loop_log)
        typ = ANY
        ret = gen.fn.node.returns if isinstance(gen.fn, Fn) else None
        if ret is not None:
            rty = self.parse_type(ret, gen.fn.module)
            if rty[0] == "iter":
                typ = rty[1]

        def take(val):
            out.append(val)
            return NONE_V

        self.run_gen(gen, take)
        if len(self.loop_log) > loops_before:
            name = self.fresh(f"list({gen.fn.qualname})")
            lst = self.sym_list(name, elem=typ)
            lst.partial = True
            return lst
        gen.spent = True
        return self.new_list(out, node)

    # -- assignment ----------------------------------------------------------------------

    def assign(self, target, val):
        if isinstance(target, ast.Name):
            self.store_name(target.id, val)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target, val)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value), target.attr, val, target)
        elif isinstance(target, ast.Subscript):
            obj = self.ev(target.value)
            self.setitem(obj, self.ev_index(target.slice), val, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, val)
        else:
            raise Unsupported("assignment target", target)

    def unpack(self, target, val):
        elts = target.elts
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.seq_items(val, target)
        if items is not None:
            if not star and len(items) != len(elts):
                raise Raised("ValueError", (Const("unpack"),), target)
            if star:
                pos = star[0]
                tail = len(elts) - pos - 1
                if len(items) < len(elts) - 1:
                    raise Raised("ValueError", (Const("unpack"),), target)
                for elt, item in zip(elts[:pos], items[:pos]):
                    self.assign(elt, item)
                mid = items[pos: len(items) - tail]
                self.assign(elts[pos].value, self.new_list(list(mid), target))
                for elt, item in zip(elts[pos + 1:], items[len(items) - tail:]):
                    self.assign(elt, item)
                return
            for elt, item in zip(elts, items):
                self.assign(elt, item)
            return
        if isinstance(val, Const):
            raise Raised("TypeError", (Const("unpack"),), target)
        count = len(elts)
        if isinstance(val, Sym) or isinstance(val, App):
            typ = self.cur_type(val)
            if typ[0] == "union" and NONE in typ[1]:
                if self.truth(self.identical(val, NONE_V)):
                    raise Raised("TypeError", (Const("unpack None"),), target)
                typ = self.cur_type(val)
            if typ == NONE:
                raise Raised("TypeError", (Const("unpack None"),), target)
            if typ[0] == "tuple":
                for i, (elt, sub) in enumerate(zip(elts, typ[1])):
                    self.assign(elt, self.materialise(App("item", (val, Const(i)), sub)))
                return
        if isinstance(val, LST):
            if self.config.check_partial and not star:
                atom = self.eq_atom(self.length(val), Const(count))
                if not self.decide(atom) if not isinstance(atom, bool) else not atom:
                    raise Raised("ValueError", (Const("unpack length"),), target)
            for i, elt in enumerate(elts):
                if isinstance(elt, ast.Starred):
                    self.assign(elt.value, self.sym_list(self.fresh("rest"), elem=val.elem))
                    continue
                idx = Const(i) if not star or i < star[0] else Const(i - count)
                self.assign(elt, self.list_get(val, idx, target, checked=True))
            return
        elem = ANY
        typ = self.cur_type(val)
        if typ[0] in ("iter", "list"):
            elem = typ[1]
        for i, elt in enumerate(elts):
            if isinstance(elt, ast.Starred):
                self.assign(elt.value, self.sym_list(self.fresh("rest"), elem=elem))
                continue
            self.assign(elt, self.materialise(App("item", (as_term(val), Const(i)), elem)))

    # -- expressions ---------------------------------------------------------------------

    def ev(self, node):
        method = getattr(self, "e_" + type(node).__name__, None)
        if method is None:
            raise Unsupported(f"expression {type(node).__name__}", node)
        return method(node)

    def e_Constant(self, node):
        return Const(node.value)

    def e_Name(self, node):
        val = self.lookup(node.id, node)
        if isinstance(val, Bi) and val.name.startswith("?"):
            mod, _, attr = val.name[1:].rpartition(".")
            env = self.mods.get(mod, {})
            if attr in env:
                return env[attr]
        return val

    def e_NamedExpr(self, node):
        val = self.ev(node.value)
        self.assign(node.target, val)
        return val

    def e_Tuple(self, node):
        return Tup(self.ev_elts(node.elts))

    def e_List(self, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            if len(node.elts) == 1:
                return models.to_list(self, self.ev(node.elts[0].value), node)
            out = []
            for elt in node.elts:
                if isinstance(elt, ast.Starred):
                    val = self.ev(elt.value)
                    items = self.seq_items(val, node)
                    if items is None:
                        lst = self.sym_list(self.fresh("list*"))
                        return lst
                    out += items
                else:
                    out.append(self.ev(elt))
            return self.new_list(out, node)
        return self.new_list([self.ev(e) for e in node.elts], node)

    def e_Set(self, node):
        return self.new_dict({self.hkey(self.ev(e)): TRUE for e in node.elts}, node, "set")

    def ev_elts(self, elts):
        out = []
        for elt in elts:
            if isinstance(elt, ast.Starred):
                items = self.seq_items(self.ev(elt.value), elt)
                if items is None:
                    raise Unsupported("star of unknown length", elt)
                out += items
            else:
                out.append(self.ev(elt))
        return out

    def e_Dict(self, node):
        dct = self.new_dict({}, node)
        for key, val in zip(node.keys, node.values):
            if key is None:
                other = self.ev(val)
                self.dict_update(dct, other, node)
            else:
                kval = self.ev(key)
                dct.items[self.hkey(kval)] = self.ev(val)
        return dct

    def hkey(self, val, dct=None):
        if isinstance(val, Term):
            val = self.facts.resolve(val)
        if dct is not None and dct.items and holds_object(val) and val not in dct.items:
            key = self.hash_key(val)
            for cand in list(dct.items) if key is not None else ():
                if holds_object(cand) and self.hash_key(cand) == key and self.truth(
                        self.equals(cand, val, None)):
                    return cand
        return val

    def settled(self, key):
        """Whether it is known of this key which others it is equal to."""

        if isinstance(key, (Const, EnumM)):
            return True
        if isinstance(key, Tup):
            return all(self.settled(i) for i in key.items)
        return isinstance(key, Obj) and key.cls is not None and not unsettled(
            self.hash_key(key))

    def e_JoinedStr(self, node):
        return self.concat([self.ev(v) for v in node.values])

    def e_FormattedValue(self, node):
        val = self.ev(node.value)
        if node.conversion == ord("r"):
            val = models.repr_of(self, val, node)
        elif node.conversion == ord("s"):
            val = self.to_str(val, node)
        spec = None
        if node.format_spec is not None:
            spec = self.ev(node.format_spec)
            if isinstance(spec, Const) and spec.val == "":
                spec = None
        if spec is None:
            return self.to_str(val, node)
        return models.format_(self, val, spec, node)

    def e_BoolOp(self, node):
        is_and = isinstance(node.op, ast.And)
        val = None
        for i, sub in enumerate(node.values):
            val = self.ev(sub)
            if i == len(node.values) - 1:
                return val
            truth = self.truth(val, sub)
            if truth != is_and:
                if isinstance(val, Cmp):
                    return Const(truth)
                return val
        return val

    def e_UnaryOp(self, node):
        val = self.ev(node.operand)
        if isinstance(node.op, ast.Not):
            if isinstance(val, Cmp):
                return Cmp(val.atom, not val.pol)
            return Const(not self.truth(val, node.operand))
        if isinstance(node.op, ast.USub):
            if isinstance(val, Const):
                return Const(-val.val)
            return self.sub(Const(0), val)
        if isinstance(node.op, ast.UAdd):
            return val
        if isinstance(val, Const):
            return Const(~val.val)
        return App("invert", (val,), INT)

    def e_BinOp(self, node):
        left = self.ev(node.left)
        right = self.ev(node.right)
        return self.binop(node.op, left, right, node)

    def e_Compare(self, node):
        left = self.ev(node.left)
        result = None
        for op, comp in zip(node.ops, node.comparators):
            right = self.ev(comp)
            val = self.compare(op, left, right, node)
            if len(node.ops) == 1:
                return val
            if not self.truth(val, node):
                return FALSE
            result = TRUE
            left = right
        return result

    def e_IfExp(self, node):
        if self.truth(self.ev(node.test), node.test):
            return self.ev(node.body)
        return self.ev(node.orelse)

    def e_Lambda(self, node):
        fn = Fn(node, self.frames[-1].module, self.frames[-1], name="<lambda>")
        fn.defaults = ([self.ev(d) for d in node.args.defaults],
                       [None if d is None else self.ev(d) for d in node.args.kw_defaults])
        return fn

    def e_Attribute(self, node):
        obj = self.ev(node.value)
        return self.getattr(obj, node.attr, node)

    def e_Subscript(self, node):
        obj = self.ev(node.value)
        return self.getitem(obj, self.ev_index(node.slice), node)

    def ev_index(self, node):
        if isinstance(node, ast.Slice):
            return Slice(*(NONE_V if p is None else self.ev(p)
                           for p in (node.lower, node.upper, node.step)))
        return self.ev(node)

    def e_Slice(self, node):
        return self.ev_index(node)

    def e_Starred(self, node):
        raise Unsupported("starred expression", node)

    def e_Call(self, node):
        # super() needs the calling frame
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            frame = self.frames[-1]
            return Super(frame.cls, frame.self_val)
        fn = self.ev(node.func)
        args, kwargs = [], {}
        for arg in node.args:
            if isinstance(arg, ast.Starred):
                val = self.ev(arg.value)
                items = self.seq_items(val, node)
                if items is None:
                    typ = self.cur_type(val)
                    if typ[0] == "tuple":
                        items = [App("item", (val, Const(i)), t)
                                 for i, t in enumerate(typ[1])]
                    else:
                        args.append(("*", val))
                        continue
                args += items
            else:
                args.append(self.ev(arg))
        for kw in node.keywords:
            if kw.arg is None:
                val = self.ev(kw.value)
                if isinstance(val, DCT):
                    for key, item in val.items.items():
                        if isinstance(key, Const):
                            kwargs[key.val] = item
                    if val.sym:
                        kwargs["**"] = val
                else:
                    kwargs["**"] = val
            else:
                kwargs[kw.arg] = self.ev(kw.value)
        return self.call(fn, args, kwargs, node)

    def comp_frame(self):
        cur = self.frames[-1]
        sub = Frame(cur.fn, cur.module, cur, cur.depth)
        sub.cls = cur.cls
        sub.self_val = cur.self_val
        return sub

    def e_ListComp(self, node):
        out = []
        if self.comp_run(node.generators, 0, lambda: out.append(self.ev(node.elt)), node):
            return self.new_list(out, node)
        return self.comp_symbolic(node, "list")

    def e_SetComp(self, node):
        out = {}

        def add():
            out[self.hkey(self.ev(node.elt))] = TRUE

        if self.comp_run(node.generators, 0, add, node):
            return self.new_dict(out, node, "set")
        return Sym(self.fresh("setcomp"), ANY)

    def e_DictComp(self, node):
        out = {}

        def add():
            key = self.ev(node.key)
            out[self.hkey(key)] = self.ev(node.value)

        if self.comp_run(node.generators, 0, add, node):
            return self.new_dict(out, node)
        dct = self.new_dict({}, node)
        dct.sym, dct.name = True, self.fresh("dictcomp")
        return dct

    def e_GeneratorExp(self, node):
        return Gen(node, self.frames[-1])

    def comp_run(self, gens, i, emit, node, frame=None):
        """Runs a comprehension over concrete iterables; False if one is symbolic."""

        if i == 0:
            first = self.ev(gens[0].iter)
            items = self.seq_items(first, node)
            if items is None or len(items) > self.config.unroll:
                return False
            sub = self.comp_frame()
            self.frames.append(sub)
            try:
                return self._comp_items(items, gens, 0, emit, node)
            finally:
                self.frames.pop()
        items = self.seq_items(self.ev(gens[i].iter), node)
        if items is None:
            return False
        return self._comp_items(items, gens, i, emit, node)

    def _comp_items(self, items, gens, i, emit, node):
        for item in items:
            self.assign(gens[i].target, item)
            if not all(self.truth(self.ev(c), c) for c in gens[i].ifs):
                continue
            if i + 1 < len(gens):
                if not self.comp_run(gens, i + 1, emit, node):
                    return False
            else:
                emit()
        return True

    def comp_symbolic(self, node, kind):
        """[elt for x in <unknown>]: a list described by its generic element."""

        gen = node.generators[0]
        it = self.ev(gen.iter)
        if isinstance(it, Gen) and isinstance(it.fn, Fn):
            it = self.collect(it, node)
        lid = self.fresh(f"C{node.lineno}")
        name = self.fresh("comp@" + self.site(node))
        trip = self.trip_count(it)
        simple = len(node.generators) == 1 and not gen.ifs
        lst = self.sym_list(name, length=trip if (simple and trip is not None) else None,
                            site="comp@" + self.site(node))
        sub = self.comp_frame()
        self.frames.append(sub)
        saved_facts = models.snapshot(self)
        try:
            born = self.clock
            elem, index = self.generic_element(it, lid, node)
            self.assign(gen.target, elem)
            extra_ok = True
            for g in node.generators[1:]:
                it2 = self.ev(g.iter)
                el2, _ = self.generic_element(it2, self.fresh(lid + "n"), node)
                self.assign(g.target, el2)
            value = self.ev(node.elt)
            lst.elem = ty_of(value)
            if simple:
                if isinstance(value, Heap):
                    lst.proto, lst.proto_fresh = value, value.born > born
                elif index is None or not contains_any(value, lid):
                    lst.proto, lst.proto_fresh = value, False
                lst.known = {}
        except Unsupported:
            pass
        finally:
            self.frames.pop()
            models.restore(self, saved_facts)
        self.event("comp", node, lst=lst, iter=it)
        return lst

    # -- operators -----------------------------------------------------------------------

    def binop(self, op, left, right, node):
        kind = type(op).__name__
        left, right = self.debool(left), self.debool(right)
        if isinstance(left, Const) and isinstance(right, Const):
            try:
                return Const(models.OPS[kind](left.val, right.val))
            except ZeroDivisionError:
                raise Raised("ZeroDivisionError", (), node) from None
            except TypeError:
                raise Raised("TypeError", (), node) from None
            except Exception:  # noqa: BLE001 - folding failed, stay symbolic
                pass
        for obj, other, name in ((left, right, f"__{kind.lower()}__"),
                                 (right, left, f"__r{kind.lower()}__")):
            cls = self.class_of(obj)
            if cls is not None:
                meth = cls.lookup(name)
                if isinstance(meth, Fn):
                    return self.call(Bound(meth, obj), [other], {}, node)
        if kind == "Add":
            return self.add_any(left, right, node)
        if kind == "Mult":
            return self.mult_any(left, right, node)
        if kind == "Sub":
            if isinstance(left, DCT) or isinstance(right, DCT):
                return models.set_op(self, "-", left, right, node)
            return self.sub(left, right)
        if kind in ("BitOr", "BitAnd", "BitXor"):
            if isinstance(left, DCT) and isinstance(right, DCT):
                if left.kind == "dict":
                    out = self.new_dict(dict(left.items), node)
                    out.sym, out.name = left.sym, left.name
                    self.dict_update(out, right, node)
                    return out
                return models.set_op(self, {"BitOr": "|", "BitAnd": "&"}.get(kind, "^"),
                                     left, right, node)
            if ty_of(left) == BOOL and ty_of(right) == BOOL:
                one = self.truth(left)
                two = self.truth(right)
                return Const({"BitOr": one | two, "BitAnd": one & two,
                              "BitXor": one ^ two}[kind])
            return App(kind.lower(), (as_term(left), as_term(right)), INT)
        if kind == "Mod":
            if isinstance(left, Const) and isinstance(left.val, str) or ty_of(left) == STR:
                return models.percent_format(self, left, right, node)
            return App("mod", (left, right), INT if both_int(left, right) else FLOAT)
        if kind == "Div":
            if isinstance(right, Const) and isinstance(right.val, (int, float)) and right.val:
                view = lin_of(left)
                if view is not None and isinstance(right.val, int):
                    scale = Fraction(1) / Fraction(right.val)
                    return mk_lin(view[0] * scale,
                                  {t: c * scale for t, c in view[1].items()}, FLOAT)
            return App("div", (as_term(left), as_term(right)), FLOAT)
        if kind == "FloorDiv":
            return App("floordiv", (as_term(left), as_term(right)),
                       INT if both_int(left, right) else FLOAT)
        if kind == "Pow":
            return App("pow", (as_term(left), as_term(right)),
                       INT if both_int(left, right) else FLOAT)
        return App(kind.lower(), (as_term(left), as_term(right)), ANY)

    def debool(self, val):
        """Booleans used as numbers are decided."""

        if isinstance(val, Cmp):
            return Const(self.truth(val))
        if isinstance(val, (Sym, App)) and self.cur_type(val) == BOOL:
            return Const(self.truth(val))
        return val

    def add_any(self, left, right, node):
        lt, rt = self.cur_type(left), self.cur_type(right)
        if isinstance(left, Tup) and isinstance(right, Tup):
            return Tup(left.items + right.items)
        if isinstance(left, LST) or isinstance(right, LST):
            if isinstance(left, LST) and isinstance(right, LST):
                if left.items is not None and right.items is not None:
                    return self.new_list(left.items + right.items, node)
                lst = self.sym_list(self.fresh("concat"),
                                    length=self.add(self.length(left), self.length(right)),
                                    elem=self._list_elem(left, right))
                one, two = models.row_len(self, left), models.row_len(self, right)
                if one is not None and two is not None and self.facts.eq_implied(
                        one, two) is True:
                    lst.row_len = one
                return lst
            raise Raised("TypeError", (), node)
        if lt == STR or rt == STR:
            for val, typ in ((left, lt), (right, rt)):
                if typ in (INT, FLOAT, NONE) and not isinstance(val, (Sym, App)):
                    raise Raised("TypeError", (), node)
            return self.concat([left, right])
        return self.add(left, right)

    @staticmethod
    def _list_elem(*lists):
        out = None
        for lst in lists:
            if lst.items is not None:
                types = [ty_of(i) for i in lst.items]
            else:
                types = [lst.elem]
            for typ in types:
                out = typ if out is None else ty_join(out, typ)
        return out or ANY

    def mult_any(self, left, right, node):
        for seq, count in ((left, right), (right, left)):
            typ = self.cur_type(seq)
            if isinstance(seq, LST):
                if seq.items is not None and isinstance(count, Const):
                    return self.new_list(seq.items * max(count.val, 0), node)
                if seq.items is not None and len(seq.items) == 1:
                    name = self.fresh("rep@" + self.site(node))
                    lst = self.sym_list(name, length=count,
                                        site="rep@" + self.site(node),
                                        elem=ty_of(seq.items[0]))
                    lst.proto, lst.proto_fresh = seq.items[0], False
                    return lst
                return self.sym_list(self.fresh("rep"), elem=seq.elem)
            if isinstance(seq, Tup) and isinstance(count, Const):
                return Tup(seq.items * max(count.val, 0))
            if typ == STR:
                if isinstance(count, Const) and isinstance(count.val, (int, bool)):
                    if count.val <= 0:
                        return Const("")
                    if count.val == 1:
                        return seq
                    if count.val <= 8:
                        return self.concat([seq] * int(count.val))
                return App("str.repeat", (seq, as_term(count)), STR)
        return self.mul(left, right)

    def mul(self, left, right):
        for one, two in ((left, right), (right, left)):
            if isinstance(one, Const) and isinstance(one.val, (int, float)):
                view = lin_of(two)
                if view is not None and isinstance(one.val, int):
                    scale = Fraction(one.val)
                    return mk_lin(view[0] * scale,
                                  {t: c * scale for t, c in view[1].items()})
                if view is not None and one.val in (0.0, 1.0, -1.0, 0.5, 2.0) \
                        and ty_of(two) == INT:
                    scale = Fraction(one.val)  # exact for any channel-sized integer
                    return mk_lin(view[0] * scale,
                                  {t: c * scale for t, c in view[1].items()}, FLOAT)
        typ = INT if both_int(left, right) else FLOAT
        one, two = as_term(left), as_term(right)
        if repr(one) > repr(two):
            one, two = two, one
        return App("mul", (one, two), typ)

    def add(self, left, right, sign=1):
        one, two = lin_of(left), lin_of(right)
        if one is None or two is None:
            return App("add" if sign > 0 else "sub", (as_term(left), as_term(right)), ANY)
        if isinstance(left, Const) and isinstance(right, Const):
            return Const(left.val + sign * right.val)
        coefs = dict(one[1])
        for term, coef in two[1].items():
            coefs[term] = coefs.get(term, Fraction(0)) + sign * coef
        return mk_lin(one[0] + sign * two[0], coefs)

    def sub(self, left, right):
        return self.add(left, right, -1)

    def concat(self, parts):
        flat = []
        for part in parts:
            if not isinstance(part, Term):
                part = self.to_str(part, None)
            if isinstance(part, Cat):
                flat += part.parts
            else:
                flat.append(part)
        out = []
        for part in flat:
            if isinstance(part, Const) and isinstance(part.val, str):
                if part.val == "":
                    continue
                if out and isinstance(out[-1], Const) and isinstance(out[-1].val, str):
                    out[-1] = Const(out[-1].val + part.val)
                    continue
            out.append(part)
        if not out:
            return Const("")
        if len(out) == 1:
            return out[0]
        return Cat(out)

    def compare(self, op, left, right, node):
        kind = type(op).__name__
        if kind == "Is":
            return self.identical(left, right)
        if kind == "IsNot":
            return self.negate(self.identical(left, right))
        if kind == "In":
            return self.contains(right, left, node)
        if kind == "NotIn":
            return self.negate(self.contains(right, left, node))
        if kind == "Eq":
            return self.equals(left, right, node)
        if kind == "NotEq":
            cls = self.class_of(left)
            if cls is not None and isinstance(cls.lookup("__ne__"), Fn):
                return self.call(Bound(cls.lookup("__ne__"), left), [right], {}, node)
            return self.negate(self.equals(left, right, node))
        name, rname = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"),
                       "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[kind]
        cls = self.class_of(left)
        if cls is not None and isinstance(cls.lookup(name), Fn):
            return self.call(Bound(cls.lookup(name), left), [right], {}, node)
        cls = self.class_of(right)
        if cls is not None and isinstance(cls.lookup(rname), Fn):
            return self.call(Bound(cls.lookup(rname), right), [left], {}, node)
        left, right = self.facts.resolve(left), self.facts.resolve(right)
        left, right = self.debool(left), self.debool(right)
        if isinstance(left, Const) and isinstance(right, Const):
            try:
                return Const(models.CMPS[kind](left.val, right.val))
            except TypeError:
                raise Raised("TypeError", (), node) from None
        if isinstance(left, Tup) and isinstance(right, Tup):
            return Cmp(("p", kind, left, right))
        if kind in ("Gt", "GtE"):
            left, right = right, left
        atom = self.facts.lin_atom(left, right, kind in ("Lt", "Gt"))
        if isinstance(atom, bool):
            return Const(atom)
        if atom[0] == "p":
            atom = ("p", atom[1], as_term(left), as_term(right))
        return Cmp(atom)

    def negate(self, val):
        if isinstance(val, Cmp):
            return Cmp(val.atom, not val.pol)
        return Const(not self.truth(val))

    def eq_atom(self, left, right):
        res = self.equals(left, right, None)
        if isinstance(res, Const):
            return bool(res.val)
        return res.atom if res.pol else ("not", res.atom)

    def equals(self, left, right, node, depth=0):
        res = self._equals(left, right, node, depth)
        return FALSE if res is models.NOTIMPL else res

    def _equals(self, left, right, node, depth=0):
        if left is right:
            return TRUE
        cls = self.class_of(left)
        if cls is not None:
            meth = cls.lookup("__eq__")
            if isinstance(meth, Fn) and not isinstance(right, Const):
                return self.call(Bound(meth, left), [right], {}, node)
            if isinstance(meth, Fn) and isinstance(right, Const) and right.val is not None:
                return self.call(Bound(meth, left), [right], {}, node)
        rcls = self.class_of(right)
        if rcls is not None and cls is None:
            meth = rcls.lookup("__eq__")
            if isinstance(meth, Fn) and not (isinstance(left, Const) and left.val is None):
                return self.call(Bound(meth, right), [left], {}, node)
        left, right = self.facts.resolve(left), self.facts.resolve(right)
        if isinstance(left, Const) and isinstance(right, Const):
            return Const(left.val == right.val)
        if isinstance(left, Tup) and isinstance(right, Tup):
            if len(left.items) != len(right.items):
                return FALSE
            for one, two in zip(left.items, right.items):
                if not self.truth(self.equals(one, two, node)):
                    return FALSE
            return TRUE
        for one, two in ((left, right), (right, left)):
            if isinstance(one, Tup) and isinstance(two, (Sym, App)):
                typ = self.cur_type(two)
                if typ[0] == "tuple" and len(typ[1]) == len(one.items):
                    return self.equals(one, Tup(
                        App("item", (two, Const(i)), t) for i, t in enumerate(typ[1])),
                        node)
        if isinstance(left, LST) and isinstance(right, LST) \
                and left.items is not None and right.items is not None:
            if len(left.items) != len(right.items):
                return FALSE
            for one, two in zip(left.items, right.items):
                if not self.truth(self.equals(one, two, node)):
                    return FALSE
            return TRUE
        if isinstance(left, DCT) and isinstance(right, DCT) and not left.sym \
                and not right.sym:
            if set(left.items) != set(right.items):
                return FALSE
            for key, one in left.items.items():
                if not self.truth(self.equals(one, right.items[key], node)):
                    return FALSE
            return TRUE
        if isinstance(left, Obj) and isinstance(right, Obj) and left.cls is right.cls \
                and left.cls is not None and left.cls.dataclass and left.cls.dc_eq:
            for name, *_ in left.cls.fields:
                if name in left.fields and name in right.fields \
                        and name not in left.cls.uncompared:
                    if not self.truth(self.equals(
                            left.fields[name], right.fields[name], node)):
                        return FALSE
            return TRUE
        if isinstance(left, (LST, Tup)) != isinstance(right, (LST, Tup)):
            other = right if isinstance(left, (LST, Tup)) else left
            if isinstance(other, Const):
                return FALSE
        one, two = as_term(left), as_term(right)
        if one == two:
            return TRUE
        for text, other in ((one, two), (two, one)):
            if text == Const("") and isinstance(other, Cat):
                return Const(not self.truth(other))
            if isinstance(text, Const) and isinstance(text.val, str) and isinstance(
                    other, App) and other.op == "str" and ty_of(other.args[0]) == INT:
                # the text of a number
                if re.fullmatch("-?[1-9][0-9]*|0", text.val):
                    return self.equals(other.args[0], Const(int(text.val)), node)
                return FALSE
            if isinstance(text, Const) and isinstance(text.val, str) and isinstance(
                    other, Cat):
                found = strings.solve(other, text.val, self.facts)
                if found is False:
                    return FALSE
                if found is not None:
                    for piece, want in found:
                        if not self.truth(self.equals(piece, Const(want), node)):
                            return FALSE
                    return TRUE
        if repr(one) > repr(two):
            one, two = two, one
        if one in (TRUE, FALSE) or two in (TRUE, FALSE):
            const, other = (one, two) if one in (TRUE, FALSE) else (two, one)
            if self.cur_type(other) == BOOL:
                truth = self.truth(other)
                return Const(truth == const.val)
        if isinstance(one, Const) and one.val is None or isinstance(two, Const) \
                and two.val is None:
            other = two if isinstance(one, Const) and one.val is None else one
            return self.identical(other, NONE_V)
        res = self.facts.implied(("eq", one, two))
        if res is not None:
            return Const(res)
        return Cmp(("eq", one, two))

    def identical(self, left, right):
        left, right = self.facts.resolve(left), self.facts.resolve(right)
        if left is right:
            return TRUE
        for one, two in ((left, right), (right, left)):
            if isinstance(one, Const) and one.val is None:
                if isinstance(two, Const):
                    return Const(two.val is None)
                if not isinstance(two, (Sym, App)):
                    return FALSE
                res = self.facts.implied(("isnone", two))
                if res is not None:
                    return Const(res)
                return Cmp(("isnone", two))
        if isinstance(left, EnumM) and isinstance(right, EnumM):
            return Const(left == right)
        if isinstance(left, Heap) and isinstance(right, Heap):
            return FALSE
        if isinstance(left, Tup) and isinstance(right, Tup):
            if len(left.items) != len(right.items) or any(
                    self.identical(*pair) == FALSE for pair in zip(left.items, right.items)):
                return FALSE
        for one, two in ((left, right), (right, left)):
            if isinstance(one, Const) and isinstance(two, (Heap, Tup)):
                return FALSE
            if isinstance(one, Obj) and repr(two) in (
                    "<sys.stdin>", "<sys.stdout>", "<sys.stderr>"):
                return FALSE  # made by the program
        if isinstance(left, Const) and isinstance(right, Const):
            return Const(left.val is right.val or (
                type(left.val) is type(right.val) and left.val == right.val))
        for one, two in ((left, right), (right, left)):
            if isinstance(one, EnumM) and isinstance(two, (Sym, App)):
                return self.enum_is(two, one)
            if isinstance(one, Const) and isinstance(one.val, bool) and isinstance(
                    two, (Sym, App)) and self.cur_type(two) == BOOL:
                return Const(self.truth(two) is one.val)
        one, two = as_term(left), as_term(right)
        if repr(one) > repr(two):
            one, two = two, one
        return Cmp(("is", one, two))

    def enum_is(self, sym, member):
        """Symbolic enum value: decide which member it is (once per path)."""

        got = self.split_enum(sym)
        return Const(got == member) if got is not None else Cmp(("is", member, sym))

    def split_enum(self, sym):
        typ = self.cur_type(sym)
        if typ[0] != "cls":
            return None
        cls = self.classes.get(typ[1])
        if cls is None or not cls.is_enum:
            return None
        mkey = ("enum", sym)
        if mkey not in self.memo:
            members = list(cls.members.values())
            pick = self.choose(len(members))
            self.memo[mkey] = members[pick]
            self.facts.assume(("is", members[pick], sym), True)
        return self.memo[mkey]

    def contains(self, cont, item, node):
        item = self.facts.resolve(item)
        if isinstance(cont, Bi) and cont.name == "os.environ":
            val = models.env_value(self, item)
            if isinstance(val, Const):
                return Const(val.val is not None)
            return Const(not self.decide(("isnone", val)))
        if isinstance(cont, Obj) or self.class_of(cont) is not None:
            cls = self.class_of(cont)
            meth = cls.lookup("__contains__") if cls else None
            if isinstance(meth, Fn):
                return self.call(Bound(meth, cont), [item], {}, node)
            made = self.iterator(cont, node) if isinstance(cont, Obj) else None
            items = self.seq_items(made, node) if made is not None else None
            if items is not None:
                return self.contains(Tup(items), item, node)
        if isinstance(cont, DCT):
            item = self.hkey(item, cont)
            if item in cont.items:
                return TRUE
            if self.settled(item):
                if not cont.sym and all(self.settled(k) for k in cont.items):
                    return FALSE
            if not cont.sym and isinstance(item, Term) and strings.structured(item) and all(
                    isinstance(k, Const) for k in cont.items):
                if not any(isinstance(k.val, str) and strings.may_equal(
                        item, k.val, self.facts) for k in cont.items):
                    return FALSE
            if not cont.sym:
                for key in list(cont.items):
                    res = self.facts.implied(("eq",) + tuple(
                        sorted((as_term(item), as_term(key)), key=repr)))
                    if res is True:
                        return TRUE
                if len(cont.items) <= 40 and all(
                        isinstance(k, Const) for k in cont.items):
                    return self._member_split(list(cont.items), item, node)
            return Cmp(("in", as_term(item), as_term(cont)))
        items = None
        if isinstance(cont, (Tup, LST)) or isinstance(cont, (Lazy, Gen)):
            items = self.seq_items(cont, node)
        if items is not None:
            if isinstance(item, (Const, EnumM)) and all(
                    isinstance(i, (Const, EnumM)) for i in items):
                return Const(any(i == item or (
                    isinstance(i, Const) and isinstance(item, Const)
                    and i.val == item.val) for i in items))
            typ = self.cur_type(item)
            if typ in (INT,) and len(items) > 4 and all(
                    isinstance(i, Const) and isinstance(i.val, int) for i in items):
                return self._int_member(items, item)
            if len(items) <= 40:
                return self._member_split(items, item, node)
            return Cmp(("in", as_term(item), as_term(Tup(items) if all(
                isinstance(i, Term) for i in items) else cont)))
        if isinstance(cont, Const) and isinstance(cont.val, str) and isinstance(item, Const):
            return Const(item.val in cont.val)
        if isinstance(item, Const) and isinstance(item.val, str) and isinstance(
                cont, Term) and strings.structured(cont):
            known = strings.contains(cont, item.val, self.facts)
            if known is not None:
                return Const(known)
        if isinstance(cont, Lazy) and cont.kind == "range":
            args = cont.args
            start, stop = (Const(0), args[0]) if len(args) == 1 else args[:2]
            if len(args) < 3 and self.cur_type(item) == INT:
                if not self.decide(self.facts.lin_atom(start, item, False)):
                    return FALSE
                return Const(self.decide(self.facts.lin_atom(item, stop, True)))
        return Cmp(("in", as_term(item), as_term(cont)))

    def _int_member(self, items, item):
        """Membership of an int in a constant set, as range tests."""

        vals = sorted({i.val for i in items})
        runs = []
        for val in vals:
            if runs and runs[-1][1] == val - 1:
                runs[-1][1] = val
            else:
                runs.append([val, val])
        for lo, hi in runs:
            if self.decide(self.facts.lin_atom(Const(lo), item, False)) and self.decide(
                    self.facts.lin_atom(item, Const(hi), False)):
                return TRUE
        return FALSE

    def _member_split(self, items, item, node):
        for cand in items:
            if self.truth(self.equals(item, cand, node)):
                return TRUE
        return FALSE

    def truth(self, val, node=None):
        if isinstance(val, Cmp):
            atom, pol = val.atom, val.pol
            while not isinstance(atom, bool) and atom[0] == "not":
                atom, pol = atom[1], not pol
            return self.decide(atom) == pol
        if isinstance(val, Term):
            val = self.facts.resolve(val)
        if isinstance(val, Const):
            return bool(val.val)
        if isinstance(val, Tup):
            return len(val.items) > 0
        if isinstance(val, EnumM):
            return True
        if isinstance(val, Cat):
            if any(isinstance(p, Const) for p in val.parts):
                return True
            for part in val.parts:
                if self.truth(part):
                    return True
            return False
        if isinstance(val, LST):
            if val.items is not None:
                return len(val.items) > 0
            return self.decide(self.facts.lin_atom(Const(1), self.length(val), False))
        if isinstance(val, DCT):
            if val.items:
                return True
            if not val.sym:
                return False
            return self.decide(("truthy", Sym(f"{val.name}@{val.version}")))
        cls = self.class_of(val)
        if isinstance(val, (Sym, App, Lin)):
            typ = self.cur_type(val)
            if typ[0] == "union" and NONE in typ[1]:
                if self.decide(("isnone", val)):
                    return False
                typ = self.cur_type(val)
            if typ == STR:
                return not self.truth(self.equals(val, Const(""), node))
            if typ in (INT, FLOAT):
                return not self.truth(self.equals(val, Const(0), node))
            if typ[0] == "cls":
                cls = self.classes.get(typ[1])
            elif typ[0] in ("callable",):
                return True
            elif typ[0] == "iter" or typ[0] == "list":
                return self.decide(self.facts.lin_atom(Const(1), self.length(val), False))
            elif isinstance(val, Lin):
                return not self.truth(self.equals(val, Const(0), node))
            else:
                return self.decide(("truthy", val))
        if cls is not None and not (isinstance(cls, Cls) and cls.is_enum):
            meth = cls.lookup("__bool__")
            if isinstance(meth, Fn):
                return self.truth(self.call(Bound(meth, val), [], {}, node))
            meth = cls.lookup("__len__")
            if isinstance(meth, Fn):
                return self.truth(self.call(Bound(meth, val), [], {}, node))
            return True
        if isinstance(val, (Fn, Bound, BM, Cls, Mod, Partial, Obj, Bi, Gen, Lazy)):
            return True
        return self.decide(("truthy", as_term(val)))

    def class_of(self, val):
        if isinstance(val, Obj):
            return val.cls
        if isinstance(val, EnumM):
            return val.cls
        if isinstance(val, (Sym, App)):
            typ = self.cur_type(val)
            if typ[0] == "cls":
                return self.classes.get(typ[1])
        return None

    # -- attributes ----------------------------------------------------------------------

    def getattr(self, obj, name, node):
        if isinstance(obj, Mod):
            if obj.info is not None:
                env = self._module_env(obj.info.name)
                if name in env:
                    return env[name]
                sub = f"{obj.info.name}.{name}"
                if sub in self.repo.modules:
                    return Mod(sub, self.repo.modules[sub])
                raise Raised("AttributeError", (Const(name),), node)
            return models.external(f"{obj.name}.{name}")
        if isinstance(obj, Bi):
            return models.external(f"{obj.name}.{name}")
        if isinstance(obj, Super):
            for base in (obj.cls.bases if obj.cls else []):
                if isinstance(base, Cls):
                    member = base.lookup(name)
                    if member is not None:
                        return self.bind_member(member, obj.recv, base, name, node)
            return BM(obj.recv, f"super.{name}")
        if isinstance(obj, Cls):
            if name == "__name__":
                return Const(obj.name)
            if name == "__annotations__":
                return self.new_dict({Const(stmt.target.id): Sym(stmt.target.id, ANY)
                                      for stmt in obj.node.body
                                      if isinstance(stmt, ast.AnnAssign)
                                      and isinstance(stmt.target, ast.Name)}, node)
            member = obj.lookup(name)
            if member is None:
                if obj.is_enum and name == "__members__":
                    return self.new_dict({Const(k): v for k, v in obj.members.items()}, node)
                return BM(obj, name)
            if isinstance(member, Wrapped):
                if member.kind == "classmethod":
                    return Bound(member.fn, obj)
                return member.fn
            return member
        if isinstance(obj, EnumM):
            if name == "value":
                return obj.value
            if name == "name":
                return Const(obj.name)
            member = obj.cls.lookup(name)
            if member is not None:
                return self.bind_member(member, obj, obj.cls, name, node)
            return BM(obj, name)
        if isinstance(obj, (Sym, App)):
            split = self.split_enum(obj)
            if split is not None:
                return self.getattr(split, name, node)
            typ = self.cur_type(obj)
            if typ[0] == "union":
                non = tuple(t for t in typ[1] if t != NONE)
                if NONE in typ[1] and len(non) >= 1:
                    if self.truth(self.identical(obj, NONE_V)):
                        raise Raised("AttributeError", (Const(name), obj), node)
                    typ = self.cur_type(obj)
            if typ == NONE:
                raise Raised("AttributeError", (Const(name), obj), node)
            if typ[0] == "cls":
                cls = self.classes.get(typ[1])
                if cls is not None:
                    return self.term_attr(obj, cls, name, node)
            if typ[0] == "tuple" and len(typ) > 2:
                names = [f[0] for f in typ[2].fields]
                if name in names:
                    return self.getitem(obj, Const(names.index(name)), node)
                return self.getattr(self.materialise(App("same", (obj,), typ)), name, node)
            return BM(obj, name)
        if isinstance(obj, Const) and obj.val is None:
            raise Raised("AttributeError", (Const(name), obj), node)
        if isinstance(obj, Obj):
            return self.obj_attr(obj, name, node)
        if isinstance(obj, Tup) and obj.cls is not None:
            names = [f[0] for f in obj.cls.fields]
            if name in names:
                return obj.items[names.index(name)]
            if name == "_fields":
                return Tup(map(Const, names))
            if name == "__class__":
                return obj.cls
            member = obj.cls.lookup(name)
            if member is not None:
                return self.bind_member(member, obj, obj.cls, name, node)
        return BM(obj, name)

    def term_attr(self, term, cls, name, node):
        if name == "__class__":
            return cls
        ann, owner = cls.annotation(name)
        member = cls.lookup(name)
        if isinstance(member, (Prop, Fn, Wrapped)):
            return self.bind_member(member, term, cls, name, node)
        if ann is not None or (cls.name, name) in self.config.attr_types:
            typ = self.config.attr_types.get((cls.name, name)) or self.parse_type(
                ann, cls.module)
            app = App("attr", (term, Const(name)), typ)
            self.range_attr(cls, name, app)
            return self.materialise(app)
        if member is not None:
            return member
        return BM(term, name)

    def range_attr(self, cls, name, app):
        rng = self.config.attr_ranges.get((cls.name, name))
        if rng is None:
            return
        self.facts.ranges[app] = rng
        if app.ty[0] == "tuple":
            for i, typ in enumerate(app.ty[1]):
                self.facts.ranges[App("item", (app, Const(i)), typ)] = rng

    def obj_attr(self, obj, name, node):
        if self.config.trace_reads and obj.global_:
            self.event("gread", node, obj=obj, attr=name)
        if name in obj.fields:
            return obj.fields[name]
        cls = obj.cls
        if cls is None:
            return BM(obj, name)
        if name == "__class__":
            return cls
        if name == "__dict__":
            if obj.lazy is not None:
                return BM(obj, name)
            if obj.global_:
                self.touch(obj)
            mkey = ("__dict__", obj.oid)
            if mkey not in self.memo:
                dct = self.new_dict(None, node)
                dct.items = FieldView(obj)
                dct.born = obj.born
                self.memo[mkey] = dct
            return self.memo[mkey]
        member = cls.lookup(name)
        if isinstance(member, (Prop, Fn, Wrapped)):
            return self.bind_member(member, obj, cls, name, node)
        if obj.lazy is not None:
            ann, owner = cls.annotation(name)
            if ann is not None or (cls.name, name) in self.config.attr_types:
                typ = self.config.attr_types.get((cls.name, name)) or self.parse_type(
                    ann, cls.module)
                if obj.global_:
                    self.touch(obj)
                val = self.make_sym(f"{obj.lazy}.{name}", typ)
                rng = self.config.attr_ranges.get((cls.name, name))
                if rng is not None:
                    for item in (val.items if isinstance(val, Tup) else [val]):
                        self.facts.ranges[item] = rng
                if isinstance(val, Heap):
                    val.born = obj.born
                obj.fields[name] = val
                return val
        if member is not None:
            return member
        if obj.lazy is not None and self._assigned_somewhere(cls, name):
            if obj.global_:
                self.touch(obj)
            val = Sym(f"{obj.lazy}.{name}", ANY)
            obj.fields[name] = val
            return val
        if name.startswith("__"):
            return BM(obj, name)
        if any(isinstance(b, Bi) and b.name not in ("object", "Generic", "typing.Generic")
               for b in cls.bases):
            return BM(obj, name)
        for kw, val in (obj.args or {}).items() if isinstance(obj.args, dict) else ():
            if kw == "**":
                return Sym(f"{obj.oid}.{name}", ANY)
        raise Raised("AttributeError", (Const(name), NONE_V), node)

    def _assigned_somewhere(self, cls, name):
        for klass in cls.mro():
            for node in ast.walk(klass.node):
                if isinstance(node, ast.Attribute) and node.attr == name and isinstance(
                        node.ctx, ast.Store):
                    return True
        return False

    def bind_member(self, member, recv, cls, name, node):
        if isinstance(member, Prop):
            qual = f"{cls.name}.{name}"
            if member.cached:
                mkey = ("cached", id(recv) if isinstance(recv, Heap) else recv, name)
                if isinstance(recv, Obj) and name in recv.fields:
                    return recv.fields[name]
                if mkey in self.memo:
                    return self.memo[mkey]
                val = self.call_fn(member.getter, [recv], {}, node, qual)
                self.memo[mkey] = val
                return val
            return self.call_fn(member.getter, [recv], {}, node, qual)
        if isinstance(member, Wrapped):
            if member.kind == "classmethod":
                return Bound(member.fn, cls)
            return member.fn
        if isinstance(member, Fn):
            return Bound(member, recv)
        return member

    def setattr(self, obj, name, val, node):
        if isinstance(obj, Obj):
            cls = obj.cls
            member = cls.lookup(name) if cls else None
            if isinstance(member, Prop) and member.setter is not None:
                self.call_fn(member.setter, [obj, val], {}, node, f"{cls.name}.{name}")
                return
            if cls is not None and cls.frozen:
                raise Raised("FrozenInstanceError", (Const(name),), node)
            custom = cls.lookup("__setattr__") if cls else None
            if isinstance(custom, Fn):
                self.call_fn(custom, [obj, Const(name), val], {}, node,
                             f"{cls.name}.__setattr__")
                return
            self.raw_setattr(obj, name, val, node)
            return
        if isinstance(obj, Mod) and obj.info is not None:
            env = self._module_env(obj.info.name)
            self.touch(env)
            env[name] = val
            self.event("setglobal", node, module=obj.info.name, name=name, value=val)
            return
        if isinstance(obj, (Sym, App)):
            cls = self.class_of(obj)
            if cls is not None and cls.frozen:
                raise Raised("FrozenInstanceError", (Const(name),), node)
        self.event("setattr", node, obj=obj, attr=name, value=val)

    def raw_setattr(self, obj, name, val, node):
        self.event("setattr", node, obj=obj, attr=name, value=val)
        if not isinstance(obj, Obj):
            return
        if obj.global_:
            self.touch(obj)
        for ctx in self.loop_stack:
            if obj.born <= ctx.start:
                self.havoc.setdefault(ctx.key, set()).add(("field", obj.site, name))
        obj.fields[name] = val

    # -- containers ----------------------------------------------------------------------

    def length(self, val):
        if isinstance(val, LST):
            if val.items is not None:
                return Const(len(val.items))
            return val.length
        if isinstance(val, Tup):
            return Const(len(val.items))
        if isinstance(val, DCT):
            if not val.sym:
                return Const(len(val.items))
            return Sym(f"len({val.name}@{val.version})", INT, lo=0)
        if isinstance(val, Const):
            try:
                return Const(len(val.val))
            except TypeError:
                raise Raised("TypeError", (), None) from None
        if isinstance(val, Cat):
            total = Const(0)
            for part in val.parts:
                total = self.add(total, self.length(part))
            return total
        cls = self.class_of(val)
        if cls is not None:
            meth = cls.lookup("__len__")
            if isinstance(meth, Fn):
                return self.call(Bound(meth, val), [], {}, None)
        if isinstance(val, App) and val.op == "fmt":
            size = fixed_len(val)
            if size is not None:
                return Const(size)
        if isinstance(val, Term) and strings.structured(val):
            least, most = strings.size(val, self.facts)
            if least == most:
                return Const(least)
        if isinstance(val, Lazy):
            items = self.seq_items(val, None)
            if items is not None:
                return Const(len(items))
        return App("len", (as_term(val),), INT)

    def mutating(self, cont, op, args, node):
        if cont.shared:
            self.event("mutate_shared", node, cont=cont, op=op, source=cont.shared)
        if cont.global_:
            self.touch(cont)
            self.event("mutate_global", node, cont=cont, op=op)
        self.event("mut", node, cont=cont, op=op, args=args)
        if cont.ops is None:
            cont.ops = []
        cont.ops.append((op,) + tuple(args))
        kinds = ["set" if op == "setitem" else "len"]
        if isinstance(cont, LST):
            if op != "setitem" and cont.origin and isinstance(cont.origin[0], LST) \
                    and cont.origin[0].row_len is not None:
                cont.origin[0].row_len = None
                self._havoc_cont(cont.origin[0], "rows")
            if cont.row_len is not None and not self._keeps_rows(cont, op, args):
                cont.row_len = None
                kinds.append("rows")
        if isinstance(cont, LST) and op in ("append", "insert", "setitem") and args:
            self.learn(("elem", cont.site), self.flow_type(args[-1]), ty_join)
        if isinstance(cont, LST) and op == "extend" and args:
            more = args[0].items if isinstance(args[0], (LST, Tup)) else None
            if more is not None:
                for item in more:
                    self.learn(("elem", cont.site), self.flow_type(item), ty_join)
            else:
                self.learn(("elem", cont.site),
                           args[0].elem if isinstance(args[0], LST) else ANY, ty_join)
        for kind in kinds:
            self._havoc_cont(cont, kind)

    def _havoc_cont(self, cont, kind):
        for ctx in self.loop_stack:
            if cont.born <= ctx.start:
                self.havoc.setdefault(ctx.key, set()).add(("cont", cont.site, kind))

    def _keeps_rows(self, cont, op, args):
        if op in ("pop", "clear", "reverse", "sort", "remove", "delitem"):
            return True
        if op in ("append", "insert", "setitem") and args and isinstance(args[-1], LST):
            return self.facts.eq_implied(self.length(args[-1]), cont.row_len) is True
        return False

    def norm_index(self, lst, idx):
        """Index as a non-negative position where that is known."""

        idx = self.facts.resolve(idx)
        return idx

    def list_get(self, lst, idx, node, checked=False):
        idx = self.norm_index(lst, self.debool(idx))
        if lst.items is not None:
            if isinstance(idx, Const):
                try:
                    return lst.items[idx.val]
                except IndexError:
                    raise Raised("IndexError", (), node) from None
                except TypeError:
                    raise Raised("TypeError", (), node) from None
            if lst.items and all(isinstance(i, Const) for i in lst.items) and len(
                    lst.items) <= 4:
                for i, item in enumerate(lst.items):
                    if self.truth(self.equals(idx, Const(i), node)):
                        return item
            if not checked:
                self.index_check(lst, idx, node)
            tup = Tup(i for i in lst.items) if all(
                isinstance(i, Term) for i in lst.items) else Sym(lst.oid)
            base = Sym(lst.global_) if lst.global_ else tup
            elem = ty_of(lst.items[0]) if lst.items else ANY
            for item in lst.items[1:]:
                elem = ty_union(elem, ty_of(item))
            out = self.materialise(App("item", (base, idx), elem))
            self._hull(out, self._reachable(lst.items, idx))
            return out
        if not checked:
            self.index_check(lst, idx, node)
        if idx in lst.known:
            return lst.known[idx]
        for key, val in lst.known.items():
            if self.facts.implied(("eq",) + tuple(sorted((key, idx), key=repr))) is True:
                return val
        val = None
        if lst.proto is not None and not lst.known and lst.version == 0 or (
                lst.proto is not None and lst.proto_fresh):
            val = self.clone_proto(lst, idx)
        if val is None:
            # `pop(0)`/append keep versioned identity of the remaining content
            term = App("item", (Sym(f"{lst.name}@{lst.version}"), idx), lst.elem)
            val = self.materialise(term)
            if isinstance(val, LST):
                val.origin = (lst, idx)
                val.born = lst.born
                if lst.row_len is not None:
                    val.length = lst.row_len
        if isinstance(val, Heap):
            lst.known[idx] = val
        return val

    def _reachable(self, items, idx):
        lo, hi = self.facts.interval(idx)
        if lo < 0:
            return items
        top = len(items) if hi >= len(items) else int(hi) + 1
        return items[int(min(lo, len(items))):top] or items

    def _hull(self, val, items):
        """Bounds of an element of a constant table."""

        if isinstance(val, Tup) and all(
                isinstance(i, Tup) and len(i.items) == len(val.items) for i in items):
            for pos, part in enumerate(val.items):
                self._hull(part, [i.items[pos] for i in items])
        elif isinstance(val, App) and items and all(isinstance(i, Const) and isinstance(
                i.val, (int, float)) and not isinstance(i.val, bool) for i in items):
            lo, hi = self.facts.ranges.get(val, (float("-inf"), float("inf")))
            self.facts.ranges[val] = (max(lo, min(i.val for i in items)),
                                      min(hi, max(i.val for i in items)))

    def clone_proto(self, lst, idx):
        proto = lst.proto
        if not lst.proto_fresh or not isinstance(proto, LST):
            return proto
        name = f"{lst.name}[{idx!r}]"
        copy = self.sym_list(name, length=self.length(proto), elem=proto.elem,
                             site=proto.site)
        copy.born = lst.born
        if proto.items is not None:
            copy.items = list(proto.items)
        else:
            copy.proto, copy.proto_fresh = proto.proto, proto.proto_fresh
            copy.length = proto.length
            if lst.version > 0 or proto.version > 0:
                copy.version = 1
        copy.origin = (lst, idx)
        return copy

    def index_check(self, lst, idx, node):
        length = self.length(lst)
        ok_lo = ok_hi = None
        low = self.facts.lin_atom(Const(0), idx, False)
        high = self.facts.lin_atom(idx, length, True)
        ok_lo = low if isinstance(low, bool) else (
            True if low[0] != "p" and self.facts.implied(low) else False)
        ok_hi = high if isinstance(high, bool) else (
            True if high[0] != "p" and self.facts.implied(high) else False)
        if isinstance(idx, Const) and isinstance(idx.val, int) and idx.val < 0:
            # constant negative index: needs len >= -idx
            atom = self.facts.lin_atom(Const(-idx.val), length, False)
            ok_lo = ok_hi = atom if isinstance(atom, bool) else bool(
                self.facts.implied(atom))
        self.event("index", node, lst=lst, idx=idx, lo=ok_lo, hi=ok_hi, length=length)
        if self.config.check_partial and not (ok_lo and ok_hi):
            if isinstance(idx, Const) and idx.val < 0:
                atom = self.facts.lin_atom(Const(-idx.val), length, False)
                good = self.decide(atom)
            else:
                neg = self.sub(Const(0), length)
                atom_lo = self.facts.lin_atom(neg, idx, False)
                good = self.decide(atom_lo) and self.decide(high)
            if not good:
                raise Raised("IndexError", (), node)

    def getitem(self, obj, idx, node):
        if isinstance(idx, Slice):
            return models.slice_(self, obj, idx, node)
        if isinstance(obj, Bi) and obj.name == "os.environ":
            return models.env_item(self, idx, node)
        if isinstance(obj, Tup):
            idx = self.facts.resolve(self.debool(idx))
            if isinstance(idx, Const):
                try:
                    return obj.items[idx.val]
                except IndexError:
                    raise Raised("IndexError", (), node) from None
            for i, item in enumerate(obj.items):
                if self.truth(self.equals(idx, Const(i), node)):
                    return item
            return App("item", (obj, as_term(idx)), ANY)
        if isinstance(obj, LST):
            return self.list_get(obj, idx, node)
        if isinstance(obj, DCT):
            return self.dict_get(obj, idx, node, None)
        if isinstance(obj, Cls):
            if obj.is_enum and isinstance(idx, Const):
                if idx.val in obj.members:
                    return obj.members[idx.val]
                raise Raised("KeyError", (idx,), node)
            return obj
        if isinstance(obj, Bi):
            return obj
        if isinstance(obj, Obj) and models.kind_of(obj) == "Match":
            return models.known_group(self, obj, idx, node)
        cls = self.class_of(obj)
        if cls is not None:
            meth = cls.lookup("__getitem__")
            if isinstance(meth, Fn):
                return self.call(Bound(meth, obj), [idx], {}, node)
        typ = self.cur_type(obj)
        if typ[0] == "union" and NONE in typ[1] and isinstance(obj, (Sym, App)):
            if self.truth(self.identical(obj, NONE_V)):
                raise Raised("TypeError", (Const("None subscript"),), node)
            typ = self.cur_type(obj)
        if typ == STR:
            return self.str_index(obj, idx, node)
        if typ[0] == "tuple" and isinstance(idx, Const):
            items = typ[1]
            if -len(items) <= idx.val < len(items):
                pos = idx.val % len(items)
                return self.materialise(App("item", (obj, Const(pos)), items[pos]))
        if isinstance(obj, (Sym, App)) and models.is_match(obj):
            return models.match_group(self, obj, idx, node)
        elem = typ[1] if typ[0] in ("iter", "list") else ANY
        return self.materialise(App("item", (as_term(obj), as_term(idx)), elem))

    def str_index(self, obj, idx, node):
        idx = self.facts.resolve(idx)
        if isinstance(obj, Const) and isinstance(idx, Const):
            try:
                return Const(obj.val[idx.val])
            except IndexError:
                raise Raised("IndexError", (), node) from None
        if strings.structured(obj) and isinstance(idx, Const):
            chars = strings.characters(obj, self.facts)
            if chars is not None and len(chars) < 400 and not (
                    len(chars) == 1 and chars[0] is obj and idx.val not in (0, -1)):
                try:
                    return chars[idx.val]
                except IndexError:
                    raise Raised("IndexError", (), node) from None
        if isinstance(obj, Cat) and isinstance(idx, Const):
            if idx.val >= 0 and isinstance(obj.parts[0], Const) and idx.val < len(
                    obj.parts[0].val):
                return Const(obj.parts[0].val[idx.val])
            if idx.val < 0 and isinstance(obj.parts[-1], Const) and -idx.val <= len(
                    obj.parts[-1].val):
                return Const(obj.parts[-1].val[idx.val])
        if self.config.check_partial:
            length = self.length(obj)
            if isinstance(idx, Const) and idx.val < 0:
                good = self.decide(self.facts.lin_atom(Const(-idx.val), length, False))
            else:
                good = self.decide(self.facts.lin_atom(idx, length, True))
            if not good:
                raise Raised("IndexError", (), node)
        return App("item", (obj, as_term(idx)), STR)

    def setitem(self, obj, idx, val, node):
        if isinstance(obj, LST):
            if isinstance(idx, Slice):
                self.mutating(obj, "setslice", (val,), node)
                if isinstance(idx.lo, Const) and idx.lo.val is None and isinstance(
                        idx.hi, Const) and idx.hi.val is None:
                    items = self.seq_items(val, node)
                    if items is not None:
                        obj.items = list(items)
                        return
                obj.items = None
                obj.name = obj.name or obj.oid
                obj.version += 1
                obj.known = {}
                obj.length = Sym(self.fresh(f"len({obj.name})"), INT, lo=0)
                return
            idx = self.norm_index(obj, self.debool(idx))
            if obj.items is None or not isinstance(idx, Const):
                self.index_check(obj, idx, node)
            self.mutating(obj, "setitem", (idx, val), node)
            self.event("setitem", node, cont=obj, idx=idx, value=val)
            if obj.items is not None and isinstance(idx, Const):
                try:
                    obj.items[idx.val] = val
                except IndexError:
                    raise Raised("IndexError", (), node) from None
                return
            if obj.items is not None:
                obj.length = Const(len(obj.items))
                obj.items = None
                obj.name = obj.name or obj.oid
            obj.known = {
                k: v for k, v in obj.known.items()
                if self.facts.implied(("eq",) + tuple(sorted((k, idx), key=repr))) is False
            }
            obj.version += 1
            obj.known[idx] = val
            return
        if isinstance(obj, DCT):
            key = self.hkey(idx, obj)
            if isinstance(obj.items, FieldView) and isinstance(key, Const):
                self.raw_setattr(obj.items.obj, key.val, val, node)
                return
            self.mutating(obj, "setitem", (key, val), node)
            self.event("setitem", node, cont=obj, idx=key, value=val)
            concrete = self.settled(key)
            if concrete or key in obj.items:
                obj.items[key] = val
                return
            obj.items[key] = val
            if not obj.sym:
                obj.sym = obj.sym or len(obj.items) > 1
                obj.name = obj.name or obj.oid
            obj.version += 1
            return
        cls = self.class_of(obj)
        if cls is not None:
            meth = cls.lookup("__setitem__")
            if isinstance(meth, Fn):
                self.call(Bound(meth, obj), [idx, val], {}, node)
                return
        self.event("setitem", node, cont=obj, idx=idx, value=val)

    def delitem(self, obj, idx, node):
        if isinstance(obj, (LST, DCT)):
            if isinstance(obj, LST):
                self.call_method(obj, "pop", [idx], {}, node) if not isinstance(
                    idx, Slice) else self.setitem(obj, idx, self.new_list([], node), node)
                return
            self.mutating(obj, "delitem", (idx,), node)
            key = self.hkey(idx, obj)
            if key in obj.items:
                del obj.items[key]
            elif not obj.sym and isinstance(key, Const):
                raise Raised("KeyError", (key,), node)
            return
        self.event("delitem", node, cont=obj, idx=idx)

    def dict_get(self, dct, key, node, default):
        """d[key] (default None) or d.get(key, default)."""

        key = self.hkey(key, dct)
        if key in dct.items:
            return dct.items[key]
        if isinstance(key, Cmp):
            key = Const(self.truth(key))
            if key in dct.items:
                return dct.items[key]
        const = self.settled(key)
        if isinstance(key, (Sym, App)):
            split = self.split_enum(key)
            if split is not None:
                key, const = split, True
                if key in dct.items:
                    return dct.items[key]
        if isinstance(key, (Sym, App)) and self.cur_type(key) == BOOL:
            key, const = Const(self.truth(key)), True
            if key in dct.items:
                return dct.items[key]
        if const and isinstance(key, Const):
            for cand in dct.items:
                if isinstance(cand, Const) and cand.val == key.val and type(
                        cand.val) in (int, bool, float):
                    return dct.items[cand]
        if const and not dct.sym and all(self.settled(k) for k in dct.items):
            if default is not None:
                return default
            raise Raised("KeyError", (key,), node)
        if not dct.sym and len(dct.items) <= 12 and isinstance(key, Term):
            for cand, val in list(dct.items.items()):
                if isinstance(cand, Term) and self.truth(self.equals(key, cand, node)):
                    return val
            if default is not None:
                return default
            if self.config.check_partial:
                raise Raised("KeyError", (key,), node)
            raise PathEnd("infeasible")
        if not dct.sym and isinstance(key, Term) and strings.structured(key) and all(
                isinstance(k, Const) for k in dct.items) and not any(
                isinstance(k.val, str) and strings.may_equal(key, k.val, self.facts)
                for k in dct.items):
            if default is not None:
                return default
            raise Raised("KeyError", (key,), node)
        name = dct.global_ or dct.name or dct.oid
        base = Sym(f"{name}@{dct.version}" if dct.sym else name)
        present = ("in", as_term(key), base)
        vtyp = dct.val_ty
        if not dct.sym and dct.items:
            vtyp = None
            for val in dct.items.values():
                vtyp = ty_of(val) if vtyp is None else ty_union(vtyp, ty_of(val))
        if default is not None:
            if self.decide(present):
                return self.dict_item(dct, base, key, vtyp, node)
            return default
        if self.config.check_partial and not self.decide(present):
            raise Raised("KeyError", (key,), node)
        return self.dict_item(dct, base, key, vtyp, node)

    def dict_item(self, dct, base, key, vtyp, node):
        self.event("lookup", node, cont=dct, key=key)
        if vtyp is not None and vtyp[0] == "tuple" or vtyp is None:
            return App("dictitem", (base, as_term(key)), vtyp or ANY)
        return self.materialise(App("dictitem", (base, as_term(key)), vtyp))

    def dict_update(self, dct, other, node):
        if isinstance(other, DCT):
            dct.items.update(other.items)
            if other.sym:
                dct.sym, dct.name = True, dct.name or other.name
                dct.version += 1
            return
        items = self.seq_items(other, node)
        if items is not None:
            for item in items:
                pair = self.seq_items(item, node)
                if pair and len(pair) == 2:
                    dct.items[self.hkey(pair[0])] = pair[1]
            return
        dct.sym, dct.name = True, dct.name or self.fresh("dict")
        dct.version += 1

    def iterator(self, val, node):
        """What an object's own __iter__ gives, if it has one."""

        cls = self.class_of(val)
        meth = cls.lookup("__iter__") if cls else None
        return self.call_fn(meth, [val], {}, node, meth.qualname) if isinstance(meth, Fn) \
            else None

    def seq_items(self, val, node):
        """Concrete list of items or None."""

        if isinstance(val, Tup):
            return list(val.items)
        if isinstance(val, LST):
            return None if val.items is None else list(val.items)
        if isinstance(val, DCT):
            return None if val.sym else list(val.items)
        if isinstance(val, Const):
            if isinstance(val.val, str):
                return [Const(c) for c in val.val]
            if isinstance(val.val, bytes):
                return [Const(c) for c in val.val]
            return None
        if isinstance(val, Cls) and val.is_enum:
            return list(val.members.values())
        if isinstance(val, Obj) and val.cls is not None:
            made = self.iterator(val, node)
            return None if made is None else self.seq_items(made, node)
        if isinstance(val, Lazy):
            return models.lazy_items(self, val, node)
        if isinstance(val, Gen):
            if isinstance(val.fn, ast.GeneratorExp):
                out = []
                saved = self.frames
                self.frames = saved + [val.bound]
                try:
                    ok = self.comp_run(val.fn.generators, 0,
                                       lambda: out.append(self.ev(val.fn.elt)), node)
                finally:
                    self.frames = saved
                return out if ok else None
            return self.collect(val, node).items
        if isinstance(val, Term) and strings.structured(val) and self.cur_type(val) == STR:
            chars = strings.characters(val, self.facts)
            if chars is not None:
                return chars
        if isinstance(val, App) and val.ty[0] == "tuple":
            return [self.materialise(App("item", (val, Const(i)), t))
                    for i, t in enumerate(val.ty[1])]
        return None

    # -- calls ---------------------------------------------------------------------------

    def call(self, fn, args, kwargs, node):
        if isinstance(fn, Bound):
            qual = None
            if isinstance(fn.fn, Fn):
                qual = fn.fn.qualname
            return self.call_fn(fn.fn, [fn.recv] + list(args), kwargs, node, qual)
        if isinstance(fn, Fn):
            return self.call_fn(fn, list(args), kwargs, node, fn.qualname)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs, node)
        if isinstance(fn, BM):
            return self.call_method(fn.recv, fn.name, list(args), kwargs, node)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kwargs, **kwargs},
                             node)
        if isinstance(fn, Bi):
            return models.call_builtin(self, fn.name, list(args), kwargs, node)
        if isinstance(fn, Wrapped):
            return self.call(fn.fn, args, kwargs, node)
        cls = self.class_of(fn)
        if cls is not None:
            meth = cls.lookup("__call__")
            if isinstance(meth, Fn):
                return self.call(Bound(meth, fn), args, kwargs, node)
        if isinstance(fn, Const):
            raise Raised("TypeError", (Const("not callable"),), node)
        # an unknown callable (a callback)
        self.maybe_raise("callback", node)
        ret = Sym(self.fresh(f"ret({fn!r})"), ANY)
        self.event("callback", node, fn=fn, args=tuple(args), kwargs=kwargs, ret=ret)
        return ret

    def maybe_raise(self, name, node):
        if self.config.may_raise is None:
            return
        excs = list(self.config.may_raise(self, name) or ())
        if not excs:
            return
        pick = self.choose(len(excs) + 1)
        if pick:
            self.event("raised", node, exc=excs[pick - 1], source=name)
            raise Raised(excs[pick - 1], (), node, origin=name)

    def call_fn(self, fn, args, kwargs, node, qual=None):
        if isinstance(fn, Bound):
            return self.call(fn, args, kwargs, node)
        if not isinstance(fn, Fn):
            return self.call(fn, args, kwargs, node)
        qual = qual or fn.qualname
        self.functions_seen.add(f"{fn.module.file}:{fn.qualname}")
        stub = self.config.stubs.get(qual) or self.config.stubs.get(fn.name)
        if stub is not None:
            res = stub(self, args, kwargs, node)
            if res is not NotImplemented:
                return res
        if len(self.frames) > self.config.max_depth:
            raise PathEnd("limit", f"call depth at {qual}")
        cached = not getattr(self, "loading", False) and any(
            d.split(".")[-1] in ("lru_cache", "cache") for d in fn.decorators)
        if cached:
            hit = self.cache_hit(fn, args, kwargs, node)
            if hit is not None:
                return hit
        frame = Frame(fn, fn.module, fn.frame, len(self.frames) + 1)
        frame.cls = None
        self.bind_args(fn, frame, args, kwargs, node)
        if fn.cls is not None and args:
            frame.self_val = args[0]
            frame.cls = fn.cls
        if self.config.event_calls:
            self.event("call", node, callee=qual, args=tuple(args), kwargs=kwargs)
        if isinstance(fn.node, ast.Lambda):
            self.frames.append(frame)
            try:
                return self.ev(fn.node.body)
            finally:
                self.frames.pop()
        if is_generator(fn.node):
            made = Gen(fn, frame)
            if cached:
                self.cache_keep(fn, args, kwargs, made)
            return made
        if sum(1 for f in self.frames if f.fn is not None and f.fn.node is fn.node) > 4:
            raise PathEnd("limit", f"recursion in {qual}")
        self.frames.append(frame)
        try:
            self.exec_block(fn.node.body)
            result = NONE_V
        except ReturnSig as sig:
            result = sig.val
        finally:
            self.frames.pop()
        if any(d.split(".")[-1] in ("lru_cache", "cache") for d in fn.decorators):
            if isinstance(result, (LST, DCT)):
                result.shared = qual
        if cached:
            self.cache_keep(fn, args, kwargs, result)
        return result

    def hash_key(self, val, node=None):
        """Something equal for values with (certainly) the same hash; None if there is none."""

        if isinstance(val, Term) and not isinstance(val, Tup):
            val = self.facts.resolve(val)
            return ("value", val.val) if isinstance(val, Const) else ("term", val)
        if isinstance(val, Tup):
            keys = [self.hash_key(v, node) for v in val.items]
            return None if None in keys else ("tuple", *keys)
        if isinstance(val, Obj) and val.cls is not None:
            meth = val.cls.lookup("__hash__")
            if isinstance(meth, Fn):
                return ("hash", self.hash_key(self.call(Bound(meth, val), [], {}, node), node))
            if val.cls.dataclass and val.cls.dc_eq and val.cls.frozen:
                keys = [self.hash_key(val.fields[name], node) for name, *_ in val.cls.fields
                        if name in val.fields and name not in val.cls.unhashed]
                return None if None in keys else ("fields", val.cls.name, *keys)
            if val.cls.dataclass or isinstance(val.cls.lookup("__eq__"), Fn):
                return None
        if isinstance(val, (LST, DCT)):
            return None
        return ("identity", id(val))

    def cache_key(self, args, kwargs, node):
        names = tuple(sorted(kwargs))
        keys = [self.hash_key(a, node) for a in list(args) + [kwargs[n] for n in names]]
        return None if None in keys else (len(args), names, *keys)

    def cache_keep(self, fn, args, kwargs, result):
        key = self.cache_key(args, kwargs, None)
        if key is not None:
            self.results.setdefault(id(fn.node), []).append((key, list(args), kwargs, result))

    def cache_hit(self, fn, args, kwargs, node):
        """What a function with a cache gave for arguments certainly equal to these."""

        kept = self.results.get(id(fn.node))
        key = self.cache_key(args, kwargs, node) if kept else None
        if key is None:
            return None
        for other, pos, named, result in kept:
            if other == key and all(
                    one is two or not isinstance(one, Obj) or self.truth(
                        self.equals(one, two, node))
                    for one, two in zip(pos + [named[n] for n in sorted(named)],
                                        list(args) + [kwargs[n] for n in sorted(kwargs)])):
                return result
        return None

    def bind_args(self, fn, frame, args, kwargs, node):
        spec = fn.node.args
        pos = [a.arg for a in spec.posonlyargs + spec.args]
        env = frame.env
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        extra = []
        for i, val in enumerate(args):
            if isinstance(val, tuple) and len(val) == 2 and val[0] == "*":
                # unknown number of positional arguments
                for name in pos[i:]:
                    env.setdefault(name, Sym(self.fresh(f"*{name}"), ANY))
                break
            if i < len(pos):
                env[pos[i]] = val
            else:
                extra.append(val)
        if extra and spec.vararg is None:
            raise Raised("TypeError", (Const(f"too many arguments for {fn.name}"),), node)
        if spec.vararg is not None:
            env[spec.vararg.arg] = Tup(extra) if all(
                True for _ in extra) else Tup(extra)
        kwonly = [a.arg for a in spec.kwonlyargs]
        rest = {}
        for key, val in kwargs.items():
            if key in pos or key in kwonly:
                if key in env:
                    raise Raised("TypeError", (Const(f"multiple values for {key}"),), node)
                env[key] = val
            else:
                rest[key] = val
        if spec.kwarg is not None:
            dct = self.new_dict({Const(k): v for k, v in rest.items()}, node)
            if star is not None:
                dct.sym = True
                dct.name = getattr(star, "name", None) or self.fresh("kw")
            env[spec.kwarg.arg] = dct
        elif rest:
            raise Raised("TypeError",
                         (Const(f"unexpected keyword {sorted(rest)[0]} for {fn.name}"),),
                         node)
        defaults, kwdefaults = fn.defaults or ([], [])
        if defaults:
            for name, val in zip(pos[-len(defaults):], defaults):
                env.setdefault(name, val)
        for name, val in zip(kwonly, kwdefaults):
            if val is not None:
                env.setdefault(name, val)
        for name in pos + kwonly:
            if name not in env:
                if star is not None:
                    env[name] = Sym(self.fresh(f"**{name}"), ANY)
                else:
                    raise Raised("TypeError",
                                 (Const(f"missing argument {name} for {fn.name}"),), node)

    def instantiate(self, cls, args, kwargs, node):
        stub = self.config.stubs.get(cls.name)
        if stub is not None:
            res = stub(self, args, kwargs, node)
            if res is not NotImplemented:
                return res
        if cls.is_enum:
            if not args:
                raise Raised("TypeError", (), node)
            val = self.facts.resolve(args[0])
            if isinstance(val, EnumM):
                return val
            if isinstance(val, (Const,)):
                for member in cls.members.values():
                    if member.value == val:
                        return member
                raise Raised("ValueError", (val,), node)
            for member in cls.members.values():
                if self.truth(self.equals(val, member.value, node)):
                    return member
            raise Raised("ValueError", (as_term(val),), node)
        if cls.named:
            obj = Obj(cls, "named tuple")
            self.dataclass_init(cls, obj, args, kwargs, node)
            return Tup([obj.fields[f[0]] for f in cls.fields], cls)
        if getattr(self, "loading", False) and cls.name in self.config.module_objects:
            return self.new_obj(cls, lazy=cls.name.lower())
        if any(isinstance(b, Bi) and exc_base(b.name) for b in cls.bases) and not cls.lookup(
                "__init__"):
            obj = self.new_obj(cls, node)
            return obj
        obj = self.new_obj(cls, node)
        obj.args = dict(kwargs)
        init = cls.lookup("__init__")
        if cls.dataclass and not isinstance(init, Fn):
            self.dataclass_init(cls, obj, args, kwargs, node)
            self.event("new", node, obj=obj, cls=cls.name, args=tuple(args), kwargs=kwargs)
            return obj
        if isinstance(init, Fn):
            self.call_fn(init, [obj] + list(args), kwargs, node, f"{cls.name}.__init__")
        self.event("new", node, obj=obj, cls=cls.name, args=tuple(args), kwargs=kwargs)
        return obj

    def dataclass_init(self, cls, obj, args, kwargs, node):
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        init_fields = [f for f in cls.fields if f[3]]
        if len(args) > len(init_fields):
            raise Raised("TypeError", (Const(f"too many arguments for {cls.name}"),), node)
        for (name, *_), val in zip(init_fields, args):
            if isinstance(val, tuple):
                break
            obj.fields[name] = val
        for key, val in kwargs.items():
            if key not in [f[0] for f in init_fields]:
                raise Raised("TypeError",
                             (Const(f"unexpected keyword {key!r} for {cls.name}"),), node)
            if key in obj.fields:
                raise Raised("TypeError", (Const(f"multiple values for {key}"),), node)
            obj.fields[key] = val
        for name, ann, default, init in cls.fields:
            if name in obj.fields:
                continue
            if isinstance(default, tuple) and default[0] == "factory":
                self.frames.append(Frame(None, cls.module, None, len(self.frames) + 1))
                try:
                    factory = self.ev(default[1])
                    obj.fields[name] = self.call(factory, [], {}, node)
                finally:
                    self.frames.pop()
                continue
            if default is not None:
                frame = Frame(None, cls.module, None, len(self.frames) + 1)
                self.frames.append(frame)
                try:
                    val = self.ev(default)
                finally:
                    self.frames.pop()
                if star is not None and init:
                    val = Sym(self.fresh(f"**{name}"), self.parse_type(ann, cls.module))
                obj.fields[name] = val
                continue
            if init:
                if star is not None:
                    obj.fields[name] = Sym(self.fresh(f"**{name}"),
                                           self.parse_type(ann, cls.module))
                else:
                    raise Raised("TypeError",
                                 (Const(f"missing argument {name} for {cls.name}"),), node)
        post = cls.lookup("__post_init__")
        if isinstance(post, Fn) and cls.name not in self.config.skip_post_init:
            self.call_fn(post, [obj], {}, node, f"{cls.name}.__post_init__")
        elif isinstance(post, Fn):
            obj.lazy = obj.lazy or obj.oid

    def call_method(self, recv, name, args, kwargs, node):
        return models.call_method(self, recv, name, list(args), kwargs, node)

    def to_str(self, val, node):
        return models.str_of(self, val, node)

    def isinstance_(self, val, typ, node):
        return models.isinstance_(self, val, typ, node)


# -- helpers -----------------------------------------------------------------------------


def as_term(val):
    """A Term standing for any value (heap objects by identity)."""

    if isinstance(val, Term):
        return val
    if isinstance(val, Heap):
        return Sym(f"&{val.oid}", ty_of(val), meta=val)
    if isinstance(val, (Fn, Bound, BM, Cls, Mod, Partial, Gen, Lazy, Prop, Wrapped)):
        return Sym(f"&{val!r}", ANY, meta=val)
    return Sym(f"&{val!r}", ANY)


def both_int(left, right):
    return ty_of(left) in (INT, BOOL) and ty_of(right) in (INT, BOOL)


def type_name(typ):
    if typ[0] == "cls":
        return typ[1]
    return {"list": "list", "tuple": "tuple", "dict": "dict"}.get(typ[0], typ[0])


def contains_any(val, prefix):
    from .terms import subterms
    return any(isinstance(s, Sym) and s.name.startswith(prefix) for s in subterms(val))


def exc_base(name):
    short = name.split(".")[-1]
    cand = getattr(_py, short, None)
    return isinstance(cand, type) and issubclass(cand, BaseException)


def exc_name(exc):
    return exc.name if isinstance(exc, Cls) else exc


def exc_is(exc, handler):
    """Is the program exception `exc` caught by builtin class name `handler`?"""

    if isinstance(exc, Cls):
        for klass in exc.mro():
            if klass.name == handler:
                return True
            for base in klass.bases:
                if isinstance(base, Bi) and exc_is(base.name, handler):
                    return True
        return False
    alias = {"BodyError": "Exception", "UnicodeDecodeError": "UnicodeDecodeError",
             "FrozenInstanceError": "AttributeError", "error": "OSError",
             "TimeoutSignal": "Exception"}
    have = getattr(_py, exc.split(".")[-1], None) or getattr(
        _py, alias.get(exc, "Exception"), Exception)
    want = getattr(_py, handler, None)
    if exc == handler:
        return True
    if want is None or not isinstance(want, type):
        return False
    if exc == "BodyError":
        # some user exception that no specific handler of the library names
        return want in (Exception, BaseException)
    return issubclass(have, want)


def holds_object(val):
    return isinstance(val, Obj) and val.cls is not None or isinstance(val, Tup) and any(
        map(holds_object, val.items))


def unsettled(key):
    return key is None or isinstance(key, tuple) and (
        key[:1] == ("term",) and not isinstance(key[1], EnumM)
        or key[:1] != ("value",) and any(map(unsettled, key)))


@functools.lru_cache(maxsize=None)
def is_generator(node):
    stack = list(node.body) if isinstance(node.body, list) else []
    while stack:
        cur = stack.pop()
        if isinstance(cur, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                            ast.ClassDef)):
            continue
        stack += list(ast.iter_child_nodes(cur))
    return False


@functools.lru_cache(maxsize=None)
def assigned_names(loop):
    """Names (re)bound anywhere in a loop, target included."""

    out = set()
    stack = list(loop.body) + [loop.target] if isinstance(loop, ast.For) else list(loop.body)
    if isinstance(loop, ast.While):
        stack.append(loop.test)
    while stack:
        cur = stack.pop()
        if isinstance(cur, ast.Name) and isinstance(cur.ctx, (ast.Store, ast.Del)):
            out.add(cur.id)
        if isinstance(cur, (ast.FunctionDef, ast.ClassDef)):
            out.add(cur.name)
            # nonlocal writes from nested functions
            names = set()
            for sub in ast.walk(cur):
                if isinstance(sub, ast.Nonlocal):
                    names |= set(sub.names)
            out |= names
            continue
        if isinstance(cur, ast.Lambda):
            continue
        if isinstance(cur, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(cur):
                if isinstance(sub, ast.NamedExpr):
                    out.add(sub.target.id)
            continue
        if isinstance(cur, ast.ExceptHandler) and cur.name:
            out.add(cur.name)
        stack += list(ast.iter_child_nodes(cur))
    return frozenset(out)


def _is_self_attr(node, me):
    return isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) \
        and node.value.id == me
