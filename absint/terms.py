"""Abstract values."""

from __future__ import annotations

from collections.abc import MutableMapping
from fractions import Fraction

ANY = ("any",)
INT = ("int",)
FLOAT = ("float",)
STR = ("str",)
BOOL = ("bool",)
NONE = ("none",)
BYTES = ("bytes",)


class Term:
    """Immutable, structurally compared value."""

    __slots__ = ("key", "_hash")

    def __init__(self, key):
        self.key = key
        self._hash = hash(key)

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Term)
            and self._hash == other._hash
            and self.key == other.key
        )

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self._hash


class Const(Term):
    """A literal (str, int, float, bool, None, bytes, Ellipsis)."""

    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val
        super().__init__(("c", type(val).__name__, val))

    def __repr__(self):
        return repr(self.val)


class Sym(Term):
    """An opaque input or loop-carried value."""

    __slots__ = ("name", "ty", "lo", "hi", "meta")

    def __init__(self, name, ty=ANY, lo=None, hi=None, meta=None):
        self.name, self.ty, self.lo, self.hi, self.meta = name, ty, lo, hi, meta
        super().__init__(("s", name))

    def __repr__(self):
        return self.name


class App(Term):
    """Uninterpreted application of an operation."""

    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args, ty=ANY):
        self.op, self.args, self.ty = op, tuple(args), ty
        super().__init__(("a", op, self.args))

    def __repr__(self):
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1].val}"
        if self.op == "item":
            return f"{self.args[0]!r}[{self.args[1]!r}]"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Cat(Term):
    """String concatenation."""

    __slots__ = ("parts",)
    ty = STR

    def __init__(self, parts):
        self.parts = tuple(parts)
        super().__init__(("cat", self.parts))

    def __repr__(self):
        return "(" + " + ".join(map(repr, self.parts)) + ")"


class Lin(Term):
    """const + sum(coef * term)."""

    __slots__ = ("const", "coefs", "ty")

    def __init__(self, const, coefs, ty):
        self.const, self.coefs, self.ty = const, coefs, ty
        super().__init__(
            ("lin", const, tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0]))))
        )

    def __repr__(self):
        out = " + ".join(
            (repr(t) if c == 1 else f"{num(c)}*{t!r}") for t, c in self.coefs.items()
        )
        return f"({out}{'' if self.const == 0 else f' + {num(self.const)}'})"


class Tup(Term):
    """A tuple of known arity."""

    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls  # of a named tuple
        super().__init__(("t", self.items))

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Cmp(Term):
    """A not-yet-decided boolean: atom and polarity."""

    __slots__ = ("atom", "pol")
    ty = BOOL

    def __init__(self, atom, pol=True):
        self.atom, self.pol = atom, pol
        super().__init__(("cmp", atom, pol))

    def __repr__(self):
        return ("" if self.pol else "not ") + repr(self.atom)


class EnumM(Term):
    """A member of a repository Enum."""

    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value
        super().__init__(("enum", cls.name, name))

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Heap:
    """Mutable value: identity compared."""

    __slots__ = ("oid", "site", "born")


class Obj(Heap):
    """Instance of a repository class (or an opaque external object)."""

    __slots__ = ("cls", "fields", "lazy", "global_", "args")

    def __init__(self, cls, oid, lazy=None, site=None):
        self.cls, self.oid, self.lazy = cls, oid, lazy
        self.fields = {}
        self.site = site or oid
        self.global_ = None
        self.born = 0
        self.args = None

    def __repr__(self):
        return f"<{self.cls.name if self.cls else '?'} {self.oid}>"


class LST(Heap):
    """A list (or other ordered mutable collection).

    concrete: `items` is a list. Symbolic: items is None and `name`/`version` identify the
    unknown content, `length` is a term, `known` maps index terms to values, `proto` is a
    value every element is a copy of (or None).
    """

    __slots__ = (
        "items", "name", "version", "length", "known", "proto", "elem", "origin",
        "shared", "global_", "kind", "ops", "proto_fresh", "partial", "row_len",
    )

    def __init__(self, oid, items=None, name=None, length=None, elem=ANY, site=None):
        self.oid = oid
        self.site = site or oid
        self.items = items
        self.name = name
        self.version = 0
        self.length = length
        self.known = {}
        self.proto = None
        self.proto_fresh = False
        self.elem = elem
        self.origin = None
        self.shared = None
        self.global_ = None
        self.kind = "list"
        self.born = 0
        self.ops = None
        self.partial = False
        self.row_len = None

    def __repr__(self):
        if self.items is not None:
            return "[" + ", ".join(map(repr, self.items)) + "]"
        return f"<list {self.name}@{self.version}>"


class DCT(Heap):
    """A dict (or set, `kind == 'set'`)."""

    __slots__ = ("items", "sym", "name", "version", "shared", "global_", "kind",
                 "val_ty", "key_ty", "ops", "known")

    def __init__(self, oid, items=None, sym=False, name=None, site=None, kind="dict"):
        self.oid = oid
        self.site = site or oid
        self.items = {} if items is None else items
        self.sym = sym
        self.name = name
        self.version = 0
        self.shared = None
        self.global_ = None
        self.kind = kind
        self.val_ty = ANY
        self.key_ty = ANY
        self.born = 0
        self.ops = None
        self.known = {}

    def __repr__(self):
        if self.sym:
            return f"<{self.kind} {self.name}@{self.version} +{self.items}>"
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items.items()) + "}"


class FieldView(MutableMapping):
    """The items of an object's __dict__: writing one writes the object's attribute."""

    def __init__(self, obj, hidden=()):
        self.obj, self.hidden = obj, hidden

    def _shown(self):
        return [n for n in self.obj.fields if n not in self.hidden]

    def __getitem__(self, key):
        if not isinstance(key, Const) or key.val not in self._shown():
            raise KeyError(key)
        return self.obj.fields[key.val]

    def __setitem__(self, key, val):
        if isinstance(key, Const):
            self.obj.fields[key.val] = val

    def __delitem__(self, key):
        del self.obj.fields[key.val]

    def __iter__(self):
        return iter([Const(n) for n in self._shown()])

    def __len__(self):
        return len(self._shown())


class Fn:
    """A repository (or driver) function, possibly closed over a frame."""

    __slots__ = ("node", "module", "frame", "name", "cls", "decorators", "defaults")

    def __init__(self, node, module, frame=None, cls=None, name=None):
        self.node, self.module, self.frame, self.cls = node, module, frame, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.decorators = ()
        self.defaults = None

    @property
    def qualname(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    def __repr__(self):
        return f"<fn {self.qualname}>"


class Bound:
    """Function bound to a receiver (repository method or builtin method)."""

    __slots__ = ("fn", "recv")

    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.recv!r}>"


class BM:
    """Builtin/external method `name` of value `recv`."""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f"<method {self.name} of {self.recv!r}>"


class Cls:
    """A repository class."""

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        self.ns = {}
        self.ann = {}
        self.dataclass = False
        self.frozen = False
        self.dc_eq = True
        self.fields = []  # (name, annotation, default-expr or None, init)
        self.uncompared = set()  # fields (of a dataclass) that equality leaves out
        self.unhashed = set()
        self.is_enum = False
        self.named = False  # a named tuple
        self.members = {}
        self.frame = None

    def lookup(self, name):
        for cls in self.mro():
            if name in cls.ns:
                return cls.ns[name]
        return None

    def annotation(self, name):
        for cls in self.mro():
            if name in cls.ann:
                return cls.ann[name], cls
        return None, None

    def mro(self):
        out = [self]
        for base in self.bases:
            if isinstance(base, Cls):
                out += [c for c in base.mro() if c not in out]
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class Mod:
    """A module: repository module (info set) or external."""

    def __init__(self, name, info=None):
        self.name, self.info = name, info

    def __repr__(self):
        return f"<module {self.name}>"


class Bi(Term):
    """Builtin or external object by dotted name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        super().__init__(("bi", name))

    def __repr__(self):
        return f"<{self.name}>"


class Partial:
    """functools.partial."""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Gen:
    """Un-run generator call or generator expression."""

    def __init__(self, fn, bound):
        self.fn, self.bound = fn, bound
        self.spent = False  # run to its end: gives nothing more

    def __repr__(self):
        return f"<gen {self.fn!r}>"


class Lazy:
    """A lazily consumed builtin iterator: enumerate, zip, map, filter, reversed, range..."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return f"<{self.kind} {self.args!r}>"


class Prop:
    """property / cached_property descriptor."""

    def __init__(self, getter, setter=None, cached=False):
        self.getter, self.setter, self.cached = getter, setter, cached


class Wrapped:
    """classmethod / staticmethod descriptor."""

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Slice:
    """A slice with term bounds."""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Super:
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


def num(val):
    if isinstance(val, Fraction):
        return val.numerator if val.denominator == 1 else float(val)
    return val


NONE_V = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def ty_of(val):
    """Static type of a value."""

    if isinstance(val, Const):
        if val.val is None:
            return NONE
        return (type(val.val).__name__,)
    if isinstance(val, (Sym, App, Lin)):
        return val.ty
    if isinstance(val, (Cat,)):
        return STR
    if isinstance(val, Cmp):
        return BOOL
    if isinstance(val, Tup):
        return tuple_type([ty_of(i) for i in val.items], val.cls)
    if isinstance(val, LST):
        return ("list", val.elem)
    if isinstance(val, DCT):
        return ("dict", val.key_ty, val.val_ty) if val.kind == "dict" else ("set", ANY)
    if isinstance(val, Obj):
        return ("cls", val.cls.name) if val.cls else ANY
    if isinstance(val, EnumM):
        return ("cls", val.cls.name)
    if isinstance(val, (Fn, Bound, BM, Partial)):
        return ("callable",)
    return ANY


def ty_union(first, second):
    if first == second:
        return first
    if first == ANY or second == ANY:
        return ANY
    parts = []
    for typ in (first, second):
        parts += typ[1] if typ[0] == "union" else [typ]
    out = []
    for part in parts:
        if part not in out:
            out.append(part)
    return out[0] if len(out) == 1 else ("union", tuple(out))


def tuple_type(parts, cls=None):
    return ("tuple", tuple(parts)) if cls is None else ("tuple", tuple(parts), cls)


def ty_join(first, second):
    """Union that merges tuples of the same size item by item."""

    if first[0] == second[0] == "tuple" and len(first) > 1 and len(second) > 1 and len(
            first[1]) == len(second[1]):
        return tuple_type([ty_join(a, b) for a, b in zip(first[1], second[1])],
                          first[2] if first[2:] == second[2:] != () else None)
    if first[0] == second[0] == "list":
        return ("list", ty_join(first[1], second[1]))
    if first[0] == "union" and second[0] == "tuple":
        parts = [ty_join(p, second) if p[0] == "tuple" else p for p in first[1]]
        if any(p[0] == "tuple" for p in first[1]):
            return ("union", tuple(dict.fromkeys(parts)))
    return ty_union(first, second)


def ty_parts(typ):
    return typ[1] if typ[0] == "union" else (typ,)


def subterms(val, seen=None):
    """Yields every value reachable inside `val` (including itself)."""

    stack = [val]
    while stack:
        cur = stack.pop()
        yield cur
        if isinstance(cur, App):
            stack += [a for a in cur.args]
        elif isinstance(cur, Cat):
            stack += list(cur.parts)
        elif isinstance(cur, Tup):
            stack += list(cur.items)
        elif isinstance(cur, Lin):
            stack += list(cur.coefs)
        elif isinstance(cur, Cmp):
            stack += [a for a in cur.atom[1:] if isinstance(a, Term)]
        elif isinstance(cur, LST) and cur.items is not None:
            stack += list(cur.items)


def contains(val, part):
    return any(sub is part or (isinstance(sub, Term) and sub == part)
               for sub in subterms(val))
