"""Models of the builtins and standard-library pieces the repository uses."""

from __future__ import annotations

import ast
import html as _html
import math
import operator
import re
import string
from fractions import Fraction

try:
    from re import _parser as sre_parse
except ImportError:  # pragma: no cover
    import sre_parse

from . import regex, strings
from .facts import Ranges, lin_of
from .terms import (ANY, App, BM, BOOL, BYTES, Bi, Bound, Cat, Cls, Cmp, Const, DCT, EnumM,
                    FALSE, FLOAT, FieldView, Fn, Gen, Heap, INT, LST, Lazy, Mod, NONE, NONE_V, Obj,
                    Partial, Prop, STR, Slice, Sym, TRUE, Term, Tup, Wrapped, ty_of, ty_parts,
                    ty_union)

MATCH = ("ext", "Match")
PATTERN = ("ext", "Pattern")
NOTIMPL = Bi("NotImplemented")

BUILTIN_CONSTS = {
    "NotImplemented": NOTIMPL,
    "__debug__": TRUE,
    "Ellipsis": Const(...),
}

ABSENT_MODULES = {"msvcrt", "winreg", "_winapi"}

OPS = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul,
    "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod,
    "Pow": operator.pow, "BitOr": operator.or_, "BitAnd": operator.and_,
    "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
}
CMPS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}

EXT_CONSTS = {
    "os.name": Const("posix"),
    "sys.platform": Const("linux"),
    "os.linesep": Const("\n"),
    "os.sep": Const("/"),
    "typing.TYPE_CHECKING": FALSE,
    "math.pi": Const(math.pi),
    "math.inf": Const(math.inf),
    "math.e": Const(math.e),
    "string.digits": Const(string.digits),
    "string.ascii_lowercase": Const(string.ascii_lowercase),
    "string.ascii_uppercase": Const(string.ascii_uppercase),
    "string.ascii_letters": Const(string.ascii_letters),
    "string.hexdigits": Const(string.hexdigits),
    "string.printable": Const(string.printable),
    "string.whitespace": Const(string.whitespace),
    "re.IGNORECASE": Const(2), "re.I": Const(2), "re.DOTALL": Const(16), "re.S": Const(16),
    "re.MULTILINE": Const(8), "re.M": Const(8), "re.VERBOSE": Const(64),
    "re.X": Const(64), "re.ASCII": Const(256), "re.A": Const(256),
    "os.SEEK_SET": Const(0), "os.SEEK_CUR": Const(1), "os.SEEK_END": Const(2),
    "io.SEEK_SET": Const(0), "io.SEEK_CUR": Const(1), "io.SEEK_END": Const(2),
}


def external(dotted):
    return EXT_CONSTS.get(dotted, Bi(dotted))


def T(val):
    from .interp import as_term
    return as_term(val)


def _exc(name, args=(), node=None):
    from .interp import Raised
    return Raised(name, args, node)


# -- strings -----------------------------------------------------------------------------


def str_of(ip, val, node):
    val = ip.facts.resolve(val) if isinstance(val, Term) else val
    if isinstance(val, Const):
        return Const(str(val.val))
    if isinstance(val, Cat):
        return val
    if isinstance(val, Cmp):
        return Const(str(ip.truth(val)))
    if isinstance(val, EnumM):
        meth = val.cls.lookup("__str__")
        if isinstance(meth, Fn):
            return ip.call(Bound(meth, val), [], {}, node)
        return Const(f"{val.cls.name}.{val.name}")
    if isinstance(val, Tup):
        if all(isinstance(i, Const) for i in val.items):
            return Const(str(tuple(i.val for i in val.items)))
        return App("str", (val,), STR)
    typ = ip.cur_type(val)
    if typ == STR and isinstance(val, Term):
        return val
    if typ == BOOL and isinstance(val, (Sym, App)):
        return Const(str(ip.truth(val)))
    if typ[0] == "union" and isinstance(val, (Sym, App)):
        if NONE in typ[1]:
            if ip.truth(ip.identical(val, NONE_V)):
                return Const("None")
            return str_of(ip, val, node)
        if STR in typ[1]:
            if ip.truth(isinstance_(ip, val, Bi("str"), node)):
                return val
            return str_of(ip, val, node) if ip.cur_type(val) != typ else App(
                "str", (val,), STR)
    cls = ip.class_of(val)
    if cls is not None:
        meth = cls.lookup("__str__") or cls.lookup("__repr__")
        if isinstance(meth, Fn):
            return ip.call(Bound(meth, val), [], {}, node)
    if isinstance(val, LST) and val.items is not None:
        return App("str", (Tup(T(i) for i in val.items),), STR)
    return App("str", (T(val),), STR)


def repr_of(ip, val, node):
    if isinstance(val, Const):
        return Const(repr(val.val))
    cls = ip.class_of(val)
    if cls is not None:
        meth = cls.lookup("__repr__")
        if isinstance(meth, Fn):
            return ip.call(Bound(meth, val), [], {}, node)
    return App("repr", (T(val),), STR)


def format_(ip, val, spec, node):
    val = ip.facts.resolve(val) if isinstance(val, Term) else val
    if isinstance(spec, Const) and spec.val == "":
        return str_of(ip, val, node)
    if isinstance(val, Const) and isinstance(spec, Const):
        try:
            return Const(format(val.val, spec.val))
        except (ValueError, TypeError):
            raise _exc("ValueError", (), node) from None
    if isinstance(spec, Const) and spec.val in ("s", "d"):
        typ = ip.cur_type(val)
        if (spec.val == "s" and typ == STR) or (spec.val == "d" and typ == INT):
            return str_of(ip, val, node)
    return App("fmt", (T(val), T(spec)), STR)


def percent_format(ip, left, right, node):
    if not (isinstance(left, Const) and isinstance(left.val, str)):
        return App("percent", (T(left), T(right)), STR)
    args = list(right.items) if isinstance(right, Tup) else [right]
    parts, pos = [], 0
    for mtch in re.finditer(r"%(?:\(([^)]*)\))?([-+ #0]*\d*(?:\.\d+)?)([sdrxXf%])",
                            left.val):
        parts.append(Const(left.val[pos:mtch.start()]))
        pos = mtch.end()
        if mtch[3] == "%":
            parts.append(Const("%"))
            continue
        if mtch[1] is not None:
            val = ip.getitem(right, Const(mtch[1]), node)
        else:
            if not args:
                raise _exc("TypeError", (), node)
            val = args.pop(0)
        if mtch[3] == "r":
            val = repr_of(ip, val, node)
        if mtch[2] == "" and mtch[3] in "sdr":
            parts.append(str_of(ip, val, node))
        else:
            parts.append(format_(ip, val, Const(mtch[2] + mtch[3]), node))
    parts.append(Const(left.val[pos:]))
    return ip.concat(parts)


def str_format(ip, recv, args, kwargs, node):
    if not (isinstance(recv, Const) and isinstance(recv.val, str)):
        return App("str.format", (recv,) + tuple(T(a) for a in args) + tuple(
            T(v) for _, v in sorted(kwargs.items())), STR)
    parts, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(recv.val):
        parts.append(Const(lit))
        if name is None:
            continue
        base = re.match(r"[^.\[]*", name)[0]
        rest = name[len(base):]
        if base == "":
            val = args[auto] if auto < len(args) else None
            auto += 1
        elif base.isdigit():
            val = args[int(base)] if int(base) < len(args) else None
        else:
            val = kwargs.get(base)
        if val is None:
            if "**" in kwargs:
                val = Sym(ip.fresh(f"fmt.{base}"), ANY)
            else:
                raise _exc("KeyError" if base and not base.isdigit() else "IndexError",
                           (Const(base),), node)
        for attr, item in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            if attr:
                val = ip.getattr(val, attr, node)
            else:
                val = ip.getitem(val, Const(int(item) if item.isdigit() else item), node)
        if conv == "r":
            val = repr_of(ip, val, node)
        elif conv == "s":
            val = str_of(ip, val, node)
        if spec:
            spec_val = str_format(ip, Const(spec), args, kwargs, node) if "{" in spec \
                else Const(spec)
            val = format_(ip, val, spec_val, node)
        else:
            val = str_of(ip, val, node)
        parts.append(val)
    return ip.concat(parts)


def join(ip, sep, it, node):
    items = ip.seq_items(it, node)
    if items is not None:
        parts = []
        for i, item in enumerate(items):
            if i:
                parts.append(sep)
            if ty_of(item) in (INT, FLOAT, NONE):
                raise _exc("TypeError", (), node)
            parts.append(item)
        return ip.concat(parts)
    each = None
    saved, extra = snapshot(ip), []
    try:
        each, _ = ip.generic_element(it, ip.fresh(f"J{getattr(node, 'lineno', 0)}"), node)
        extra = ip.facts.order[len(saved[1]):]
    finally:
        restore(ip, saved)
    out = App("str.join", (sep, App("each", (T(each),)), T(it)), STR)
    ip.notes.append(("join", out, each, extra, it))
    return out


def snapshot(ip):
    facts = ip.facts
    return (dict(facts.known), list(facts.order), list(facts.lin), list(facts.diseq),
            dict(facts.eqconst), Ranges(facts, facts.ranges), facts.sig)


def restore(ip, saved):
    facts = ip.facts
    (facts.known, facts.order, facts.lin, facts.diseq, facts.eqconst,
     facts.ranges, facts.sig) = saved


STR_PURE = {
    "strip": STR, "lstrip": STR, "rstrip": STR, "lower": STR, "upper": STR, "title": STR,
    "capitalize": STR, "casefold": STR, "replace": STR, "ljust": STR, "rjust": STR,
    "center": STR, "zfill": STR, "removeprefix": STR, "removesuffix": STR,
    "expandtabs": STR, "translate": STR, "swapcase": STR,
    "find": INT, "rfind": INT, "index": INT, "rindex": INT, "count": INT,
    "encode": BYTES,
}
STR_PRED = {"isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric",
            "isdecimal", "isidentifier", "isprintable", "isascii", "istitle"}


def str_method(ip, recv, name, args, kwargs, node):
    recv = ip.facts.resolve(recv)
    args = [ip.facts.resolve(a) if isinstance(a, Term) else a for a in args]
    consts = isinstance(recv, Const) and all(isinstance(a, Const) for a in args) and all(
        isinstance(v, Const) for v in kwargs.values())
    if name == "format":
        return str_format(ip, recv, args, kwargs, node)
    if name == "join":
        return join(ip, recv, args[0], node)
    if name == "translate" and len(args) == 1 and isinstance(args[0], DCT) \
            and not args[0].sym and all(isinstance(k, Const) and isinstance(v, Const)
                                        for k, v in args[0].items.items()):
        table = {k.val: v.val for k, v in args[0].items.items()}
        pairs = Const(tuple(sorted(table.items())))
        return ip.concat([Const(p.val.translate(table)) if isinstance(p, Const) else App(
            "str.translate", (p, pairs), STR) for p in strings.pieces(recv)])
    if name in ("startswith", "endswith") and isinstance(args[0], Tup):
        for cand in args[0].items:
            if ip.truth(str_method(ip, recv, name, [cand] + args[1:], kwargs, node)):
                return TRUE
        return FALSE
    if consts and hasattr(str, name):
        try:
            out = getattr(recv.val, name)(*[a.val for a in args],
                                          **{k: v.val for k, v in kwargs.items()})
        except (ValueError, TypeError, IndexError, LookupError) as exc:
            raise _exc(type(exc).__name__, (), node) from None
        return lift(ip, out, node)
    if name in ("startswith", "endswith"):
        pre = args[0]
        if isinstance(pre, Const) and pre.val == "":
            return TRUE
        if isinstance(pre, Const) and len(args) == 1:
            known = getattr(strings, name)(recv, pre.val, ip.facts)
            if known is not None:
                return Const(known)
            if isinstance(recv, App) and recv.op == "str" and ty_of(recv.args[0]) == INT:
                lo, hi = ip.facts.interval(recv.args[0])
                if 0 <= hi - lo <= 1024:
                    hits = [Const(k) for k in range(int(lo), int(hi) + 1)
                            if getattr(str(k), name)(pre.val)]
                    if len(hits) in (0, int(hi) - int(lo) + 1):
                        return Const(bool(hits))
                    return ip._int_member(hits, recv.args[0])
            parts = recv.parts if isinstance(recv, Cat) else (recv,)
            edge = parts[0] if name == "startswith" else parts[-1]
            if isinstance(edge, Const):
                if name == "startswith":
                    if edge.val.startswith(pre.val):
                        return TRUE
                    if not pre.val.startswith(edge.val) or len(parts) == 1:
                        return FALSE
                else:
                    if edge.val.endswith(pre.val):
                        return TRUE
                    if not pre.val.endswith(edge.val) or len(parts) == 1:
                        return FALSE
            if isinstance(edge, App) and edge.op in ("str", "fmt") and ty_of(
                    edge.args[0]) == INT and edge is parts[-1] and name == "endswith" \
                    and not pre.val[-1].isdigit() and edge.op == "str":
                return FALSE
            if isinstance(edge, App) and edge.op == "str.rstrip" and name == "endswith" \
                    and len(pre.val) == 1 and len(edge.args) > 1 and isinstance(
                        edge.args[1], Const) and pre.val in edge.args[1].val:
                return FALSE
        return Cmp(("p", name, recv, T(pre)))
    if name in STR_PRED:
        if isinstance(recv, App) and recv.op == "str" and ty_of(recv.args[0]) == INT \
                and name in ("isdigit", "isnumeric", "isdecimal"):
            lo, _ = ip.facts.interval(recv.args[0])
            if lo >= 0:
                return TRUE
        known = strings.predicate(recv, name, ip.facts)
        if known is not None:
            return Const(known)
        return Cmp(("p", name, recv, NONE_V))
    if name in ("split", "rsplit"):
        sep = args[0] if args else kwargs.get("sep", NONE_V)
        limit = args[1] if len(args) > 1 else kwargs.get("maxsplit", Const(-1))
        if isinstance(sep, Const) and isinstance(sep.val, str) and sep.val and isinstance(
                limit, Const) and strings.structured(recv):
            found = strings.split(recv, sep.val, limit.val, name == "rsplit", ip.facts)
            if found is not None:
                return ip.new_list([ip.concat(f) for f in found], node)
        lst = ip.sym_list(f"split({recv!r}, {sep!r}, {limit!r}, {name})", elem=STR)
        lst.origin = ("split", recv, sep)
        if isinstance(sep, Const) and sep.val is None:
            return lst
        count = App("str.count", (recv, T(sep)), INT)
        if isinstance(limit, Const) and isinstance(limit.val, int) and limit.val < 0:
            lst.length = ip.add(ip.facts.resolve(count), Const(1))
        else:
            ip.facts.assume(ip.facts.lin_atom(Const(1), lst.length, False), True)
            if isinstance(limit, Const) and isinstance(limit.val, int):
                ip.facts.assume(
                    ip.facts.lin_atom(lst.length, Const(limit.val + 1), False), True)
        return lst
    if name == "splitlines":
        return ip.sym_list(f"splitlines({recv!r})", elem=STR)
    if name == "__len__":
        return ip.length(recv)
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0] if args else Const(" \t\n\r\x0b\x0c")
        if isinstance(chars, Const) and isinstance(chars.val, str) and strings.structured(recv):
            parts = strings.strip(recv, chars.val, name in ("strip", "lstrip"),
                                  name in ("strip", "rstrip"), ip.facts)
            if parts is not None:
                return ip.concat(parts)
        return App(f"str.{name}", (recv, T(chars)), STR)
    if name in ("lower", "upper") and strings.structured(recv):
        parts = strings.case(recv, name, ip.facts)
        if parts is not None:
            return ip.concat(parts)
    if name == "count" and len(args) == 1 and isinstance(args[0], Const) \
            and isinstance(args[0].val, str) and args[0].val and strings.structured(recv):
        found = strings.split(recv, args[0].val, None, False, ip.facts)
        if found is not None:
            return Const(len(found) - 1)
        known = strings.contains(recv, args[0].val, ip.facts)
        if known is False:
            return Const(0)
        if known:
            out = App("str.count", (recv, args[0]), INT)
            ip.require(ip.facts.lin_atom(Const(1), out, False))
            return out
    if name in ("partition", "rpartition") and isinstance(args[0], Const) \
            and strings.structured(recv) and isinstance(args[0].val, str) and args[0].val:
        found = strings.split(recv, args[0].val, 1, name == "rpartition", ip.facts)
        if found is not None:
            found = [ip.concat(f) for f in found]
            if len(found) == 2:
                return Tup((found[0], args[0], found[1]))
            blank = Const("")
            return Tup((blank, blank, found[0]) if name == "rpartition"
                       else (found[0], blank, blank))
    if name in ("partition", "rpartition"):
        return Tup(App(f"str.{name}{i}", (recv, T(args[0])), STR) for i in range(3))
    if name in STR_PURE:
        if name == "count":
            out = App("str.count", (recv,) + tuple(T(a) for a in args), INT)
            return out
        if name in ("index", "rindex") and ip.config.check_partial:
            if not ip.decide(("in", T(args[0]), recv)):
                raise _exc("ValueError", (), node)
        return App(f"str.{name}", (recv,) + tuple(T(a) for a in args) + tuple(
            T(v) for _, v in sorted(kwargs.items())), STR_PURE[name])
    if name == "__contains__":
        return ip.contains(recv, args[0], node)
    if name.startswith("__") or not hasattr(str, name):
        raise _exc("AttributeError", (Const(name), recv), node)
    return App(f"str.{name}", (recv,) + tuple(T(a) for a in args), ANY)


def lift(ip, val, node):
    if isinstance(val, (str, int, float, bool, bytes)) or val is None:
        return Const(val)
    if isinstance(val, tuple):
        return Tup(lift(ip, v, node) for v in val)
    if isinstance(val, list):
        return ip.new_list([lift(ip, v, node) for v in val], node)
    if isinstance(val, dict):
        return ip.new_dict({lift(ip, k, node): lift(ip, v, node)
                            for k, v in val.items()}, node)
    return Sym(ip.fresh("lift"), ANY)


# -- regular expressions -----------------------------------------------------------------


def is_match(val):
    return MATCH in ty_parts(ty_of(val))


def pattern_text(val):
    """Literal text of a pattern value, or None."""

    if isinstance(val, App) and val.op == "re.compile":
        val = val.args[0]
    if isinstance(val, Const) and isinstance(val.val, str):
        return val.val
    return None


def _group_info(text):
    """{group: (mandatory, digits_only)} plus names."""

    info = {}

    def digits(seq):
        ok = len(seq) > 0
        for op, av in seq:
            kind = str(op)
            if kind == "IN":
                ok = ok and all(
                    (str(o) == "CATEGORY" and str(a) == "CATEGORY_DIGIT")
                    or (str(o) == "RANGE" and a[0] >= 48 and a[1] <= 57)
                    or (str(o) == "LITERAL" and 48 <= a <= 57) for o, a in av)
            elif kind == "LITERAL":
                ok = ok and 48 <= av <= 57
            elif kind in ("MAX_REPEAT", "MIN_REPEAT"):
                ok = ok and digits(av[2]) and av[0] >= 1
            else:
                ok = False
        return ok

    def walk(seq, must):
        for op, av in seq:
            kind = str(op)
            if kind == "SUBPATTERN":
                gid, _, _, sub = av
                if gid is not None:
                    info[gid] = (must, digits(sub))
                walk(sub, must)
            elif kind in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2], must and av[0] >= 1)
            elif kind == "BRANCH":
                for sub in av[1]:
                    walk(sub, False)
            elif kind in ("ASSERT",):
                walk(av[1], must)
            elif kind in ("ASSERT_NOT",):
                walk(av[1], False)
            elif kind == "ATOMIC_GROUP":
                walk(av, must)
            elif kind == "GROUPREF_EXISTS":
                for sub in av[1:]:
                    if sub:
                        walk(sub, False)

    try:
        tree = sre_parse.parse(text)
    except re.error:
        return None, {}
    walk(tree, True)
    return info, dict(tree.state.groupdict)


def match_group(ip, mtch, idx, node):
    idx = ip.facts.resolve(idx)
    pat = match_pattern_of(mtch)
    typ = ty_union(STR, NONE)
    if isinstance(idx, Const):
        if idx.val == 0:
            typ = STR
        elif pat is not None:
            info, names = _group_info(pat)
            gid = names.get(idx.val, idx.val)
            if info is not None:
                if gid not in info:
                    raise _exc("IndexError", (), node)
                if info[gid][0]:
                    typ = STR
                idx = Const(gid)
    term = App("group", (mtch, T(idx)), typ)
    return term


def match_pattern_of(mtch):
    cur = mtch
    while isinstance(cur, App):
        if cur.op.startswith("re.") and cur.args:
            return pattern_text(cur.args[0])
        cur = cur.args[0] if cur.args else None
    return None


def group_is_digits(term):
    if isinstance(term, App) and term.op == "group":
        pat = match_pattern_of(term.args[0])
        if pat is not None:
            info, _ = _group_info(pat)
            gid = term.args[1].val if isinstance(term.args[1], Const) else None
            return bool(info and gid in info and info[gid][1])
    return False


def known_matches(ip, kind, pattern, args, kwargs, node):
    """Match objects in a partly known string, or None."""

    args = list(args) + ([kwargs["pos"]] if set(kwargs) == {"pos"} else [])
    if len(args) not in (1, 2) or set(kwargs) - {"pos"}:
        return None
    subject = ip.facts.resolve(args[0]) if isinstance(args[0], Term) else args[0]
    rx = regex.compiled(pattern)
    if rx is None or not (strings.structured(subject) or isinstance(subject, Const)
                          and isinstance(subject.val, str)):
        return None
    after = (0, 0)
    if len(args) == 2:
        after = regex.spot_of(ip, subject, args[1])
        if after is None:
            return None
    found = regex.locate(rx, kind, subject, ip.facts, after)
    if found is None:
        return None
    out = []
    for spots in found:
        obj = ext_object(ip, "Match", node)
        obj.args.update(subject=subject, spots=spots, names=dict(rx.groupindex),
                        text=rx.pattern)
        out.append(obj)
    return out


def known_group(ip, obj, idx, node, default=NONE_V):
    idx = ip.facts.resolve(idx)
    key = idx.val if isinstance(idx, Const) else None
    key = obj.args["names"].get(key, key)
    if not isinstance(key, int) or not 0 <= key < len(obj.args["spots"]):
        raise _exc("IndexError", (), node)
    spot = obj.args["spots"][key]
    if spot is None:
        return default
    return ip.concat(regex.between(obj.args["subject"], *spot))


def known_match_method(ip, obj, name, args, kwargs, node):
    spots, subject = obj.args["spots"], obj.args["subject"]
    if name in ("group", "__getitem__"):
        got = [known_group(ip, obj, a, node) for a in args or [Const(0)]]
        return got[0] if len(got) == 1 else Tup(got)
    if name == "groups":
        return Tup(known_group(ip, obj, Const(i), node, *args) for i in range(1, len(spots)))
    if name == "groupdict":
        return ip.new_dict({Const(n): known_group(ip, obj, Const(i), node, *args)
                            for n, i in obj.args["names"].items()}, node)
    if name in ("start", "end", "span"):
        key = args[0].val if args and isinstance(args[0], Const) else 0
        spot = spots[obj.args["names"].get(key, key)]
        ends = (Const(-1), Const(-1)) if spot is None else tuple(
            regex.position(ip, subject, s) for s in spot)
        return Tup(ends) if name == "span" else ends[name == "end"]
    return ext_call(ip, name, obj, args, kwargs, node)


def known_cut(ip, subject, found, split, node):
    """What re.split (re.findall) gives for the matches."""

    out, place = [], (0, 0)
    subject = ip.facts.resolve(subject) if isinstance(subject, Term) else subject
    for mtch in found:
        spots = mtch.args["spots"]
        groups = [known_group(ip, mtch, Const(i), node, NONE_V if split else Const(""))
                  for i in range(len(spots))]
        if split:
            out.append(ip.concat(regex.between(subject, place, spots[0][0])))
            out += groups[1:]
        elif len(groups) < 3:
            out.append(groups[-1])
        else:
            out.append(Tup(groups[1:]))
        place = spots[0][1]
    if split:
        out.append(ip.concat(regex.between(subject, place, (len(strings.pieces(subject)), 0))))
    return out


def known_sub(ip, subject, found, repl, node):
    out, place = [], (0, 0)
    subject = ip.facts.resolve(subject) if isinstance(subject, Term) else subject
    for mtch in found:
        spot = mtch.args["spots"][0]
        out.append(ip.concat(regex.between(subject, place, spot[0])))
        out.append(repl if isinstance(repl, Const) else ip.call(repl, [mtch], {}, node))
        place = spot[1]
    out.append(ip.concat(regex.between(subject, place, (len(strings.pieces(subject)), 0))))
    return ip.concat(out)


def regex_call(ip, kind, pattern, args, kwargs, node):
    if kind in ("match", "search", "fullmatch", "finditer"):
        found = known_matches(ip, kind, pattern, args, kwargs, node)
        if found is not None:
            if kind == "finditer":
                return ip.new_list(found, node)
            return found[0] if found else NONE_V
    if kind in ("split", "findall") and len(args) == 1 and not kwargs:
        found = known_matches(ip, "finditer", pattern, args, kwargs, node)
        if found is not None:
            return ip.new_list(known_cut(ip, args[0], found, kind == "split", node), node)
    if kind in ("match", "search", "fullmatch"):
        subject = T(args[0])
        return App(f"re.{kind}", (pattern, subject), ty_union(NONE, MATCH))
    if kind == "finditer":
        return App("re.finditer", (pattern, T(args[0])), ("iter", MATCH))
    if kind == "findall":
        return ip.sym_list(f"findall({pattern!r}, {args[0]!r})", elem=ANY)
    if kind == "sub":
        repl = args[0]
        count = kwargs.get("count", args[2] if len(args) > 2 else Const(0))
        if len(args) > 3 or set(kwargs) - {"count"} or not isinstance(count, Const):
            return App("re.sub", (pattern, T(repl), T(args[1]), Sym(ip.fresh("sub"), ANY)), STR)
        if (isinstance(repl, (Fn, Bound)) or isinstance(
                repl, Const) and isinstance(repl.val, str) and "\\" not in repl.val):
            found = known_matches(ip, "finditer", pattern, [args[1]], kwargs, node)
            if found is not None:
                found = found[:count.val] if count.val > 0 else found
                return known_sub(ip, args[1], found, repl, node)
        text = pattern_text(pattern)
        if isinstance(args[1], Const) and isinstance(repl, Const) and text is not None:
            return Const(re.sub(text, repl.val, args[1].val, count=count.val))
        return App("re.sub", (pattern, T(repl), T(args[1])), STR)
    if kind == "split":
        return ip.sym_list(f"re.split({pattern!r}, {args[0]!r})", elem=STR)
    return App(f"re.{kind}", (pattern,) + tuple(T(a) for a in args), ANY)


def match_method(ip, recv, name, args, kwargs, node):
    if name == "group":
        if not args:
            args = [Const(0)]
        out = [match_group(ip, recv, a, node) for a in args]
        return out[0] if len(out) == 1 else Tup(out)
    if name in ("groups", "groupdict"):
        pat = match_pattern_of(recv)
        info, names = _group_info(pat) if pat is not None else (None, {})
        if info is None:
            return Sym(ip.fresh("groups"), ANY)
        if name == "groups":
            return Tup(match_group(ip, recv, Const(i), node) for i in sorted(info))
        return ip.new_dict({Const(k): match_group(ip, recv, Const(i), node)
                            for k, i in names.items()}, node)
    if name in ("start", "end", "span"):
        gid = args[0] if args else Const(0)
        if name == "span":
            return Tup((App("m.start", (recv, gid), INT), App("m.end", (recv, gid), INT)))
        return App(f"m.{name}", (recv, gid), INT)
    return ext_call(ip, name, recv, args, kwargs, node)


# -- containers --------------------------------------------------------------------------


def copy_list(ip, lst, node):
    if lst.items is not None:
        return ip.new_list(list(lst.items), node, elem=lst.elem)
    out = ip.new_list(None, node, elem=lst.elem)
    out.name, out.version, out.length = lst.name, lst.version, lst.length
    out.known = dict(lst.known)
    out.proto, out.proto_fresh = lst.proto, lst.proto_fresh
    out.partial = lst.partial
    out.row_len = lst.row_len
    return out


def to_list(ip, val, node):
    if isinstance(val, LST):
        return copy_list(ip, val, node)
    items = None
    if isinstance(val, Gen) and isinstance(val.fn, Fn):
        return ip.collect(val, node)
    items = ip.seq_items(val, node)
    if items is not None:
        return ip.new_list(items, node)
    if isinstance(val, Lazy) and val.kind == "items":
        dct = val.args[0]
        lst = ip.new_list(None, node, elem=("tuple", (dct.key_ty, dct.val_ty)))
        lst.name, lst.length = f"items({dct.name}@{dct.version})", ip.length(dct)
        return lst
    if isinstance(val, Gen):
        import ast
        fake = ast.ListComp(elt=val.fn.elt, generators=val.fn.generators)
        ast.copy_location(fake, val.fn)
        saved = ip.frames
        ip.frames = saved + [val.bound]
        try:
            return ip.comp_symbolic(fake, "list")
        finally:
            ip.frames = saved
    typ = ip.cur_type(val)
    lst = ip.new_list(None, node)
    lst.name = f"list({T(val)!r})"
    if typ == STR:
        lst.elem, lst.length = STR, ip.length(val)
        lst.name = f"chars({T(val)!r})"
        return lst
    if typ[0] in ("iter", "list"):
        lst.elem = typ[1]
    lst.length = Sym(f"len({lst.name})", INT, lo=0)
    trip = ip.trip_count(val)
    if trip is not None:
        lst.length = trip
    return lst


def lazy_items(ip, val, node):
    kind, args = val.kind, val.args
    if kind == "range":
        if all(isinstance(ip.facts.resolve(a), Const) for a in args):
            return [Const(i) for i in range(*[ip.facts.resolve(a).val for a in args])]
        return None
    if kind == "items":
        dct = args[0]
        return None if dct.sym else [Tup((T(k), v if isinstance(v, Term) else T(v)))
                                     if False else Pair(k, v)
                                     for k, v in dct.items.items()]
    if kind in ("keys", "values"):
        dct = args[0]
        if dct.sym:
            return None
        return list(dct.items if kind == "keys" else dct.items.values())
    if kind == "chain":
        out = []
        for arg in args:
            sub = ip.seq_items(arg, node)
            if sub is None:
                return None
            out += sub
        return out
    subs = [ip.seq_items(a, node) for a in (args[1:] if kind in ("map", "filter")
                                            else args[:1] if kind == "enumerate" else args)]
    if any(s is None for s in subs):
        if kind == "zip" and any(s is not None for s in subs) and False:
            return None
        return None
    if kind == "enumerate":
        start = args[1] if len(args) > 1 else Const(0)
        return [Pair(ip.add(Const(i), start), item) for i, item in enumerate(subs[0])]
    if kind == "zip":
        return [mk_tuple(row) for row in zip(*subs)]
    if kind == "map":
        return [ip.call(args[0], list(row), {}, node) for row in zip(*subs)]
    if kind == "filter":
        out = []
        for item in subs[0]:
            keep = item if isinstance(args[0], Const) else ip.call(args[0], [item], {}, node)
            if ip.truth(keep):
                out.append(item)
        return out
    if kind == "reversed":
        return subs[0][::-1]
    return None


def Pair(one, two):
    return mk_tuple((one, two))


def mk_tuple(items):
    return Tup(tuple(items))


def slice_bounds(ip, idx):
    out = []
    for part in (idx.lo, idx.hi, idx.step):
        part = ip.facts.resolve(part) if isinstance(part, Term) else part
        out.append(part)
    return out


def known_le(ip, one, two):
    atom = ip.facts.lin_atom(one, two, False)
    return atom if isinstance(atom, bool) else (
        atom[0] != "p" and ip.facts.implied(atom) is True)


def row_len(ip, lst):
    """Common length of the lists in a list, if known."""

    if lst.row_len is not None:
        return lst.row_len
    if lst.items is not None:
        rows = [ip.length(i) if isinstance(i, LST) else None for i in lst.items]
        if rows and None not in rows and all(
                ip.facts.eq_implied(r, rows[0]) is True for r in rows):
            return rows[0]
        return None
    if isinstance(lst.proto, LST) and not lst.known:
        return ip.length(lst.proto)
    return None


def slice_(ip, obj, idx, node):
    cls = ip.class_of(obj)
    if cls is not None:
        meth = cls.lookup("__getitem__")
        if isinstance(meth, Fn):
            return ip.call(Bound(meth, obj), [idx], {}, node)
    lo, hi, step = slice_bounds(ip, idx)
    consts = all(isinstance(p, Const) for p in (lo, hi, step))
    pyslice = slice(*(p.val for p in (lo, hi, step))) if consts else None
    if isinstance(obj, Tup) and consts:
        return Tup(obj.items[pyslice])
    if isinstance(obj, LST):
        if obj.items is not None and consts:
            return ip.new_list(obj.items[pyslice], node)
        if obj.items is not None and not obj.items:
            return ip.new_list([], node)
        if consts and lo.val in (None, 0) and hi.val is None and step.val in (None, 1):
            return copy_list(ip, obj, node)
        lst = ip.new_list(None, node, elem=obj.elem)
        base = obj.name or obj.oid
        lst.name = f"slice({base}@{obj.version}, {lo!r}, {hi!r}, {step!r})"
        lst.length = Sym(f"len({lst.name})", INT, lo=0)
        lst.row_len = row_len(ip, obj)
        if not (isinstance(step, Const) and step.val in (None, 1)):
            return lst
        total = ip.length(obj)
        start = Const(0) if isinstance(lo, Const) and lo.val is None else lo
        stop = total if isinstance(hi, Const) and hi.val is None else hi
        if known_le(ip, Const(0), start) and known_le(ip, Const(0), stop):
            size = ip.sub(stop, start)
            if known_le(ip, start, stop) and known_le(ip, stop, total):
                lst.length = size
            else:
                ip.require(ip.facts.lin_atom(lst.length, total, False))
                if known_le(ip, start, stop):
                    ip.require(ip.facts.lin_atom(lst.length, size, False))
            if isinstance(start, Const) and start.val == 0:
                # the same elements under the same names
                lst.name, lst.version = base, obj.version
                lst.known = dict(obj.known)
                lst.proto, lst.proto_fresh = obj.proto, obj.proto_fresh
        return lst
    if isinstance(obj, Const) and consts:
        try:
            return lift(ip, obj.val[pyslice], node)
        except TypeError:
            raise _exc("TypeError", (), node) from None
    typ = ip.cur_type(obj)
    if typ[0] == "union" and NONE in typ[1] and isinstance(obj, (Sym, App)):
        if ip.truth(ip.identical(obj, NONE_V)):
            raise _exc("TypeError", (Const("None slice"),), node)
        typ = ip.cur_type(obj)
    if typ == STR:
        zero = isinstance(lo, Const) and lo.val in (None, 0)
        if zero and isinstance(hi, Const) and hi.val is None and isinstance(step, Const) \
                and step.val in (None, 1):
            return obj
        if consts and step.val in (None, 1) and strings.structured(obj):
            got = strings.cut(obj, lo.val, hi.val, ip.facts)
            if got is not None:
                return ip.concat(got)
        if isinstance(step, Const) and step.val in (None, 1) and strings.structured(obj):
            low = (0, 0) if zero else regex.spot_of(ip, obj, lo) if ty_of(lo) == INT else None
            high = (len(strings.pieces(obj)), 0) if isinstance(hi, Const) and hi.val is None \
                else regex.spot_of(ip, obj, hi) if ty_of(hi) == INT else None
            if low is not None and high is not None and low <= high:
                return ip.concat(regex.between(obj, low, high))
        if zero:
            lo = Const(0)
        args = (obj, lo, hi) + (() if isinstance(step, Const) and step.val in (None, 1)
                                else (T(step),))
        return App("str.slice", args, STR)
    if typ[0] == "tuple" and consts:
        items = [ip.materialise(App("item", (obj, Const(i)), t))
                 for i, t in enumerate(typ[1])]
        return Tup(items[pyslice])
    if typ[0] in ("list", "iter"):
        lst = ip.new_list(None, node, elem=typ[1])
        lst.name = f"slice({T(obj)!r}, {lo!r}, {hi!r})"
        lst.length = Sym(f"len({lst.name})", INT, lo=0)
        return lst
    return App("slice", (T(obj), T(lo), T(hi)), ANY)


def set_op(ip, op, left, right, node):
    if isinstance(left, Lazy):
        left = to_set(ip, left, node)
    if isinstance(right, Lazy):
        right = to_set(ip, right, node)
    if isinstance(left, DCT) and isinstance(right, DCT) and not left.sym and not right.sym:
        keys = {"-": lambda a, b: [k for k in a if k not in b],
                "&": lambda a, b: [k for k in a if k in b],
                "|": lambda a, b: list(a) + [k for k in b if k not in a],
                "^": lambda a, b: [k for k in a if k not in b] + [
                    k for k in b if k not in a]}[op](left.items, right.items)
        return ip.new_dict({k: TRUE for k in keys}, node, "set")
    out = ip.new_dict({}, node, "set")
    out.sym, out.name = True, ip.fresh("set")
    return out


def to_set(ip, val, node):
    items = ip.seq_items(val, node)
    if items is not None:
        return ip.new_dict({ip.hkey(i): TRUE for i in items}, node, "set")
    out = ip.new_dict({}, node, "set")
    out.sym, out.name = True, ip.fresh("set")
    return out


def list_method(ip, lst, name, args, kwargs, node):
    if name == "append":
        ip.mutating(lst, "append", (args[0],), node)
        if lst.items is not None:
            lst.items.append(args[0])
        else:
            lst.known[lst.length] = args[0]
            lst.length = ip.add(lst.length, Const(1))
        return NONE_V
    if name == "extend":
        items = ip.seq_items(args[0], node)
        ip.mutating(lst, "extend", (args[0],), node)
        if items is not None and lst.items is not None:
            lst.items += items
        elif items is not None:
            for item in items:
                lst.known[lst.length] = item
                lst.length = ip.add(lst.length, Const(1))
        else:
            old = ip.length(lst)
            lst.items = None
            lst.name = lst.name or lst.oid
            lst.version += 1
            lst.known = {}
            extra = ip.trip_count(args[0])
            lst.length = ip.add(old, extra) if extra is not None else Sym(
                ip.fresh(f"len({lst.name})"), INT, lo=0)
        return NONE_V
    if name == "insert":
        ip.mutating(lst, "insert", tuple(args), node)
        if lst.items is not None and isinstance(args[0], Const):
            lst.items.insert(args[0].val, args[1])
        else:
            _smear(ip, lst, ip.add(ip.length(lst), Const(1)))
        return NONE_V
    if name == "pop":
        ip.mutating(lst, "pop", tuple(args), node)
        idx = args[0] if args else Const(-1)
        if lst.items is not None and isinstance(idx, Const):
            try:
                return lst.items.pop(idx.val)
            except IndexError:
                raise _exc("IndexError", (), node) from None
        val = ip.list_get(lst, idx, node)
        new = ip.sub(ip.length(lst), Const(1))
        if isinstance(idx, Const) and idx.val == -1:
            lst.length = new
            lst.known = {k: v for k, v in lst.known.items() if k != new}
        else:
            _smear(ip, lst, new)
        return val
    if name in ("remove", "sort", "reverse", "clear"):
        ip.mutating(lst, name, tuple(args), node)
        if name == "clear":
            lst.items, lst.known, lst.proto = [], {}, None
        elif name == "reverse" and lst.items is not None:
            lst.items.reverse()
        elif name == "remove":
            if lst.items is not None:
                for i, item in enumerate(lst.items):
                    if ip.truth(ip.equals(item, args[0], node)):
                        lst.items.pop(i)
                        return NONE_V
                raise _exc("ValueError", (), node)
            _smear(ip, lst, ip.sub(ip.length(lst), Const(1)))
        elif lst.items is not None:
            got = sort_items(ip, lst.items, kwargs, node)
            if got is not None:
                lst.items = got
            elif len(lst.items) > 1:
                length = Const(len(lst.items))
                lst.items = None
                _smear(ip, lst, length)
        else:
            _smear(ip, lst, lst.length)
        return NONE_V
    if name == "copy":
        return copy_list(ip, lst, node)
    if name == "index":
        if lst.items is not None:
            for i, item in enumerate(lst.items):
                if ip.truth(ip.equals(item, args[0], node)):
                    return Const(i)
            raise _exc("ValueError", (), node)
        return App("list.index", (T(lst), T(args[0])), INT)
    if name == "count":
        return App("list.count", (T(lst), T(args[0])), INT)
    if name in ("__len__",):
        return ip.length(lst)
    if name == "__getitem__":
        return ip.getitem(lst, args[0], node)
    if name == "__setitem__":
        ip.setitem(lst, args[0], args[1], node)
        return NONE_V
    if name == "__contains__":
        return ip.contains(lst, args[0], node)
    if name in ("popleft", "appendleft"):
        return list_method(ip, lst, {"popleft": "pop", "appendleft": "insert"}[name],
                           [Const(0)] + list(args), {}, node)
    raise _exc("AttributeError", (Const(name), NONE_V), node)


def _smear(ip, lst, length):
    lst.items = None
    lst.name = lst.name or lst.oid
    lst.version += 1
    lst.known = {}
    lst.length = length


def sort_items(ip, items, kwargs, node):
    if len(items) <= 1:
        return list(items)
    key = kwargs.get("key")
    keys = []
    for item in items:
        k = item if key is None or isinstance(key, Const) else ip.call(key, [item], {}, node)
        k = plain(k)
        if k is None:
            return None
        keys.append(k[0])
    rev = kwargs.get("reverse")
    order = sorted(range(len(items)), key=lambda i: keys[i],
                   reverse=bool(rev and ip.truth(rev)))
    return [items[i] for i in order]


def plain(val):
    """(python value,) of a constant structure, or None."""

    if isinstance(val, Const):
        return (val.val,)
    if isinstance(val, Tup):
        out = [plain(i) for i in val.items]
        return None if any(o is None for o in out) else (tuple(o[0] for o in out),)
    return None


def dict_method(ip, dct, name, args, kwargs, node):
    if dct.kind == "set":
        return set_method(ip, dct, name, args, kwargs, node)
    if name == "get":
        default = args[1] if len(args) > 1 else NONE_V
        return ip.dict_get(dct, args[0], node, default)
    if name in ("items", "keys", "values"):
        return Lazy(name, [dct])
    if name == "update":
        ip.mutating(dct, "update", tuple(args), node)
        star = kwargs.pop("**", None) if kwargs else None
        for arg in args:
            ip.dict_update(dct, arg, node)
        for key, val in kwargs.items():
            if isinstance(dct.items, FieldView):
                ip.setitem(dct, Const(key), val, node)
            dct.items[Const(key)] = val
        if star is not None:
            dct.sym, dct.name = True, dct.name or ip.fresh("dict")
            dct.version += 1
        return NONE_V
    if name == "copy":
        out = ip.new_dict(dict(dct.items), node)
        out.sym, out.name, out.version = dct.sym, dct.name, dct.version
        out.key_ty, out.val_ty = dct.key_ty, dct.val_ty
        return out
    if name == "clear":
        ip.mutating(dct, "clear", (), node)
        if isinstance(dct.items, FieldView):
            dct.items.clear()
            return NONE_V
        dct.items, dct.sym = {}, False
        return NONE_V
    if name == "pop":
        ip.mutating(dct, "pop", tuple(args), node)
        key = ip.hkey(args[0], dct)
        val = ip.dict_get(dct, key, node, args[1] if len(args) > 1 else None)
        dct.items.pop(key, None)
        if dct.sym:
            dct.version += 1
        return val
    if name == "setdefault":
        key = ip.hkey(args[0], dct)
        default = args[1] if len(args) > 1 else NONE_V
        val = ip.dict_get(dct, key, node, default)
        if val is default:
            ip.setitem(dct, key, default, node)
        return val
    if name == "popitem":
        ip.mutating(dct, "popitem", (), node)
        if dct.items and not dct.sym:
            key = list(dct.items)[-1]
            return Pair(key, dct.items.pop(key))
        dct.version += 1
        return Pair(Sym(ip.fresh("k"), dct.key_ty), Sym(ip.fresh("v"), dct.val_ty))
    if name == "__setitem__":
        ip.setitem(dct, args[0], args[1], node)
        return NONE_V
    if name == "__getitem__":
        return ip.dict_get(dct, args[0], node, None)
    if name == "__contains__":
        return ip.contains(dct, args[0], node)
    if name == "__len__":
        return ip.length(dct)
    raise _exc("AttributeError", (Const(name), NONE_V), node)


def set_method(ip, dct, name, args, kwargs, node):
    if name == "add":
        ip.mutating(dct, "add", tuple(args), node)
        key = ip.hkey(args[0], dct)
        if not ip.settled(key) and key not in dct.items and dct.items:
            dct.sym, dct.name = True, dct.name or dct.oid
            dct.version += 1
        dct.items[key] = TRUE
        return NONE_V
    if name in ("discard", "remove"):
        ip.mutating(dct, name, tuple(args), node)
        dct.items.pop(ip.hkey(args[0], dct), None)
        return NONE_V
    if name == "clear":
        ip.mutating(dct, "clear", (), node)
        dct.items, dct.sym = {}, False
        return NONE_V
    if name in ("union", "intersection", "difference"):
        out = dct
        for arg in args:
            out = set_op(ip, {"union": "|", "intersection": "&", "difference": "-"}[name],
                         out, arg if isinstance(arg, DCT) else to_set(ip, arg, node), node)
        return out
    if name == "update":
        ip.mutating(dct, "update", tuple(args), node)
        for arg in args:
            items = ip.seq_items(arg, node)
            if items is None:
                dct.sym, dct.name = True, dct.name or ip.fresh("set")
                dct.version += 1
            else:
                for item in items:
                    dct.items[ip.hkey(item)] = TRUE
        return NONE_V
    if name == "copy":
        out = ip.new_dict(dict(dct.items), node, "set")
        out.sym, out.name = dct.sym, dct.name
        return out
    if name == "pop":
        ip.mutating(dct, "pop", (), node)
        return Sym(ip.fresh("setpop"), ANY)
    if name in ("issubset", "issuperset", "isdisjoint"):
        return Cmp(("p", name, T(dct), T(args[0])))
    raise _exc("AttributeError", (Const(name), NONE_V), node)


# -- type tests --------------------------------------------------------------------------


def isinstance_(ip, val, typ, node):
    cands = []
    stack = [typ]
    while stack:
        cur = stack.pop(0)
        if isinstance(cur, Tup):
            stack += list(cur.items)
        elif isinstance(cur, App) and cur.op == "bitor":
            stack += [getattr(a, "meta", None) if isinstance(a, Sym) and isinstance(
                getattr(a, "meta", None), Cls) else a for a in cur.args]
        else:
            cands.append(cur)
    undecided = []
    for cand in cands:
        res = _isinst(ip, val, cand)
        if res is True:
            return TRUE
        if res is None:
            undecided.append(cand)
    if not undecided:
        return FALSE
    if len(undecided) == 1:
        return Cmp(("isinst", T(val), _cname(undecided[0])))
    for cand in undecided:
        if ip.decide(("isinst", T(val), _cname(cand))):
            return TRUE
    return FALSE


def _cname(cand):
    return cand.name.split(".")[-1] if isinstance(cand, (Bi, Cls)) else repr(cand)


PYTYPES = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes,
           "tuple": tuple, "list": list, "dict": dict, "set": set, "object": object}


def _isinst(ip, val, cand):
    name = _cname(cand)
    if isinstance(val, Term):
        val = ip.facts.resolve(val)
    if name == "object":
        return True
    if isinstance(val, Const):
        if name == "NoneType":
            return val.val is None
        if isinstance(cand, Cls):
            return False
        pyt = PYTYPES.get(name)
        if pyt is not None:
            return isinstance(val.val, pyt)
        if name in ("Iterable", "Sequence"):
            return isinstance(val.val, (str, bytes))
        return False
    cls = ip.class_of(val)
    if cls is not None:
        if isinstance(cand, Cls):
            return cand in cls.mro() or cand.name in [c.name for c in cls.mro()]
        return any(isinstance(b, Bi) and b.name.split(".")[-1] == name
                   for c in cls.mro() for b in c.bases)
    if isinstance(val, Cat):
        return name in ("str", "Iterable", "Sequence")
    if isinstance(val, Cmp):
        return name in ("bool", "int")
    if isinstance(val, Tup):
        return name in ("tuple", "Iterable", "Sequence") or val.cls is not None and (
            name == val.cls.name)
    if isinstance(val, LST):
        return name in ("list", "Iterable", "Sequence")
    if isinstance(val, DCT):
        return name in (val.kind, "Mapping", "Iterable")
    if isinstance(val, (Fn, Bound, BM, Partial)):
        return name in ("Callable", "FunctionType")
    if isinstance(val, Slice):
        return name == "slice"
    if isinstance(val, (Gen, Lazy)):
        return name in ("Iterable", "Iterator", "Generator")
    known = ip.facts.known.get(("isinst", T(val), name))
    if known is not None:
        return known
    typ = ip.cur_type(val)
    answers = {_ty_isinst(ip, part, cand, name) for part in ty_parts(typ)}
    if answers == {True}:
        return True
    if answers == {False}:
        return False
    if ip.facts.known.get(("isnone", T(val))) is True:
        return False
    return None


def _ty_isinst(ip, typ, cand, name):
    kind = typ[0]
    if kind == "any":
        return None
    if kind == "cls":
        cls = ip.classes.get(typ[1])
        if cls is None:
            return None
        if isinstance(cand, Cls):
            return cand.name in [c.name for c in cls.mro()]
        return any(isinstance(b, Bi) and b.name.split(".")[-1] == name
                   for c in cls.mro() for b in c.bases)
    if isinstance(cand, Cls):
        return kind == "tuple" and cand in typ[2:]
    table = {"str": ("str",), "int": ("int",), "float": ("float",),
             "bool": ("bool", "int"), "none": ("NoneType",), "bytes": ("bytes",),
             "tuple": ("tuple", "Sequence", "Iterable"),
             "list": ("list", "Sequence", "Iterable"), "dict": ("dict", "Mapping"),
             "callable": ("Callable",)}
    if kind in table:
        if kind == "str" and name in ("Iterable", "Sequence"):
            return True
        return name in table[kind]
    if kind == "iter":
        if name in ("str", "int", "float", "bool"):
            return False
        return None
    return None


def suppresses(ip, ctx, exc):
    if isinstance(ctx, App) and ctx.op == "ctx" and ctx.args[0].val == "suppress":
        from .interp import exc_is
        for cand in ctx.args[1:]:
            if isinstance(cand, Bi) and exc_is(exc.exc, cand.name.split(".")[-1]):
                return True
            meta = getattr(cand, "meta", None)
            if isinstance(meta, Cls) and isinstance(exc.exc, Cls) and meta in exc.exc.mro():
                return True
    return False


# -- external objects --------------------------------------------------------------------

PURE_EXT = {
    "math.sqrt": ("sqrt", FLOAT), "math.floor": ("floor", INT), "math.ceil": ("ceil", INT),
    "math.trunc": ("trunc", INT), "html.escape": ("html.escape", STR),
    "xml.sax.saxutils.escape": ("xml.escape", STR),
    "xml.sax.saxutils.quoteattr": ("xml.quoteattr", STR),
    "math.log": ("log", FLOAT), "math.fabs": ("abs", FLOAT), "math.pow": ("pow", FLOAT),
    "math.dist": ("dist", FLOAT), "math.hypot": ("hypot", FLOAT),
    "unicodedata.east_asian_width": ("eaw", STR), "re.escape": ("re.escape", STR),
    "copy.copy": None, "copy.deepcopy": None,
}


def ext_call(ip, name, recv, args, kwargs, node, typ=ANY):
    """A call whose effect is outside the repository."""

    ip.maybe_raise(name, node)
    ip.calls_seen.add(name)
    if name == "isatty" or name.endswith(".isatty"):
        base = T(recv) if recv is not None else Bi(name[:-7])
        ret = App("isatty", (base,), BOOL)
    elif name == "fileno" or name.endswith(".fileno"):
        base = T(recv) if recv is not None else Bi(name[:-7])
        ret = App("fileno", (base,), INT)
    else:
        ret = Sym(ip.fresh(f"{name}()"), typ)
    ip.event("ext", node, name=name, recv=recv, args=tuple(args), kwargs=dict(kwargs),
             ret=ret)
    return ret


EXT_TYPES = {
    "os.read": BYTES, "termios.tcgetattr": ("ext", "termios"),
    "shutil.get_terminal_size": ("tuple", (INT, INT)),
    "os.get_terminal_size": ("tuple", (INT, INT)),
    "time.time": FLOAT, "time.monotonic": FLOAT, "time.perf_counter": FLOAT,
    "os.getcwd": STR, "input": STR, "os.system": INT,
    "select.select": ("tuple", (("list", ANY), ("list", ANY), ("list", ANY))),
}


def ext_object(ip, kind, node, **fields):
    obj = ip.new_obj(None, node)
    obj.args = {"kind": kind}
    obj.fields.update(fields)
    return obj


def kind_of(obj):
    return obj.args.get("kind") if isinstance(obj, Obj) and isinstance(
        obj.args, dict) and obj.cls is None else None


def stringio_method(ip, obj, name, args, kwargs, node):
    """io.StringIO with explicit content and position."""

    if obj.global_ or obj.lazy:
        ip.touch(obj)
    fields = obj.fields
    content, pos = fields["content"], fields["pos"]
    ip.event("ext", node, name=name, recv=obj, args=tuple(args), kwargs=dict(kwargs))

    def put(new_content, new_pos):
        for ctx in ip.loop_stack:
            if obj.born <= ctx.start:
                ip.havoc.setdefault(ctx.key, set()).add(("field", obj.site, "content"))
                ip.havoc.setdefault(ctx.key, set()).add(("field", obj.site, "pos"))
        fields["content"], fields["pos"] = new_content, new_pos

    content = ip.facts.resolve(content) if isinstance(content, Term) else content
    where = len(content.val) if pos == "end" and isinstance(content, Const) else \
        pos.val if isinstance(pos, Const) else None
    if isinstance(content, Const) and where is not None and not kwargs and all(
            isinstance(a, Const) for a in args):
        # all known: what Python itself does (positions beyond the end are padded, and so on)
        import io
        real = io.StringIO(content.val)
        real.seek(where)
        method = getattr(real, name, None)
        if name in ("write", "seek", "tell", "getvalue", "truncate", "read", "readline"):
            try:
                out = method(*[a.val for a in args])
            except (ValueError, TypeError, OSError) as exc:
                raise _exc(type(exc).__name__, (), node) from None
            put(Const(real.getvalue()), Const(real.tell()))
            return Const(out)
    at_end = pos == "end" or (isinstance(pos, Term) and ip.facts.eq_implied(
        pos, ip.length(content)) is True)
    if name == "write":
        text = args[0]
        if at_end or content == Const(""):
            put(ip.concat([content, text]), "end")
        else:
            put(App("overwrite", (content, T(pos), T(text)), STR),
                ip.add(pos, ip.length(text)))
        return ip.length(text)
    if name == "seek":
        whence = args[1] if len(args) > 1 else Const(0)
        if whence == Const(2):
            put(content, "end")
        elif whence == Const(0):
            put(content, args[0])
        return args[0]
    if name == "tell":
        return ip.length(content) if pos == "end" else pos
    if name == "getvalue":
        return content
    if name == "truncate":
        size = args[0] if args else (ip.length(content) if pos == "end" else pos)
        if size == Const(0):
            put(Const(""), Const(0) if pos == Const(0) or pos == "end" and False else pos)
            if pos == "end":
                # position stays beyond the end: a later write pads with NULs
                fields["pos"] = App("stale-pos", (T(content),), INT)
        elif not (at_end and (not args)):
            put(App("str.slice", (content, Const(0), T(size)), STR), pos)
        return T(size)
    if name == "read":
        if at_end:
            return Const("")
        out = content if pos == Const(0) else App(
            "str.slice", (content, T(pos), NONE_V), STR)
        if args and not (isinstance(args[0], Const) and args[0].val in (None, -1)):
            out = App("str.slice", (content, T(pos), ip.add(pos, args[0])), STR)
            put(content, ip.add(pos, args[0]))
            return out
        put(content, "end")
        return out
    if name in ("flush", "close", "__enter__", "__exit__"):
        return NONE_V
    if name == "isatty":
        return FALSE
    return Sym(ip.fresh(f"StringIO.{name}"), ANY)


# -- builtin calls -----------------------------------------------------------------------


def env_value(ip, key):
    key = ip.facts.resolve(key)
    name = key.val if isinstance(key, Const) else repr(key)
    if ip.config.env is not None and isinstance(key, Const):
        val = ip.memo.get(("env", name), ip.config.env.get(name))
        return val if isinstance(val, Term) else Const(val)
    return Sym(f"env[{name}]", ty_union(STR, NONE))


def env_item(ip, key, node):
    val = env_value(ip, key)
    if ip.truth(ip.equals(val, NONE_V, node)) if isinstance(val, Const) else \
            ip.decide(("isnone", val)):
        raise _exc("KeyError", (), node)
    return val


def number(ip, name, args, kwargs, node):
    """int() and float()."""

    if not args:
        return Const(0 if name == "int" else 0.0)
    val = ip.facts.resolve(args[0]) if isinstance(args[0], Term) else args[0]
    base = args[1] if len(args) > 1 else kwargs.get("base")
    if isinstance(val, Const) and (base is None or isinstance(base, Const)):
        try:
            fn = int if name == "int" else float
            return Const(fn(val.val) if base is None else fn(val.val, base.val))
        except (ValueError, TypeError, OverflowError) as exc:
            raise _exc(type(exc).__name__, (), node) from None
    if isinstance(val, Cmp):
        return Const(int(ip.truth(val)))
    typ = ip.cur_type(val)
    if typ == BOOL:
        return Const(int(ip.truth(val)))
    if typ[0] == "union" and NONE in typ[1] and isinstance(val, (Sym, App)):
        if ip.truth(ip.identical(val, NONE_V)):
            raise _exc("TypeError", (), node)
        typ = ip.cur_type(val)
    if typ == INT and base is None:
        return val if name == "int" else App("float", (val,), FLOAT)
    if typ == FLOAT and name == "float":
        return val
    if name == "int" and isinstance(val, App) and val.op == "str" and base is None \
            and ty_of(val.args[0]) == INT:
        return val.args[0]
    if name == "int" and isinstance(val, App) and val.op == "fmt" and base is None \
            and val.args[1] in (Const("d"),):
        return val.args[0]
    if name == "int" and isinstance(base, Const) and base.val == 16 and isinstance(val, App) \
            and val.op == "fmt" and val.args[1] in (Const("02x"), Const("02X"), Const("x"),
                                                    Const("X")):
        return val.args[0]
    if typ == STR and strings.structured(val) and strings.size(val, ip.facts)[0] >= 1:
        least = [strings.shape(p, ip.facts) for p in strings.pieces(val)]
        digits = strings.HEX if isinstance(base, Const) and base.val == 16 else strings.DIGITS
        if base is None or isinstance(base, Const) and base.val in (10, 16):
            if name == "int" and (all(i.chars is not None and not i.chars & digits
                                      for i in least)
                                  or any(c.isascii() and c not in digits and c not in "+-_ \t\n"
                                         and not (base is not None and c in "xX")
                                         for i in least for c in i.has)):
                raise _exc("ValueError", (), node)
    if typ == STR or typ == ANY:
        if ip.config.check_partial and not _is_number_text(ip, val, name, base):
            kind = "hex" if base is not None else name
            if not ip.decide(("p", f"is{kind}", T(val), NONE_V)):
                raise _exc("ValueError", (), node)
    if base is not None and not (isinstance(base, Const) and base.val == 10):
        op = "int16" if isinstance(base, Const) and base.val == 16 else "intbase"
        return App(op, (T(val),) if op == "int16" else (T(val), T(base)), INT)
    if typ == STR:
        return App("int" if name == "int" else "float", (T(val),),
                   INT if name == "int" else FLOAT)
    return App("int" if name == "int" else "float", (T(val),),
               INT if name == "int" else FLOAT)


def _is_number_text(ip, val, name, base):
    if group_is_digits(val):
        return True
    if isinstance(val, Term):
        least, _ = strings.size(val, ip.facts)
        need = strings.HEX if isinstance(base, Const) and base.val == 16 else strings.DIGITS
        if least >= 1 and all((c := strings.shape(p, ip.facts).chars) is not None and c <= need
                              for p in strings.pieces(val)):
            return True
    if ip.facts.known.get(("p", "isdigit", T(val), NONE_V)) is True:
        return True
    if ip.facts.known.get(("p", "isdecimal", T(val), NONE_V)) is True:
        return True
    if isinstance(val, App) and val.op == "fmt":
        return True
    return False


def extremum(ip, name, args, kwargs, node):
    key = kwargs.get("key")
    if len(args) == 1:
        items = ip.seq_items(args[0], node)
        if items is None:
            elem = None
            typ = ip.cur_type(args[0])
            ety = typ[1] if typ[0] in ("list", "iter") else ANY
            if isinstance(args[0], Lazy) and args[0].kind == "range":
                ety = INT
            return App(f"{name}-of", (T(args[0]),), ety)
    else:
        items = list(args)
    if not items:
        if "default" in kwargs:
            return kwargs["default"]
        raise _exc("ValueError", (), node)
    if len(items) == 1:
        return items[0]
    if key is not None and not (isinstance(key, Const) and key.val is None):
        consts = [i for i in items if isinstance(i, Const) and isinstance(
            i.val, (int, float)) and not isinstance(i.val, bool)]
        if len(consts) == len(items):
            scores = []
            for item in consts[:64]:
                saved = snapshot(ip)
                score = ip.call(key, [item], {}, node)
                restore(ip, saved)
                if not isinstance(score, Const):
                    break
                scores.append(score.val)
            if len(scores) == len(items):
                pick = min if name == "min" else max
                return pick(zip(scores, consts), key=lambda pair: pair[0])[1]
            vals = sorted(i.val for i in consts)
            sym = Sym(ip.fresh(f"arg{name}"), INT, lo=vals[0], hi=vals[-1])
            saved = snapshot(ip)
            score = ip.call(key, [sym], {}, node)
            restore(ip, saved)
            ip.event("argmin", node, which=name, items=tuple(items), var=sym,
                     score=score)
            return sym
        return Sym(ip.fresh(f"arg{name}"), ty_of(items[0]))
    items = [ip.facts.resolve(i) if isinstance(i, Term) else i for i in items]
    items = [ip.debool(i) for i in items]
    if all(isinstance(i, Const) for i in items):
        fn = min if name == "min" else max
        try:
            return Const(fn(i.val for i in items))
        except TypeError:
            raise _exc("TypeError", (), node) from None
    best = items[0]
    for item in items[1:]:
        best = _pick(ip, name, best, item)
    return best


def _pick(ip, name, one, two):
    low, high = (one, two) if name == "min" else (two, one)
    for first, second, out in ((low, high, one), (high, low, two)):
        atom = ip.facts.lin_atom(first, second, False)
        if atom is True or (not isinstance(atom, bool) and atom[0] != "p"
                            and ip.facts.lin_implied(atom)):
            return out
    typ = INT if ty_of(one) == INT and ty_of(two) == INT else FLOAT
    if name == "max":  # max(low, min(high, x)) is min(high, max(low, x)) for low <= high
        for bound, inner in ((one, two), (two, one)):
            if isinstance(bound, Const) and isinstance(inner, App) and inner.op == "min":
                for top, rest in (inner.args, inner.args[::-1]):
                    if isinstance(top, Const) and bound.val <= top.val:
                        return _pick(ip, "min", top, _pick(ip, "max", bound, rest))
    pair = sorted((T(one), T(two)), key=repr)
    return App(name, pair, typ)


def quantified(ip, name, args, node):
    items = None
    it = args[0]
    if isinstance(it, Gen) and not isinstance(it.fn, Fn):
        # lazily, as any()/all() stop early
        gens = it.fn.generators
        if len(gens) == 1:
            saved = ip.frames
            ip.frames = saved + [it.bound]
            try:
                first = ip.ev(gens[0].iter)
                items = ip.seq_items(first, node)
                if items is not None and len(items) <= ip.config.unroll:
                    sub = ip.comp_frame()
                    ip.frames = ip.frames + [sub]
                    for item in items:
                        ip.assign(gens[0].target, item)
                        if not all(ip.truth(ip.ev(c), c) for c in gens[0].ifs):
                            continue
                        if ip.truth(ip.ev(it.fn.elt), it.fn.elt) == (name == "any"):
                            return Const(name == "any")
                    return Const(name != "any")
            finally:
                ip.frames = saved
        each = None
        saved = snapshot(ip)
        try:
            each, _ = ip.generic_element(it, ip.fresh("Q"), node)
        finally:
            restore(ip, saved)
        return Cmp(("p", name, App("each", (T(each),)), T(it)))
    items = ip.seq_items(it, node)
    if items is not None:
        for item in items:
            if ip.truth(item) == (name == "any"):
                return Const(name == "any")
        return Const(name != "any")
    return Cmp(("p", name, T(it), NONE_V))


def dc_fields(ip, val):
    cls = val if isinstance(val, Cls) else ip.class_of(val)
    return cls


def call_builtin(ip, name, args, kwargs, node):
    if name.startswith("?"):
        mod, _, attr = name[1:].rpartition(".")
        env = ip.mods.get(mod, {})
        if attr in env and not (isinstance(env[attr], Bi) and env[attr].name == name):
            return ip.call(env[attr], args, kwargs, node)
    if name.startswith("builtins."):
        name = name[9:]
    hook = ip.config.externals.get(name)
    if hook is not None:
        res = hook(ip, args, kwargs, node)
        if res is not NotImplemented:
            return res
    fn = BUILTINS.get(name)
    if fn is not None and not any(isinstance(a, tuple) for a in args):
        return fn(ip, args, kwargs, node)
    from .interp import exc_base
    if exc_base(name):
        return App("exc", (Const(name.split(".")[-1]),) + tuple(
            T(a) for a in args if not isinstance(a, tuple)), ANY)
    if name in PURE_EXT and PURE_EXT[name] is not None:
        op, typ = PURE_EXT[name]
        args = [ip.facts.resolve(a) if isinstance(a, Term) else a for a in args]
        if all(isinstance(a, Const) for a in args) and name.startswith("math."):
            try:
                return Const(getattr(math, name[5:])(*[a.val for a in args]))
            except (ValueError, TypeError, OverflowError):
                raise _exc("ValueError", (), node) from None
        if name == "html.escape":
            quote = args[1] if len(args) > 1 else kwargs.get("quote", TRUE)
            quoted = ip.truth(quote)
            if isinstance(args[0], Const):
                return Const(_html.escape(args[0].val, quoted))
            return App("html.escape" if quoted else "html.escape-noquote",
                       (T(args[0]),), STR)
        return App(op, tuple(T(a) for a in args), typ)
    if name == "str.maketrans":
        table = None
        if len(args) == 1 and isinstance(args[0], DCT) and not args[0].sym and all(
                isinstance(k, Const) and isinstance(v, Const)
                for k, v in args[0].items.items()):
            table = {k.val: v.val for k, v in args[0].items.items()}
        elif len(args) > 1 and all(isinstance(a, Const) for a in args):
            table = args
        if table is not None:
            try:
                made = str.maketrans(table) if isinstance(table, dict) else str.maketrans(
                    *[a.val for a in table])
            except (ValueError, TypeError) as exc:
                raise _exc(type(exc).__name__, (), node) from None
            return ip.new_dict({Const(k): Const(v) for k, v in made.items()}, node)
    if name.startswith("str.") and args:  # unbound str method
        return str_method(ip, args[0], name[4:], args[1:], kwargs, node)
    if name.startswith("list.") and args and isinstance(args[0], LST):
        return list_method(ip, args[0], name[5:], args[1:], kwargs, node)
    if name.startswith("dict.") and args and isinstance(args[0], DCT):
        return dict_method(ip, args[0], name[5:], args[1:], kwargs, node)
    base, _, meth = name.rpartition(".")
    if base == "os.environ":
        if meth in ("get",):
            return b_getenv(ip, args, kwargs, node)
        if meth == "__getitem__" and args:
            return env_item(ip, args[0], node)
    hook = ip.config.ext_methods.get(meth) if base else None
    if hook is not None:
        res = hook(ip, Bi(base), args, kwargs, node)
        if res is not NotImplemented:
            return res
    return ext_call(ip, name, None, args, kwargs, node, EXT_TYPES.get(name, ANY))


def call_method(ip, recv, name, args, kwargs, node):
    if isinstance(recv, Term):
        recv = ip.facts.resolve(recv)
    hook = ip.config.ext_methods.get(name)
    if hook is not None:
        res = hook(ip, recv, args, kwargs, node)
        if res is not NotImplemented:
            return res
    if isinstance(recv, Obj):
        kind = kind_of(recv)
        if kind == "StringIO":
            return stringio_method(ip, recv, name, args, kwargs, node)
        if kind == "Match":
            return known_match_method(ip, recv, name, args, kwargs, node)
        if kind == "Thread":
            return thread_method(ip, recv, name, args, kwargs, node)
        if kind == "ExitStack":
            return exitstack_method(ip, recv, name, args, kwargs, node)
        if recv.cls is not None:
            short = name[6:] if name.startswith("super.") else name
            if short == "__setattr__":
                ip.raw_setattr(recv, args[0].val if isinstance(args[0], Const) else "?",
                               args[1], node)
                return NONE_V
            if short in ("__init__", "__init_subclass__", "__post_init__"):
                return NONE_V
            if short == "__eq__":
                return ip.equals(recv, args[0], node)
            if short in ("__hash__", "__repr__", "__str__"):
                return App(short, (T(recv),), INT if short == "__hash__" else STR)
            if short == "__getattribute__":
                return ip.getattr(recv, args[0].val, node)
    if isinstance(recv, Const) and isinstance(recv.val, bytes):
        if name == "decode":
            try:
                return Const(recv.val.decode())
            except UnicodeDecodeError:
                raise _exc("UnicodeDecodeError", (), node) from None
    if isinstance(recv, LST):
        return list_method(ip, recv, name, args, kwargs, node)
    if isinstance(recv, DCT):
        return dict_method(ip, recv, name, args, dict(kwargs), node)
    if isinstance(recv, Tup):
        if name == "index":
            for i, item in enumerate(recv.items):
                if ip.truth(ip.equals(item, args[0], node)):
                    return Const(i)
            raise _exc("ValueError", (), node)
        if name == "count":
            return Const(sum(ip.truth(ip.equals(i, args[0], node)) for i in recv.items))
        if name == "__contains__":
            return ip.contains(recv, args[0], node)
        if recv.cls is not None and name in ("_replace", "_asdict"):
            config = {f[0]: item for f, item in zip(recv.cls.fields, recv.items)}
            if name == "_asdict":
                return ip.new_dict({Const(k): v for k, v in config.items()}, node)
            return ip.call(recv.cls, [], {**config, **kwargs}, node)
        raise _exc("AttributeError", (Const(name), recv), node)
    if isinstance(recv, (Gen, Lazy)):
        if name == "__next__":
            return Sym(ip.fresh("next"), ANY)
        return ext_call(ip, name, T(recv), args, kwargs, node)
    if isinstance(recv, (Const, Cat, Sym, App)):
        typ = ip.cur_type(recv)
        if typ == STR:
            return str_method(ip, recv, name, args, kwargs, node)
        if typ == PATTERN or (isinstance(recv, App) and recv.op == "re.compile"):
            return regex_call(ip, name, recv, args, kwargs, node)
        if MATCH in ty_parts(typ):
            if typ[0] == "union":
                if ip.truth(ip.identical(recv, NONE_V)):
                    raise _exc("AttributeError", (Const(name), recv), node)
            return match_method(ip, recv, name, args, kwargs, node)
        if typ == BYTES and name == "decode":
            return App("decode", (recv,) + tuple(T(a) for a in args), STR)
        if typ in (INT, FLOAT):
            if name in ("bit_length", "is_integer", "as_integer_ratio"):
                return App(name, (recv,), INT)
            if name not in dir(float) + dir(int):
                raise _exc("AttributeError", (Const(name), recv), node)
        if isinstance(recv, Const) and not isinstance(recv.val, (str, bytes)):
            raise _exc("AttributeError", (Const(name), recv), node)
    if isinstance(recv, Cls):
        if name == "__new__" or name == "__init_subclass__":
            return ip.new_obj(recv, node)
        if name == "fromkeys":
            return Sym(ip.fresh("fromkeys"), ANY)
        return ext_call(ip, name, T(recv), args, kwargs, node)
    return ext_call(ip, name, recv if isinstance(recv, Heap) else T(recv), args, kwargs,
                    node)


def thread_method(ip, obj, name, args, kwargs, node):
    ip.event("ext", node, name=f"Thread.{name}", recv=obj, args=tuple(args),
             kwargs=dict(kwargs))
    if name == "start":
        from .interp import Raised
        try:
            ip.call(obj.fields["target"], list(obj.fields["targs"]), {}, node)
        except Raised:
            pass
    return NONE_V if name in ("start", "join") else Sym(ip.fresh(f"Thread.{name}"), ANY)


def exitstack_method(ip, obj, name, args, kwargs, node):
    if name == "callback":
        obj.fields["todo"].append(("call", args[0], args[1:], dict(kwargs)))
        return args[0]
    if name == "close":
        run_exitstack(ip, obj, 0, node)
        return NONE_V
    from .interp import PathEnd
    raise PathEnd("limit", f"ExitStack.{name}")


def run_exitstack(ip, obj, keep, node):
    """Runs the callbacks of an ExitStack, the last first, except for the first `keep`."""

    todo = obj.fields["todo"]
    while len(todo) > keep:
        _, fn, args, kwargs = todo.pop()
        try:
            ip.call(fn, list(args), dict(kwargs), node)
        except BaseException:
            run_exitstack(ip, obj, keep, node)
            raise


# -- builtin table -----------------------------------------------------------------------


def b_len(ip, args, kwargs, node):
    val = args[0]
    typ = ip.cur_type(val) if isinstance(val, (Sym, App)) else None
    if typ is not None and typ[0] == "union" and NONE in typ[1]:
        if ip.truth(ip.identical(val, NONE_V)):
            raise _exc("TypeError", (), node)
    return ip.length(ip.facts.resolve(val) if isinstance(val, Term) else val)


def b_round(ip, args, kwargs, node):
    val = ip.facts.resolve(args[0]) if isinstance(args[0], Term) else args[0]
    digits = args[1] if len(args) > 1 else kwargs.get("ndigits")
    if isinstance(val, Const) and (digits is None or isinstance(digits, Const)):
        return Const(round(val.val) if digits is None else round(val.val, digits.val))
    if ty_of(val) == INT:
        return val
    if digits is None or (isinstance(digits, Const) and digits.val is None):
        return App("round", (T(val),), INT)
    return App("round", (T(val), T(digits)), FLOAT)


def b_abs(ip, args, kwargs, node):
    val = ip.facts.resolve(args[0]) if isinstance(args[0], Term) else args[0]
    if isinstance(val, Const):
        return Const(abs(val.val))
    lo, hi = ip.facts.interval(val)
    if lo >= 0:
        return val
    return App("abs", (T(val),), ty_of(val))


def b_sum(ip, args, kwargs, node):
    items = ip.seq_items(args[0], node)
    start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
    if items is None:
        return App("sum", (T(args[0]),), ANY)
    import ast
    total = start
    for item in items:
        total = ip.binop(ast.Add(), total, item, node)
    return total


def b_sorted(ip, args, kwargs, node):
    val = args[0]
    items = ip.seq_items(val, node)
    if items is not None:
        got = sort_items(ip, items, kwargs, node)
        if got is not None:
            return ip.new_list(got, node)
        out = ip.new_list(None, node)
        out.name, out.length = ip.fresh("sorted"), Const(len(items))
        out.elem = ty_of(items[0])
        return out
    src = val if isinstance(val, LST) else to_list(ip, val, node)
    out = ip.new_list(None, node, elem=src.elem)
    out.name = f"sorted({src.name}@{src.version})"
    out.length = src.length
    out.origin = ("sorted", src, kwargs.get("key"), kwargs.get("reverse"))
    return out


def b_isinstance(ip, args, kwargs, node):
    return isinstance_(ip, args[0], args[1], node)


def b_issubclass(ip, args, kwargs, node):
    one, two = args
    if isinstance(one, Cls) and isinstance(two, Cls):
        return Const(two in one.mro())
    return Cmp(("p", "issubclass", T(one), T(two)))


def b_callable(ip, args, kwargs, node):
    val = args[0]
    if isinstance(val, (Fn, Bound, BM, Cls, Partial, Bi, Wrapped)):
        return TRUE
    if isinstance(val, (Const, Cat, Tup, LST, DCT, EnumM)):
        return FALSE
    cls = ip.class_of(val)
    if cls is not None:
        return Const(cls.lookup("__call__") is not None)
    if ip.cur_type(val) == ("callable",):
        return TRUE
    return Cmp(("callable", T(val)))


def b_getattr(ip, args, kwargs, node):
    from .interp import Raised
    name = ip.facts.resolve(args[1]) if isinstance(args[1], Term) else args[1]
    if not isinstance(name, Const):
        return App("getattr", (T(args[0]), T(name)), ANY)
    try:
        return ip.getattr(args[0], name.val, node)
    except Raised as exc:
        if len(args) > 2 and exc.exc == "AttributeError":
            return args[2]
        raise


def b_hasattr(ip, args, kwargs, node):
    name = args[1]
    cls = ip.class_of(args[0])
    if isinstance(name, Const) and cls is not None:
        if cls.lookup(name.val) is not None or cls.annotation(name.val)[0] is not None:
            return TRUE
        if isinstance(args[0], Obj):
            return Const(name.val in args[0].fields)
        return FALSE
    return Cmp(("p", "hasattr", T(args[0]), T(name)))


def b_setattr(ip, args, kwargs, node):
    name = args[1]
    if isinstance(name, Const):
        ip.setattr(args[0], name.val, args[2], node)
    else:
        ip.event("setattr", node, obj=args[0], attr="?", value=args[2])
    return NONE_V


def b_rawsetattr(ip, args, kwargs, node):
    name = ip.facts.resolve(args[1])
    if isinstance(name, Const):
        ip.raw_setattr(args[0], name.val, args[2], node)
    else:
        ip.event("setattr", node, obj=args[0], attr="?", value=args[2])
    return NONE_V


def b_vars(ip, args, kwargs, node):
    if not args:
        return ext_call(ip, "vars", None, args, kwargs, node)
    return ip.getattr(args[0], "__dict__", node)


def b_type(ip, args, kwargs, node):
    cls = ip.class_of(args[0])
    if cls is not None:
        return cls
    typ = ip.cur_type(args[0])
    if typ[0] in ("str", "int", "float", "bool", "bytes", "list", "dict", "tuple"):
        return Bi(typ[0])
    if typ == NONE:
        return Bi("NoneType")
    return App("type", (T(args[0]),), ANY)


def b_str(ip, args, kwargs, node):
    if not args:
        return Const("")
    return str_of(ip, args[0], node)


def b_bool(ip, args, kwargs, node):
    if not args:
        return FALSE
    if isinstance(args[0], Cmp):
        return args[0]
    return Const(ip.truth(args[0]))


def b_list(ip, args, kwargs, node):
    return to_list(ip, args[0], node) if args else ip.new_list([], node)


def b_tuple(ip, args, kwargs, node):
    if not args:
        return Tup(())
    items = ip.seq_items(args[0], node)
    if items is not None:
        return Tup(items)
    if isinstance(args[0], (Sym, App)) and ty_of(args[0])[0] == "tuple":
        return args[0]
    lst = to_list(ip, args[0], node)
    if lst.items is not None:
        return Tup(lst.items)
    lst.kind = "tuple"
    return lst


def b_dict(ip, args, kwargs, node):
    out = ip.new_dict({}, node)
    for arg in args:
        ip.dict_update(out, arg, node)
    for key, val in kwargs.items():
        if key == "**":
            out.sym, out.name = True, ip.fresh("dict")
        else:
            out.items[Const(key)] = val
    return out


def b_set(ip, args, kwargs, node):
    return to_set(ip, args[0], node) if args else ip.new_dict({}, node, "set")


def b_lazy(kind):
    def make(ip, args, kwargs, node):
        args = list(args)
        if kind == "enumerate" and "start" in kwargs:
            args.append(kwargs["start"])
        if kind == "range":
            args = [ip.debool(ip.facts.resolve(a)) for a in args]
        return Lazy(kind, args)
    return make


def b_ord(ip, args, kwargs, node):
    val = ip.facts.resolve(args[0])
    if isinstance(val, Const) and isinstance(val.val, str) and len(val.val) == 1:
        return Const(ord(val.val))
    return App("ord", (T(val),), INT)


def b_chr(ip, args, kwargs, node):
    val = ip.facts.resolve(args[0])
    if isinstance(val, Const):
        return Const(chr(val.val))
    return App("chr", (T(val),), STR)


def b_next(ip, args, kwargs, node):
    it = args[0]
    if isinstance(it, Gen) and isinstance(it.fn, Fn):
        from .interp import GenBreak
        token = object()
        got = []

        def take(val):
            got.append(val)
            raise GenBreak(token)

        try:
            ip.run_gen(it, take)
        except GenBreak as brk:
            if brk.token is not token:
                raise
            return got[0]
        if len(args) > 1:
            return args[1]
        raise _exc("StopIteration", (), node)
    items = ip.seq_items(it, node)
    if items is not None:
        if items:
            return items[0]
        if len(args) > 1:
            return args[1]
        raise _exc("StopIteration", (), node)
    if len(args) > 1:
        if ip.choose(2):
            return args[1]
    saved = len(ip.loop_log)
    elem, _ = ip.generic_element(it, ip.fresh(f"N{getattr(node, 'lineno', 0)}"), node)
    return elem


def b_fields(ip, args, kwargs, node):
    cls = dc_fields(ip, args[0])
    if cls is None:
        return Sym(ip.fresh("fields"), ANY)
    out = []
    for name, ann, default, init in cls.fields:
        out.append(ext_object(ip, "Field", node, name=Const(name), init=Const(init),
                              type=Sym(f"type({name})"), default=Sym(f"default({name})")))
    return Tup(out)


def b_replace(ip, args, kwargs, node):
    cls = dc_fields(ip, args[0])
    if cls is None:
        return Sym(ip.fresh("replace"), ANY)
    config = {}
    star = kwargs.pop("**", None) if "**" in kwargs else None
    for name, ann, default, init in cls.fields:
        if init:
            config[name] = kwargs[name] if name in kwargs else ip.getattr(
                args[0], name, node)
    for key in kwargs:
        if key not in config:
            raise _exc("TypeError", (Const(key),), node)
    if star is not None:
        config["**"] = star
    return ip.call(cls, [], config, node)


def b_namedtuple(ip, args, kwargs, node):
    from .interp import Unsupported
    name, spec = (ip.facts.resolve(a) for a in args[:2])
    if isinstance(spec, Const) and isinstance(spec.val, str):
        names = [(n, None) for n in spec.val.replace(",", " ").split()]
    else:
        items = ip.seq_items(spec, node)
        pairs = [i.items[0] if isinstance(i, Tup) else i for i in items or ()]
        names = [(i.val, None) for i in pairs if isinstance(i, Const)]
        if items is None or len(names) != len(items):
            raise Unsupported("named tuple of unknown fields", node)
    if "defaults" in kwargs:
        raise Unsupported("defaults of a named tuple", node)
    frame = ip.frames[-1]
    cls = Cls(name.val, ast.ClassDef(name.val, [], [], [], []), frame.module)
    cls.named = True
    cls.fields = [(n, ann, None, True) for n, ann in names]
    return cls


def b_asdict(ip, args, kwargs, node):
    cls = dc_fields(ip, args[0])
    if cls is None:
        return Sym(ip.fresh("asdict"), ANY)
    return ip.new_dict({Const(n): ip.getattr(args[0], n, node)
                        for n, *_ in cls.fields}, node)


def b_partial(ip, args, kwargs, node):
    return Partial(args[0], args[1:], kwargs)


def b_getenv(ip, args, kwargs, node):
    val = env_value(ip, args[0])
    default = args[1] if len(args) > 1 else kwargs.get("default")
    if default is None or (isinstance(default, Const) and default.val is None):
        return val
    if isinstance(val, Const):
        return default if val.val is None else val
    if ip.decide(("isnone", val)):
        return default
    return val


def b_re(kind):
    def call(ip, args, kwargs, node):
        pattern = args[0]
        flags = kwargs.get("flags")
        if not (isinstance(pattern, App) and pattern.op == "re.compile"):
            more = tuple(args[2:]) if kind not in ("sub", "split") else ()
            if flags is not None:
                more, kwargs = (flags,), {k: v for k, v in kwargs.items() if k != "flags"}
            pattern = App("re.compile", (T(pattern), *map(T, more)), PATTERN)
            if more and kind not in ("sub", "split"):
                args = args[:2]
        return regex_call(ip, kind, pattern, args[1:], kwargs, node)
    return call


def b_compile(ip, args, kwargs, node):
    return App("re.compile", tuple(T(a) for a in args) + tuple(
        T(v) for v in kwargs.values()), PATTERN)


def b_hash(ip, val, node):
    key = ip.hash_key(val, node)
    if key is None and isinstance(val, (LST, DCT)):
        raise _exc("TypeError", (), node)
    return App("hash", (T(val) if key is None or key[0] in ("identity", "term")
                        else Sym(f"key{key!r}", ANY),), INT)


def b_hls(ip, args, kwargs, node):
    import colorsys
    if all(isinstance(a, Const) for a in args):
        return Tup(Const(v) for v in colorsys.hls_to_rgb(*[a.val for a in args]))
    args = tuple(T(a) for a in args)
    # channels lie in [0, 1] when lightness and saturation do
    out = []
    for i in range(3):
        term = App("hls_to_rgb_channel", args + (Const(i),), FLOAT)
        out.append(term)
    return Tup(out)


def b_to_hls(ip, args, kwargs, node):
    import colorsys
    if all(isinstance(a, Const) for a in args):
        return Tup(Const(v) for v in colorsys.rgb_to_hls(*[a.val for a in args]))
    args = tuple(T(a) for a in args)
    out = []
    ok = all(ip.facts.interval(a)[0] >= 0 and ip.facts.interval(a)[1] <= 1 for a in args)
    for i in range(3):
        term = App("rgb_to_hls_channel", args + (Const(i),), FLOAT)
        if ok:
            ip.facts.ranges[term] = (0.0, 1.0)
        out.append(term)
    return Tup(out)


def b_suppress(ip, args, kwargs, node):
    return App("ctx", (Const("suppress"),) + tuple(T(a) for a in args), ANY)


def b_nullcontext(ip, args, kwargs, node):
    return App("ctx", (Const("nullcontext"),) + tuple(T(a) for a in args), ANY)


def b_stringio(ip, args, kwargs, node):
    return ext_object(ip, "StringIO", node, content=args[0] if args else Const(""),
                      pos=Const(0))


def b_thread(ip, args, kwargs, node):
    ip.event("ext", node, name="threading.Thread", recv=None, args=tuple(args),
             kwargs=dict(kwargs))
    targs = ip.seq_items(kwargs.get("args", Tup(())), node) or []
    return ext_object(ip, "Thread", node,
                      target=kwargs.get("target", args[1] if len(args) > 1 else NONE_V),
                      targs=tuple(targs))


def b_reduce(ip, args, kwargs, node):
    items = ip.seq_items(args[1], node)
    if items is None:
        return Sym(ip.fresh("reduce"), ANY)
    items = list(items)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for item in items:
        acc = ip.call(args[0], [acc, item], {}, node)
    return acc


def b_copy(ip, args, kwargs, node):
    val = args[0]
    if isinstance(val, LST):
        return copy_list(ip, val, node)
    if isinstance(val, DCT):
        return dict_method(ip, val, "copy", [], {}, node)
    if isinstance(val, Obj):
        out = ip.new_obj(val.cls, node)
        out.fields = dict(val.fields)
        out.lazy = val.lazy
        out.args = val.args
        return out
    return val


def b_product(ip, args, kwargs, node):
    import itertools
    seqs = [ip.seq_items(a, node) for a in args]
    if any(s is None for s in seqs):
        return Lazy("product", args)
    repeat = kwargs.get("repeat", Const(1)).val
    return ip.new_list([mk_tuple(r) for r in itertools.product(*seqs, repeat=repeat)], node)


def b_islice(ip, args, kwargs, node):
    items = ip.seq_items(args[0], node)
    if items is not None and all(isinstance(a, Const) for a in args[1:]):
        import itertools
        return ip.new_list(list(itertools.islice(items, *[a.val for a in args[1:]])), node)
    return Sym(ip.fresh("islice"), ANY)


def b_id(ip, args, kwargs, node):
    return App("id", (T(args[0]),), INT)


def b_divmod(ip, args, kwargs, node):
    import ast
    return Tup((ip.binop(ast.FloorDiv(), args[0], args[1], node),
                ip.binop(ast.Mod(), args[0], args[1], node)))


def b_pow(ip, args, kwargs, node):
    import ast
    return ip.binop(ast.Pow(), args[0], args[1], node)


def b_op(opname, unary=False):
    def call(ip, args, kwargs, node):
        import ast
        return ip.binop(getattr(ast, opname)(), args[0], args[1], node)
    return call


def b_cmp(opname):
    def call(ip, args, kwargs, node):
        import ast
        return ip.compare(getattr(ast, opname)(), args[0], args[1], node)
    return call


def b_fromkeys(ip, args, kwargs, node):
    items = ip.seq_items(args[0], node)
    val = args[1] if len(args) > 1 else NONE_V
    if items is None:
        out = ip.new_dict({}, node)
        out.sym, out.name = True, ip.fresh("fromkeys")
        return out
    return ip.new_dict({ip.hkey(i): val for i in items}, node)


def b_cast(ip, args, kwargs, node):
    return args[1]


def b_format(ip, args, kwargs, node):
    return format_(ip, args[0], args[1] if len(args) > 1 else Const(""), node)


def b_itemgetter(ip, args, kwargs, node):
    return Partial(Bi("#getitem"), [Tup(args)], {})


def b_attrgetter(ip, args, kwargs, node):
    return Partial(Bi("#getattr"), [Tup(args)], {})


def b_do_getitem(ip, args, kwargs, node):
    keys, obj = args
    out = [ip.getitem(obj, k, node) for k in keys.items]
    return out[0] if len(out) == 1 else mk_tuple(out)


def b_do_getattr(ip, args, kwargs, node):
    keys, obj = args
    out = []
    for k in keys.items:
        val = obj
        for part in k.val.split("."):
            val = ip.getattr(val, part, node)
        out.append(val)
    return out[0] if len(out) == 1 else mk_tuple(out)


def b_exitstack(ip, args, kwargs, node):
    obj = ext_object(ip, "ExitStack", node)
    obj.fields["todo"] = []
    return obj


def b_print(ip, args, kwargs, node):
    """print() to a stream that is named is a write, and a flush if asked for."""

    target = kwargs.get("file", NONE_V)
    if target == NONE_V or any(isinstance(a, tuple) for a in args):
        ip.event("ext", node, name="print", recv=Bi("sys.stdout"), args=tuple(args),
                 kwargs=kwargs, ret=NONE_V)
        return NONE_V
    parts = []
    for num, arg in enumerate(args):
        parts += ([kwargs.get("sep", Const(" "))] if num else []) + [str_of(ip, arg, node)]
    parts.append(kwargs.get("end", Const("\n")))
    ip.call(ip.getattr(target, "write", node), [ip.concat(parts)], {}, node)
    if ip.truth(kwargs.get("flush", FALSE), node):
        ip.call(ip.getattr(target, "flush", node), [], {}, node)
    return NONE_V


def b_super_noop(ip, args, kwargs, node):
    return NONE_V


BUILTINS = {
    "print": b_print, "len": b_len, "int": lambda ip, a, k, n: number(ip, "int", a, k, n),
    "float": lambda ip, a, k, n: number(ip, "float", a, k, n),
    "round": b_round, "abs": b_abs, "sum": b_sum, "sorted": b_sorted,
    "min": lambda ip, a, k, n: extremum(ip, "min", a, k, n),
    "max": lambda ip, a, k, n: extremum(ip, "max", a, k, n),
    "any": lambda ip, a, k, n: quantified(ip, "any", a, n),
    "all": lambda ip, a, k, n: quantified(ip, "all", a, n),
    "isinstance": b_isinstance, "issubclass": b_issubclass, "callable": b_callable,
    "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "type": b_type,
    "vars": b_vars,
    "object.__setattr__": b_rawsetattr, "str": b_str, "bool": b_bool, "list": b_list,
    "tuple": b_tuple, "dict": b_dict, "set": b_set, "frozenset": b_set,
    "enumerate": b_lazy("enumerate"), "zip": b_lazy("zip"), "map": b_lazy("map"),
    "filter": b_lazy("filter"), "reversed": b_lazy("reversed"), "range": b_lazy("range"),
    "itertools.chain": b_lazy("chain"), "iter": lambda ip, a, k, n: a[0],
    "next": b_next, "ord": b_ord, "chr": b_chr, "id": b_id, "divmod": b_divmod,
    "pow": b_pow, "repr": lambda ip, a, k, n: repr_of(ip, a[0], n),
    "format": b_format,
    "hash": lambda ip, a, k, n: b_hash(ip, a[0], n),
    "slice": lambda ip, a, k, n: Slice(*((a + [NONE_V] * 3)[:3] if len(a) > 1
                                         else [NONE_V, a[0], NONE_V])),
    "collections.namedtuple": b_namedtuple, "typing.NamedTuple": b_namedtuple,
    "dataclasses.fields": b_fields, "dataclasses.replace": b_replace,
    "dataclasses.asdict": b_asdict, "functools.partial": b_partial,
    "functools.reduce": b_reduce, "os.getenv": b_getenv, "os.environ.get": b_getenv,
    "re.compile": b_compile, "re.match": b_re("match"), "re.search": b_re("search"),
    "re.fullmatch": b_re("fullmatch"), "re.finditer": b_re("finditer"),
    "re.findall": b_re("findall"), "re.sub": b_re("sub"), "re.split": b_re("split"),
    "colorsys.hls_to_rgb": b_hls, "colorsys.rgb_to_hls": b_to_hls,
    "contextlib.suppress": b_suppress, "contextlib.nullcontext": b_nullcontext,
    "io.StringIO": b_stringio, "threading.Thread": b_thread, "copy.copy": b_copy,
    "copy.deepcopy": b_copy, "itertools.product": b_product, "itertools.islice": b_islice,
    "operator.add": b_op("Add"), "operator.sub": b_op("Sub"), "operator.mul": b_op("Mult"),
    "operator.or_": b_op("BitOr"), "operator.itemgetter": b_itemgetter,
    "operator.attrgetter": b_attrgetter, "#getitem": b_do_getitem,
    "#getattr": b_do_getattr, "operator.eq": b_cmp("Eq"),
    "dict.fromkeys": b_fromkeys, "typing.cast": b_cast, "cast": b_cast,
    "collections.deque": b_list, "itertools.chain.from_iterable":
        lambda ip, a, k, n: (Lazy("chain", ip.seq_items(a[0], n))
                             if ip.seq_items(a[0], n) is not None
                             else Sym(ip.fresh("chain"), ANY)),
    "contextlib.ExitStack": b_exitstack,
    "typing.TypeVar": lambda ip, a, k, n: Bi("typing.TypeVar"),
    "TypeVar": lambda ip, a, k, n: Bi("typing.TypeVar"),
    "object": lambda ip, a, k, n: ip.new_obj(None, n),
}
