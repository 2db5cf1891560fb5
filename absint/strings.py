"""Reasoning about strings put together from known and partly known pieces."""

from __future__ import annotations

import re

from .terms import App, Cat, Const, INT, NONE_V, STR, Sym, ty_of

DIGITS = frozenset("0123456789")
HEX = frozenset("0123456789abcdefABCDEF")


class Shape:
    """What is known of a piece: its alphabet, its length and the characters it surely has."""

    __slots__ = ("chars", "lo", "hi", "has")

    def __init__(self, chars=None, lo=0, hi=None, has=frozenset()):
        self.chars, self.lo, self.hi, self.has = chars, lo, hi, has


UNKNOWN = Shape()


def pieces(val):
    return list(val.parts) if isinstance(val, Cat) else [val]


def structured(val):
    """Is anything but the bare fact that it is a string known?"""

    return isinstance(val, Cat) or (isinstance(val, Sym) and isinstance(val.meta, Shape)) \
        or (isinstance(val, App) and val.op in ("str", "fmt", "group", "str.slice")) \
        or (isinstance(val, App) and val.op == "item" and ty_of(val.args[0]) == STR)


def shape(piece, facts):
    if isinstance(piece, Const):
        if isinstance(piece.val, str):
            size = len(piece.val)
            return Shape(frozenset(piece.val), size, size, frozenset(piece.val))
        return UNKNOWN
    if isinstance(piece, Sym):
        if isinstance(piece.meta, Shape):
            meta = piece.meta
            if meta.chars is not None:
                for name, test in (("isdigit", str.isdigit), ("isdecimal", str.isdecimal)):
                    if facts.implied(("p", name, piece, NONE_V)) is True:
                        return Shape(frozenset(c for c in meta.chars if test(c)),
                                     max(meta.lo, 1), meta.hi, meta.has)
            return meta
        return UNKNOWN
    if isinstance(piece, App):
        if piece.op == "str" and ty_of(piece.args[0]) == INT:
            lo, hi = facts.interval(piece.args[0])
            chars = DIGITS if lo >= 0 else DIGITS | {"-"}
            most = None
            if abs(lo) != float("inf") and abs(hi) != float("inf"):
                most = max(len(str(int(lo))), len(str(int(hi))))
            return Shape(chars, 1, most)
        if piece.op == "fmt" and isinstance(piece.args[1], Const):
            spec = piece.args[1].val
            lo, hi = facts.interval(piece.args[0])
            if spec in ("02x", "02X") and lo >= 0 and hi <= 255:
                return Shape(frozenset("0123456789" + ("abcdef" if spec[-1] == "x"
                                                       else "ABCDEF")), 2, 2)
            if spec in ("x", "X") and lo >= 0:
                return Shape(HEX, 1, None)
            if spec in ("d", ".0f") and lo >= 0:
                return Shape(DIGITS, 1, None)
        if piece.op == "str.slice":
            base = shape(piece.args[0], facts)
            low, high = piece.args[1], piece.args[2]
            if base.lo == base.hi and base.hi is not None and isinstance(low, Const) \
                    and isinstance(high, Const) and len(piece.args) == 3:
                size = len(range(base.hi)[low.val:high.val])
                return Shape(base.chars, size, size)
            return Shape(base.chars)
        if piece.op == "item" and ty_of(piece.args[0]) == STR:
            chars = set()
            for part in pieces(piece.args[0]):
                more = shape(part, facts).chars
                if more is None:
                    return Shape(None, 1, 1)
                chars |= more
            return Shape(frozenset(chars), 1, 1)
    return UNKNOWN


def characters(val, facts):
    """The characters of a text whose pieces all have a known length, or None."""

    out = []
    for piece in pieces(val):
        if isinstance(piece, Const):
            out += [Const(c) for c in piece.val]
            continue
        info = shape(piece, facts)
        if info.hi is None or info.lo != info.hi:
            return None
        if info.hi == 1:
            out.append(piece)
        else:
            out += [App("item", (piece, Const(i)), STR) for i in range(info.hi)]
    return out


def pattern(val, facts):
    """A regular expression every possible value of `val` matches."""

    out = ""
    for piece in pieces(val):
        if isinstance(piece, Const):
            out += re.escape(str(piece.val))
            continue
        info = shape(piece, facts)
        chars = "[\\s\\S]" if info.chars is None else "[" + "".join(
            re.escape(c) for c in sorted(info.chars)) + "]"
        if info.chars is not None and not info.chars:
            continue
        out += chars + "{%d,%s}" % (info.lo, "" if info.hi is None else info.hi)
    return out


def may_equal(val, text, facts):
    if not re.fullmatch(pattern(val, facts), text):
        return False
    for piece in pieces(val):
        if not shape(piece, facts).has <= set(text):
            return False
    return True


def solve(val, text, facts):
    """[(piece, text)] when the value equals the text exactly if each piece does, False when
    it cannot, None when that is not known."""

    parts = pieces(val)
    if not may_equal(val, text, facts):
        return False
    regex = ""
    for pos, part in enumerate(parts):
        if isinstance(part, Const):
            regex += re.escape(part.val)
            continue
        info = shape(part, facts)
        if info.chars is None:
            if len(parts) - sum(isinstance(p, Const) for p in parts) > 1:
                return None
            regex += "([\\s\\S]*)"
            continue
        if info.lo != info.hi and pos + 1 < len(parts):
            follow = parts[pos + 1]
            if not isinstance(follow, Const) or follow.val[0] in info.chars:
                if sum(not isinstance(p, Const) for p in parts) > 1:
                    return None
        regex += "([" + "".join(re.escape(c) for c in sorted(info.chars)) + "]{%d,%s})" % (
            info.lo, "" if info.hi is None else info.hi)
    got = re.fullmatch(regex, text)
    if got is None:
        return False
    return list(zip([p for p in parts if not isinstance(p, Const)], got.groups()))


def contains(val, sub, facts):
    """True/False/None: the literal occurs in the value."""

    parts = pieces(val)
    if sub == "":
        return True
    for part in parts:
        if isinstance(part, Const) and isinstance(part.val, str) and sub in part.val:
            return True
        if len(sub) == 1 and sub in shape(part, facts).has:
            return True
    for char in sub:
        if all((c := shape(p, facts).chars) is not None and char not in c for p in parts):
            return False
    return None


def startswith(val, pre, facts):
    rest = pre
    for part in pieces(val):
        if not rest:
            return True
        if isinstance(part, Const):
            if part.val.startswith(rest):
                return True
            if not rest.startswith(part.val):
                return False
            rest = rest[len(part.val):]
            continue
        info = shape(part, facts)
        if info.chars is not None and info.lo >= 1 and rest[0] not in info.chars:
            return False
        return None
    return not rest


def endswith(val, suf, facts):
    rest = suf
    for part in reversed(pieces(val)):
        if not rest:
            return True
        if isinstance(part, Const):
            if part.val.endswith(rest):
                return True
            if not rest.endswith(part.val):
                return False
            rest = rest[:len(rest) - len(part.val)]
            continue
        info = shape(part, facts)
        if info.chars is not None and info.lo >= 1 and rest[-1] not in info.chars:
            return False
        return None
    return not rest


def split(val, sep, limit, right, facts):
    """The pieces (lists of parts) between separators, or None where that is not known."""

    chunks, cur = [], []
    for part in pieces(val):
        if isinstance(part, Const) and isinstance(part.val, str):
            found = part.val.split(sep)
            cur.append(Const(found[0]))
            for more in found[1:]:
                chunks.append(cur)
                cur = [Const(more)]
            continue
        info = shape(part, facts)
        if info.chars is None or info.chars & set(sep):
            return None
        if len(sep) > 1 and info.lo < 1:
            return None
        cur.append(part)
    chunks.append(cur)
    if limit is not None and limit >= 0 and len(chunks) > limit + 1:
        if right:
            head, tail = chunks[:len(chunks) - limit], chunks[len(chunks) - limit:]
            chunks = [_glue(head, sep)] + tail
        else:
            chunks = chunks[:limit] + [_glue(chunks[limit:], sep)]
    return chunks


def _glue(chunks, sep):
    out = list(chunks[0])
    for chunk in chunks[1:]:
        out.append(Const(sep))
        out += chunk
    return out


def size(val, facts):
    """(least, most or None) length."""

    low, high = 0, 0
    for part in pieces(val):
        info = shape(part, facts)
        low += info.lo
        high = None if high is None or info.hi is None else high + info.hi
    return low, high


def cut(val, lo, hi, facts):
    """Parts of val[lo:hi] for constant bounds, or None where the cuts are not known."""

    parts = pieces(val)
    least, most = size(val, facts)
    if most == least:
        start, stop, _ = slice(lo, hi).indices(least)
        return _between(parts, start, max(stop, start), facts)
    lo = lo or 0
    if lo < 0 or (hi is not None and hi >= 0 and lo < 0):
        # counted from the end only
        if hi is None or hi < 0:
            back = _backwards(parts, -lo, facts)
            if back is None or hi is None:
                return back
            from_end = _backwards_drop(back, -hi, facts)
            return from_end
        return None
    front = _drop(parts, lo, facts)
    if front is None:
        return None
    if hi is None:
        return front
    if hi < 0:
        if least < lo - hi:
            return None
        return _backwards_drop(front, -hi, facts)
    return _take(front, max(hi - lo, 0), facts)


def _exact(part, facts):
    info = shape(part, facts)
    return info.lo if info.lo == info.hi else None


def _sub(part, lo, hi):
    if isinstance(part, Const):
        return Const(part.val[lo:hi])
    if isinstance(part, App) and part.op == "str.slice" and isinstance(
            part.args[1], Const) and (part.args[1].val or 0) >= 0:
        base = part.args[1].val or 0
        return App("str.slice", (part.args[0], Const(base + lo), Const(base + hi)), STR)
    return App("str.slice", (part, Const(lo), Const(hi)), STR)


def _between(parts, start, stop, facts):
    front = _drop(parts, start, facts)
    return None if front is None else _take(front, stop - start, facts)


def _drop(parts, count, facts):
    parts = list(parts)
    while count and parts:
        length = _exact(parts[0], facts)
        if length is None:
            return None
        if length <= count:
            count -= length
            parts.pop(0)
        else:
            parts[0] = _sub(parts[0], count, length)
            count = 0
    return parts


def _take(parts, count, facts):
    out = []
    for part in parts:
        if not count:
            break
        length = _exact(part, facts)
        if length is None:
            return None
        if length <= count:
            out.append(part)
            count -= length
        else:
            out.append(_sub(part, 0, count))
            count = 0
    return out


def _backwards(parts, count, facts):
    out = []
    for part in reversed(parts):
        if not count:
            break
        length = _exact(part, facts)
        if length is None:
            return None
        if length <= count:
            out.insert(0, part)
            count -= length
        else:
            out.insert(0, _sub(part, length - count, length))
            count = 0
    return out


def _backwards_drop(parts, count, facts):
    parts = list(parts)
    while count and parts:
        length = _exact(parts[-1], facts)
        if length is None:
            return None
        if length <= count:
            count -= length
            parts.pop()
        else:
            parts[-1] = _sub(parts[-1], 0, length - count)
            count = 0
    return parts


def strip(val, chars, left, right, facts):
    parts = pieces(val)
    for side in ([0] if left else []) + ([-1] if right else []):
        kept = []  # possibly empty pieces that hold none of the characters
        while parts:
            part = parts[side]
            if isinstance(part, Const):
                new = part.val.lstrip(chars) if side == 0 else part.val.rstrip(chars)
                if new == part.val and new:
                    break
                if kept:
                    return None
                if new:
                    parts[side] = Const(new)
                    break
                parts.pop(side)
                continue
            info = shape(part, facts)
            if info.chars is None or info.chars & set(chars):
                return None
            if info.lo >= 1:
                break
            kept.append(parts.pop(side))
        if side == 0:
            parts = kept + parts
        else:
            parts = parts + kept[::-1]
    return parts


def predicate(val, name, facts):
    """isdigit and its like, on what is known of the characters."""

    parts = pieces(val)
    low, _ = size(val, facts)
    known = [shape(p, facts).chars for p in parts]
    test = {"isdigit": str.isdigit, "isdecimal": str.isdecimal, "isnumeric": str.isnumeric,
            "isalnum": str.isalnum, "isascii": str.isascii}.get(name)
    if test is None:
        return None
    if low >= 1 and all(c is not None and all(test(x) for x in c) for c in known):
        return True
    for part in parts:
        if any(not test(x) for x in shape(part, facts).has):
            return False
    return None


def case(val, name, facts):
    """Parts of val.lower()/upper(), or None."""

    out = []
    for part in pieces(val):
        if isinstance(part, Const):
            out.append(Const(getattr(part.val, name)()))
            continue
        if isinstance(part, App) and part.op == "fmt" and part.args[1] in (
                Const("02x"), Const("02X")):
            out.append(App("fmt", (part.args[0], Const("02x" if name == "lower" else "02X")),
                           STR))
            continue
        info = shape(part, facts)
        if info.chars is None or any(getattr(c, name)() != c for c in info.chars):
            return None
        out.append(part)
    return out
