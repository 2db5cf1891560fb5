"""Programs of which everything is known, propagated as constants; and what a terminal shows."""

from __future__ import annotations

import re

from .svglab import constant_interp
from .common import attempt, driver, raised_name, STREAM
from .common import *  # noqa: F403


class Unknown:
    def __repr__(self):
        return "unknown"


UNKNOWN = Unknown()


def plain(val):
    """A known value as a Python one; UNKNOWN inside where it is not."""

    if isinstance(val, Const):
        return val.val
    if isinstance(val, (Tup, LST)):
        if val.items is None:
            return UNKNOWN
        return tuple(plain(i) for i in val.items)
    if isinstance(val, DCT) and not val.sym:
        return {k.val if isinstance(k, Const) else k: plain(v) for k, v in val.items.items()}
    if isinstance(val, EnumM):
        return val.value.val if isinstance(val.value, Const) else UNKNOWN
    if isinstance(val, Obj) and val.cls is not None and val.cls.name == "Color":
        return tuple(plain(val.fields.get(f)) for f in ("rgb", "is_background", "alpha"))
    return UNKNOWN


def has_unknown(val):
    if isinstance(val, dict):
        return any(map(has_unknown, val.values()))
    return val is UNKNOWN or isinstance(val, tuple) and any(map(has_unknown, val))


def outcome(report, ip, what, where_, source):
    """What a program gives: a value, ("raised", name) or UNKNOWN."""

    found = []
    for path in attempt(report, ip, what, where_, source, [STREAM]):
        if path.status == "raise":
            found.append(("raised", raised_name(path)))
        elif path.status == "return":
            found.append(plain(path.value))
        else:
            found.append(UNKNOWN)
    if len(found) != 1 or has_unknown(found[0]):
        return UNKNOWN
    return found[0]


def table(report, ip, head, rows):
    """Judge expressions against their values: (what, where, expression, value or predicate)."""

    for what, where_, expr, want in rows:
        got = outcome(report, ip, what, where_, head + f"""
    def main(stream):
        return {expr}
""")
        good = None if got is UNKNOWN else bool(want(got)) if callable(want) else got == want
        report.judge(good, what, where_, f"{got!r} for {expr}"
                     + ("" if callable(want) else f" instead of {want!r}"))
    report.count("known programs", len(rows))


# -- a terminal ----------------------------------------------------------------------------

TOKEN = re.compile(r"\x1b\[([\d;.]*)([A-Za-z])|\x1b\](.*?)(?:\x1b\\|\a)|(.)", re.S)


class Sheet:
    """What is shown where, after a terminal got some text: (column, row) -> (char, codes)."""

    def __init__(self):
        self.cells, self.prints, self.strange = {}, [], []
        self.moved = []
        self.at = None
        self.codes = ()

    def feed(self, text):
        for mtch in TOKEN.finditer(text):
            body, kind, _, char = mtch.groups()
            if kind == "m":
                for code in split_codes(body):
                    self.codes = () if code in ("", "0") else self.codes + (code,)
            elif kind == "H":
                row, _, col = body.partition(";")
                self.at = (int(col or 1), int(row or 1))
                self.moved.append(self.at)
            elif kind is not None or char is None or char == "\x1b":
                self.strange.append(mtch[0])
            elif char == "\n":
                self.strange.append(char)
            else:
                if self.at is not None:
                    self.cells[self.at] = (char, frozenset(self.codes))
                    self.prints.append((self.at, char))
                    self.at = (self.at[0] + 1, self.at[1])
                else:
                    self.strange.append(char)
        return self


def split_codes(body):
    """The codes of a style sequence, colors whole."""

    parts, out = body.split(";"), []
    while parts:
        size = 1
        if parts[0] in ("38", "48") and len(parts) > 1:
            size = {"2": 5, "5": 3}.get(parts[1], 1)
        out.append(";".join(parts[:size]))
        del parts[:size]
    return out
