"""Helpers shared by the checks."""

from __future__ import annotations

import os
import re
import sys

from absint.repo import AnalysisBroken
from absint import driver
from absint.interp import Raised, exc_name
from absint.models import kind_of
from absint.terms import *  # noqa: F401,F403
from absint.terms import (App, Bi, Cat, Const, Lin, Obj, Sym, Term, Tup)

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def float_stub(name):
    def stub(ip, args, kwargs, node):
        return App(name, tuple(a if isinstance(a, Term) else Sym(repr(a)) for a in args),
                   FLOAT)  # noqa: F405
    return stub


# numeric helpers whose value no check but the colour ones looks at
# what code that runs may raise: one of every family of builtin exceptions
FAULTS = ("ValueError", "KeyboardInterrupt", "SystemExit", "TimeoutError", "Exception",
          "BaseException", "OSError", "InterruptedError", "BlockingIOError", "BrokenPipeError",
          "EOFError", "RuntimeError", "RecursionError", "NotImplementedError", "TypeError",
          "AttributeError", "NameError", "KeyError", "IndexError", "ZeroDivisionError",
          "OverflowError", "AssertionError", "ImportError", "MemoryError", "BufferError",
          "UnicodeError", "UserWarning", "StopAsyncIteration")

NUMERIC = {n: float_stub(n) for n in ("calculate_luminance", "calculate_brightness")}


def receiver(ev):
    """Identity of the object an external call is made on."""

    return ev.recv


def same(one, two):
    return one is two or (isinstance(one, Term) and isinstance(two, Term) and one == two)


def text_parts(val):
    """Flattens a string value to its pieces."""

    if isinstance(val, Cat):
        out = []
        for part in val.parts:
            out += text_parts(part)
        return out
    return [val]


def where(path_or_ev):
    return getattr(path_or_ev, "where", "")


def raised_name(path):
    return exc_name(path.exc.exc) if path.exc is not None else None


def symbolic_screen(machine, name="screen", cell_ty=None):
    """An arbitrary screen satisfying the matrix invariant (height rows of width cells)."""

    screen = driver.symbolic(machine, name, "Screen")
    width = Sym(f"{name}.width", INT, lo=0)  # noqa: F405
    height = Sym(f"{name}.height", INT, lo=0)  # noqa: F405
    screen.fields["width"], screen.fields["height"] = width, height
    cells = machine.getattr(screen, "_cells", None)
    if not isinstance(cells, LST) or cells.elem[0] != "list":  # noqa: F405
        color = ("union", (("cls", "Color"), NONE))  # noqa: F405
        cells = machine.sym_list(f"{name}._cells", elem=(
            "list", ("tuple", (STR, color, color))))  # noqa: F405
        screen.fields["_cells"] = cells
    cells.length = height
    cells.row_len = width
    screen.fields["_cells"] = cells
    return screen


def matrix_ok(machine, screen):
    """True/None: the matrix invariant of a screen is known to hold."""

    cells = screen.fields.get("_cells")
    width, height = screen.fields.get("width"), screen.fields.get("height")
    if not isinstance(cells, LST):  # noqa: F405
        return None
    rows = machine.facts.eq_implied(machine.length(cells), height)
    row = cells.row_len
    if row is None and isinstance(cells.proto, LST):  # noqa: F405
        row = machine.length(cells.proto)
    if cells.items is not None and not cells.items:
        return rows
    cols = None if row is None else machine.facts.eq_implied(row, width)
    if rows is False or cols is False:
        return False
    return True if rows is True and cols is True else None


def ansi_stub(ip, args, kwargs, node):
    return App("ansi", (as_term(args[0]),), STR)  # noqa: F405


def as_term(val):
    from absint.models import T
    return T(val)


def characters_stub(ip, args, kwargs, node):
    """get_characters: one styled string per character of the text, shared if it is cached."""

    span = args[0]
    text = ip.getattr(span, "text", node)
    plain = kwargs.get("exclude_color", args[1] if len(args) > 1 else FALSE)  # noqa: F405
    seq = kwargs.get("always_include_sequence",
                     args[2] if len(args) > 2 else FALSE)  # noqa: F405
    lst = ip.sym_list(f"characters({as_term(span)!r},{plain!r},{seq!r})",
                      length=ip.length(text), elem=STR)  # noqa: F405
    member = ip.classes["Span"].lookup("get_characters")
    if any(d.split(".")[-1] in ("lru_cache", "cache") for d in getattr(member, "decorators", ())):
        lst.shared = "get_characters"
    ip.notes.append(("chars", lst.name, span, plain, seq))
    return lst


def blend_stub(ip, args, kwargs, node):
    return App("blend", tuple(as_term(a) for a in args) + tuple(
        as_term(v) for v in kwargs.values()), ("cls", "Color"))


# -- text ----------------------------------------------------------------------------------


class Holes:
    """A string value as plain text in which unknown parts are single placeholders."""

    def __init__(self, vals):
        self.terms = []
        self.text = ""
        for val in vals if isinstance(vals, (list, tuple)) else [vals]:
            for part in text_parts(val):
                if isinstance(part, Const) and isinstance(part.val, str):
                    self.text += part.val
                else:
                    self.terms.append(part)
                    self.text += chr(0xE000 + len(self.terms) - 1)

    def back(self, text):
        """The value a piece of `text` stands for."""

        parts, buf = [], ""
        for char in text:
            if 0xE000 <= ord(char) < 0xE000 + len(self.terms):
                if buf:
                    parts.append(Const(buf))
                    buf = ""
                parts.append(self.terms[ord(char) - 0xE000])
            else:
                buf += char
        if buf or not parts:
            parts.append(Const(buf))
        return parts[0] if len(parts) == 1 else Cat(tuple(parts))


def color_result_stub(name):
    def stub(ip, args, kwargs, node):
        return ip.make_sym(ip.fresh(name), ("cls", "Color"))
    return stub


def fresh_terminal(report, stubs=(), **config):
    """Terminal objects as their constructor leaves them (one per path)."""

    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              "Color.ansi": ansi_stub, **dict(stubs)},
                       skip_post_init=("Color", "Span"), **config)
    driver.find(ip, "slate.terminal", "Terminal")
    results = driver.run(ip, """
        from slate.terminal import Terminal
        def main(stream):
            return Terminal(stream)
        """, lambda machine: [STREAM])
    report.saw(ip, results)
    return ip, [r for r in results if r.status == "return"]


STREAM = Sym("stream", ("ext", "TextIO"))


def stream_writes(path, stream=STREAM):
    """(text, event) of everything written to a stream on a path."""

    for ev in path.trace:
        if ev.kind == "ext" and ev.name in ("write", "writelines") and same(ev.recv, stream):
            yield ev.args[0], ev


class State:
    """Abstract value of the fields of one object between two operations."""

    def __init__(self, fields):
        self.fields = fields  # name -> ("const", Const) | ("str", emptiness) | ("any", ...)

    @property
    def key(self):
        return tuple(sorted((k, repr(v)) for k, v in self.fields.items()))

    @classmethod
    def of(cls, path, obj, names):
        out = {}
        for name in names:
            val = obj.fields.get(name)
            if val is None:
                continue
            out[name] = cls.abstract(path, val)
        return cls(out)

    @classmethod
    def abstract(cls, path, val):
        val = path.facts.resolve(val) if isinstance(val, Term) else val
        if isinstance(val, Const):
            return ("const", val)
        if isinstance(val, LST) and val.items is not None:
            return ("list", [cls.abstract(path, i) for i in val.items])
        if isinstance(val, Tup):
            return ("tuple", [cls.abstract(path, i) for i in val.items])
        if isinstance(val, DCT) and not val.sym and not val.items:
            return ("dict",)
        if isinstance(val, Cmp):
            known = path.facts.implied(val.atom)
            if known is not None:
                return ("const", Const(known == val.pol))
            return ("bool",)
        if isinstance(val, Term):
            typ = ty_of(val)
            if typ == STR:
                return ("str", path.facts.implied(("truthy", val)))
            return ("any", typ)
        return ("opaque", type(val).__name__)

    def build(self, machine, obj):
        for name, val in self.fields.items():
            built = self.make(machine, name, val)
            if built is not None:
                obj.fields[name] = built

    @classmethod
    def make(cls, machine, name, val):
        if val[0] == "const":
            return val[1]
        if val[0] == "str":
            sym = Sym(f"old.{name}", STR)
            if val[1] is not None:
                machine.facts.assume(("truthy", sym), val[1])
            return sym
        if val[0] == "bool":
            return Sym(f"old.{name}", BOOL)
        if val[0] == "any":
            return machine.make_sym(f"old.{name}", val[1])
        if val[0] == "list":
            return machine.new_list([cls.make(machine, f"{name}{i}", v)
                                     for i, v in enumerate(val[1])])
        if val[0] == "tuple":
            return Tup([cls.make(machine, f"{name}{i}", v) for i, v in enumerate(val[1])])
        if val[0] == "dict":
            return machine.new_dict()
        return None


def attempt(report, ip, what, where, source, args):
    """Explores a driver; too many paths leave that obligation open instead of ending the check.

    Every further blow-up of the same obligation is given up on at once."""

    lost = report.__dict__.setdefault("lost", {})
    if lost.get(what, 0) > 2:
        report.undecided(what, where, "given up on: too many paths before")
        return []
    try:
        results = driver.run(ip, source, args)
    except AnalysisBroken as exc:
        if "paths" not in str(exc) and "time" not in str(exc):
            raise
        lost[what] = lost.get(what, 0) + 1
        report.undecided(what, where, str(exc))
        return []
    report.saw(ip, results)
    return results
