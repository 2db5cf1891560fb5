"""Shared explorations of the Screen class."""

from __future__ import annotations

from .common import *  # noqa: F403
from absint.interp import Raised  # noqa: F401

SCREEN_STUBS = {**NUMERIC, "Color.ansi": ansi_stub, "Color.blend": blend_stub,
                "Span.get_characters": characters_stub}


def color_or_none(machine, name):
    return driver.symbolic(machine, name, "Color | None")


def screen_interp(**config):
    config = {"max_paths": 8000, "check_partial": True, **config}
    stubs = {**SCREEN_STUBS, **config.pop("stubs", {})}
    return driver.interp(stubs=stubs, skip_post_init=("Color", "Span"), **config)


def explore(report, source, args, **config):
    """Paths of a driver whose first argument is an arbitrary screen."""

    ip = screen_interp(**config)
    driver.find(ip, "slate.screen", "Screen")

    def build(machine):
        screen = symbolic_screen(machine)
        machine.notes.append(("screen", screen))
        return [screen, *args(machine)]

    results = driver.run(ip, source, build)
    report.saw(ip, results)
    return ip, results


def screen_of(path):
    for note in path.notes:
        if isinstance(note, tuple) and note[0] == "screen":
            return note[1]
    return None


def write_paths(report, **config):
    def args(machine):
        return [driver.symbolic(machine, "data", "list[tuple[tuple[int, int], list[Span]]]"),
                driver.symbolic(machine, "tb", "Color"),
                driver.symbolic(machine, "force", "bool")]
    return explore(report, """
        def main(screen, data, tb, force):
            return screen.write_bulk(data, terminal_background=tb, force_overwrite=force)
        """, args, **config)


def resize_paths(report, **config):
    def args(machine):
        return [Sym("new.width", INT, lo=0), Sym("new.height", INT, lo=0),
                driver.symbolic(machine, "fill", "str"),
                driver.symbolic(machine, "keep", "bool")]
    return explore(report, """
        def main(screen, width, height, fill, keep):
            screen.resize((width, height), fill, keep)
            return screen
        """, args, **config)


def clear_paths(report, **config):
    return explore(report, """
        def main(screen, fill):
            screen.clear(fill)
            return screen
        """, lambda m: [driver.symbolic(m, "fill", "str")], **config)


def init_paths(report, **config):
    ip = screen_interp(**config)
    driver.find(ip, "slate.screen", "Screen")

    def build(machine):
        return [Sym("new.width", INT, lo=0), Sym("new.height", INT, lo=0),
                driver.symbolic(machine, "cursor", "tuple[int, int]"),
                driver.symbolic(machine, "fill", "str")]

    results = driver.run(ip, """
        from slate.screen import Screen
        def main(width, height, cursor, fill):
            return Screen(width, height, cursor, fill)
        """, build)
    report.saw(ip, results)
    return ip, results


# -- reading traces --------------------------------------------------------------------------


def root_of(cont):
    """The matrix a row belongs to, and the row's index."""

    if isinstance(cont, LST) and cont.origin is not None:
        return cont.origin[0], cont.origin[1]
    return None, None


def is_cells(path, cont):
    """Is this (the) list of rows of the screen?"""

    if not isinstance(cont, LST):
        return False
    name = re.sub(r"^(L\d+\w*\.)+", "", cont.name or "").split("|")[0].split("#")[0]
    if name.split("[")[0] == "screen._cells":
        return True
    screen = screen_of(path)
    return screen is not None and cont is screen.fields.get("_cells")


def is_buffer(path, cont):
    """Is this dictionary kept by the screen (or by something it holds)?"""

    if not isinstance(cont, DCT):
        return False
    if cont.name is not None and cont.name.startswith("screen."):
        return True
    screen = screen_of(path)
    if screen is None:
        return False
    stack, seen = [screen], set()
    while stack:
        obj = stack.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if obj is cont:
            return True
        if isinstance(obj, Obj):
            stack += list(obj.fields.values())
    return False


def segment(path):
    """The events of a path since it entered its innermost loop iteration."""

    start = 0
    for i, ev in enumerate(path.trace):
        if ev.kind == "loop":
            start = i + 1
    return path.trace[start:]


class Store:
    """One cell given a value."""

    def __init__(self, x, y, value, ev, matrix):
        self.x, self.y, self.value, self.ev, self.matrix = x, y, value, ev, matrix


def stores(path, events, local=False):
    """Cells of the screen (or, local, of another matrix) assigned in `events`."""

    for ev in events:
        if ev.kind != "setitem" or not isinstance(ev.cont, LST):
            continue
        matrix, row = root_of(ev.cont)
        if matrix is None or is_cells(path, matrix) == local:
            continue
        yield Store(ev.idx, row, ev.value, ev, matrix)


def records(path, events):
    """(key, text, event) put into the screen's change buffer."""

    for ev in events:
        if ev.kind == "setitem" and is_buffer(path, ev.cont):
            yield ev.idx, ev.value, ev


def known_none(path, val):
    """True/False/None: the value is None on this path."""

    if isinstance(val, Heap):
        return False
    val = path.facts.resolve(val)
    if isinstance(val, Const):
        return val.val is None
    if isinstance(val, (Obj, Tup, Cat, Lin)):
        return False
    known = path.facts.implied(("isnone", val))
    if known is not None:
        return known
    if path.facts.implied(("truthy", val)) is True:
        return False
    return None


def eq(path, one, two):
    if same(one, two):
        return True
    if isinstance(one, Term) and isinstance(two, Term):
        return path.facts.eq_implied(one, two)
    return None


def differs(path, one, two):
    """True: equal only for some inputs. None: cannot tell. False: equal."""

    known = eq(path, one, two)
    if known is True:
        return False
    for val in (one, two):
        for sub in _numeric_subterms(val):
            if isinstance(sub, App) and sub.op not in ("min", "max", "len", "abs"):
                return None
            if isinstance(sub, Heap):
                return None
    return True


def _numeric_subterms(val):
    """Subterms, without looking into what a length is taken of."""

    stack = [val]
    while stack:
        cur = stack.pop()
        yield cur
        if isinstance(cur, App) and cur.op != "len":
            stack += list(cur.args)
        elif isinstance(cur, Lin):
            stack += list(cur.coefs)
        elif isinstance(cur, (Cat, Tup)):
            stack += list(cur.parts if isinstance(cur, Cat) else cur.items)


# -- committing collected cells --------------------------------------------------------------


def collected_cell(val):
    """(row name, column, the cell) of the collected cell a text comes from."""

    for sub in subterms(val):
        if isinstance(sub, App) and sub.op == "item" and isinstance(
                sub.args[1], Const) and sub.args[1].val == 0:
            cell = sub.args[0]
            if isinstance(cell, App) and cell.op == "item" and isinstance(cell.args[0], Sym):
                return cell.args[0].name, cell.args[1], cell
    return None


class Commit:
    """The innermost loop that puts collected cells on the screen."""

    def __init__(self, results):
        self.lid = self.cell = self.row = self.col = self.screen = None
        self.stored, self.skipped = [], []
        for path in results:
            if path.status != "backedge":
                continue
            for found in stores(path, segment(path)):
                if not isinstance(found.value, Tup) or len(found.value.items) != 3:
                    continue
                base = collected_cell(found.value.items[0])
                if base is None:
                    continue
                self.lid = path.info
                self.row, self.col, self.cell = base
                self.screen = found.ev.cont.name or "screen._cells"
        if self.lid is None:
            return
        for path in results:
            if path.status == "backedge" and path.info == self.lid:
                found = list(stores(path, segment(path)))
                (self.stored if found else self.skipped).append((path, found))

    def mentions(self, atom):
        """What a fact says something about: cell, part, screen, other."""

        kinds, text = set(), repr(self.cell)
        for arg in atom[1:]:
            if not isinstance(arg, Term):
                continue
            if same(arg, self.cell) or isinstance(arg, Tup) and arg.items and all(
                    repr(i).startswith(text + "[") for i in arg.items):
                kinds.add("cell")
                continue
            for sub in subterms(arg):
                name = repr(sub)
                if isinstance(sub, App) and sub.op == "item":
                    if name.startswith(text + "["):
                        kinds.add("part")
                    elif name.startswith((self.screen, "screen._cells")):
                        kinds.add("screen")
        return kinds

    def untouched(self, path, placed):
        """Does the path only run for cells nothing was collected for?"""

        for atom, val in path.facts.order:
            kinds = self.mentions(atom)
            if "cell" in kinds and atom[0] in ("is", "isnone") and val:
                return True
            if "cell" in kinds and atom[0] == "truthy" and not val:
                return True
            if "part" in kinds and self.contradicts(atom, val, placed):
                return True
        return False

    def contradicts(self, atom, val, placed):
        """Can no collected cell satisfy this fact about a part of it?"""

        for arg in atom[1:]:
            if isinstance(arg, App) and arg.op == "item" and same(arg.args[0], self.cell) \
                    and isinstance(arg.args[1], Const):
                pos, had = arg.args[1].val, False
                for put in placed:
                    items = put.value.items
                    if not isinstance(pos, int) or pos >= len(items) or not isinstance(
                            items[pos], Const):
                        return False
                    had = True
                    const = items[pos].val
                    if atom[0] == "truthy" and bool(const) == val:
                        return False
                    if atom[0] == "isnone" and (const is None) == val:
                        return False
                    if atom[0] in ("eq", "is"):
                        other = atom[2] if atom[1] is arg else atom[1]
                        if not isinstance(other, Const) or (other.val == const) == val:
                            return False
                    if atom[0] not in ("truthy", "isnone", "eq", "is"):
                        return False
                return had
        return False

    def other_facts(self, path):
        """Facts of the iteration that are about something else altogether."""

        index = path.backedge.get("index")
        for atom, _ in path.facts.order:
            if atom[0] in ("le", "lt") or self.mentions(atom):
                continue
            if index is not None and repr(index) in repr(atom):
                yield atom

    def part_of(self, val):
        """(which part of the screen's cell, what of it) a value is."""

        name = repr(val) if isinstance(val, (App, Sym)) else ""
        if not name.startswith((self.screen, "screen._cells")):
            return None
        hit = re.match(r".*\]\[([012])\]((?:\.\w+)(?:\[\d\])?)?$", name)
        return (int(hit.group(1)), hit.group(2) or "") if hit else None

    def unchanged(self, path):
        """None or what keeps the path from proving the cell has its value already."""

        parts = {0: set(), 1: set(), 2: set()}
        for atom, val in path.facts.order:
            if "screen" not in self.mentions(atom):
                continue
            for arg in atom[1:]:
                if not isinstance(arg, Term):
                    continue
                got = self.part_of(arg)
                if got is not None:
                    exact = atom[0] in ("eq", "isnone") and val
                    parts[got[0]].add(got[1] if exact else "?" + got[1])
                    continue
                for sub in subterms(arg):
                    got = self.part_of(sub)
                    if got is not None:
                        parts[got[0]].add("?" + repr(arg))
        for pos, name in ((0, "text"), (1, "foreground"), (2, "background")):
            got = parts[pos]
            if "" in got:
                continue
            if pos and {".rgb[0]", ".rgb[1]", ".rgb[2]", ".alpha"} <= got:
                continue
            strange = [g for g in got if not re.match(r"\??(\.rgb\[\d\]|\.alpha|\.rgb)?$", g)]
            return (None if strange else False), name
        return True, ""

