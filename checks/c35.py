"""C35: resizing and clearing keep exactly what they should."""

from .screenlab import *  # noqa: F403
from .c06 import loop_path
from .screens import judge_screens, resized

TECHNIQUE = "path-sensitive abstract interpretation, copied positions; constant propagation"
RULE = """on every path of resizing a screen of any size to any other: what is copied from an old
cell is its text, foreground and background, in that order, into the same column of the same row;
the loop over the old rows (columns) is left early only where the row (column) is outside of the
new size; clearing leaves the cursor at (0, 0); known programs that resize and clear screens of
several sizes, propagated as constants, redraw what a plain model of a screen has, and leave the
cursor where it has it"""
ASSUMPTIONS = []


def old_cell(val):
    """(column, row's name, which part) of an old cell, or None."""

    if isinstance(val, App) and val.op == "item" and isinstance(val.args[1], Const):
        cell = val.args[0]
        if isinstance(cell, App) and cell.op == "item" and isinstance(cell.args[0], Sym):
            name = cell.args[0].name
            if name.startswith("screen._cells"):
                return cell.args[1], name, val.args[1].val
    return None


def copies(report):
    what = "what is kept is copied to where it was"
    _, results = resize_paths(report)
    for path in results:
        for found in stores(path, segment(path), local=True):
            if not isinstance(found.value, Tup) or len(found.value.items) != 3:
                continue
            parts = [old_cell(item) for item in found.value.items]
            if any(part is None for part in parts):
                report.undecided(what, found.ev.where, f"{found.value!r}"[:300])
                continue
            detail = f"({found.x!r}, {found.y!r}) = {found.value!r}"[:600]
            right = True
            for num, (col, row, part) in enumerate(parts):
                if part != num:
                    right = False
                for one, two in ((col, found.x),):
                    if differs(path, one, two) is not False:
                        right = False if differs(path, one, two) and right is not None else (
                            right and None)
                if f"[{found.y!r}]" not in row:
                    right = right and None
            report.judge(right, what, found.ev.where, detail)
    what = "copying stops only outside of the new size"
    sizes = [(Sym("screen.height", INT, lo=0), Sym("new.height", INT, lo=0)),
             (Sym("screen.width", INT, lo=0), Sym("new.width", INT, lo=0))]
    for path in results:
        for ev in path.trace:
            if ev.kind != "loop" or ev.what != "break":
                continue
            log = path.loops.get(ev.lid, {})
            for old, new in sizes:
                if log.get("trip") is None or not same(log["trip"], old):
                    continue
                if log.get("index") is None:
                    continue
                atom = path.facts.lin_atom(new, log["index"], False)
                gone = atom if isinstance(atom, bool) else path.facts.implied(atom)
                report.judge(True if gone else None, what, ev.where, path.describe()[:400])


def cursor_back(report):
    what = "clearing puts the cursor back to the start"
    _, results = clear_paths(report)
    for path in results:
        if path.status != "return":
            continue
        cursor = screen_of(path).fields.get("cursor")
        known = isinstance(cursor, Tup) and all(isinstance(i, Const) for i in cursor.items)
        report.judge([i.val for i in cursor.items] == [0, 0] if known else None, what,
                     "Screen.clear", f"{cursor!r}")


def following(report):
    """The terminal's own screen, when the terminal changes size."""

    from . import c21
    what = "the terminal's screen keeps its content when the size changes"
    ip = c21.interp()
    results = attempt(report, ip, what, "Terminal.size", c21.HEAD.format(setup=c21.PLAIN) + """
        tick()
        size = term.size
        return term
""", [STREAM, c21.TICK, c21.MARK])
    for path in results:
        kept = [note for note in path.notes if note[0] == "kept"][1:]
        for _, fill, keep in kept:
            known = path.facts.resolve(keep) if isinstance(keep, Term) else keep
            if isinstance(keep, Cmp):
                # for all sizes, or for some only
                known = Const(path.facts.implied(keep.atom) is keep.pol)
            report.judge(known == TRUE and fill == Const(" ") if isinstance(
                known, Const) and isinstance(fill, Const) else None, what, "Terminal.size",
                f"filled with {fill!r}, keep_original={keep!r}; {path.describe()[:300]}")


def run(report):
    copies(report)
    following(report)
    cursor_back(report)
    judge_screens(report, "Screen.resize", full="the cells after resizing and clearing",
                  cursor="the cursor after resizing and clearing", only=resized)
