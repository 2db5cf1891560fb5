"""C06: every changed cell is scheduled for the next draw with its content."""

from .screenlab import *  # noqa: F403
from .screens import judge_screens

TECHNIQUE = "path-sensitive abstract interpretation, store/record pairing"
RULE = """on every path of writing, resizing, clearing and creating a screen: an assignment to a
cell (x, y) is accompanied by an entry of the change buffer under exactly (x, y), whose text is
made of the assigned text and the codes of exactly the assigned colors; resizing and clearing
empty the buffer before recording, and a pair of loops covers every column of every row of the new
size, recording in every iteration the content the cell is given; rows of the screen are not
otherwise replaced or moved while writing; known programs on screens of several sizes, propagated
as constants, draw what changed as a plain model of a screen has it"""
ASSUMPTIONS = ["the code text of a color is judged by C11, styled characters by C16"]


def expected(path, cell):
    """(accepted texts, codes that must be there, decided) of a cell's value."""

    char, *colors = cell
    codes, sure = [], True
    for color in colors:
        none = known_none(path, color)
        if none is None:
            sure = False
        if not none:
            codes.append(App("ansi", (as_term(color),), STR))
    live = [c for c in codes if path.facts.eq_implied(c, Const("")) is not True]
    texts = []
    for chosen in (codes, live, codes[::-1], live[::-1]):
        text = [char]
        if chosen:
            mid = []
            for i, code in enumerate(chosen):
                mid += [Const(";")] if i else []
                mid.append(code)
            text = [Const("\x1b["), *mid, Const("m"), char, Const("\x1b[0m")]
        for tail in ([], [Const("\n")]):
            texts.append(Holes(text + tail))
    return texts, live, sure


def same_text(path, one, two):
    if one.text == two.text and len(one.terms) == len(two.terms):
        return all(eq(path, a, b) is True for a, b in zip(one.terms, two.terms))
    return False


def sure_color(val):
    """Is this known to be a color or None, so that its code is the one of a color?"""

    if not isinstance(val, Term) or isinstance(val, Const):
        return True
    typ = val.ty if hasattr(val, "ty") else None
    parts = typ[1] if typ and typ[0] == "union" else (typ,)
    return typ is not None and all(p == ("cls", "Color") or p == NONE for p in parts)


def judge_text(report, path, cell, text, where):
    """Does the recorded text show the cell?"""

    what = "the recorded text is the cell's text in the cell's colors"
    if not isinstance(cell, Tup) or len(cell.items) != 3:
        return report.undecided(what, where, f"cell value {cell!r}"[:200])
    texts, codes, sure = expected(path, cell.items)
    got = Holes(text)
    if sure and any(same_text(path, got, t) for t in texts):
        return report.ok(what, where, f"{got.text!r}")
    char = cell.items[0]
    parts = [p for t in text_parts(text) for p in [t]]
    atoms = [p for p in parts if not isinstance(p, Const)]
    shown = [a for a in atoms if isinstance(a, App) and a.op == "ansi"]
    opaque = [a for a in atoms if a not in shown and eq(path, a, char) is not True
              and a not in text_parts(char)]
    detail = f"cell {cell!r} recorded as {text!r} when {path.describe()}"[-900:]
    unclear = any(not sure_color(color) for color in cell.items[1:])
    if opaque or unclear or (not sure and all(c in shown for c in codes)):
        return report.undecided(what, where, detail)
    report.bad(what, where, detail)


def pair(report, path, found, events, where):
    """A store needs a record under its own position."""

    what = "a changed cell is recorded under its own position"
    recorded = list(records(path, events))
    hits = [r for r in recorded if isinstance(r[0], Tup) and len(r[0].items) == 2
            and eq(path, r[0].items[0], found.x) is True
            and eq(path, r[0].items[1], found.y) is True]
    if hits:
        report.ok(what, where)
        # the last record under that position is what gets drawn
        return judge_text(report, path, found.value, hits[-1][1], where)
    detail = f"cell ({found.x!r}, {found.y!r}) when {path.describe()}"[:900]
    if recorded and not all(isinstance(r[0], Tup) and len(r[0].items) == 2 for r in recorded):
        # kept in some other shape than a table of positions
        return report.undecided(what, where, f"recorded under {recorded[-1][0]!r}; {detail}")
    if recorded:
        return report.bad(what, where, f"recorded under {recorded[-1][0]!r}; {detail}")
    others = [e for e in events if e.kind in ("mut", "setitem", "setattr")
              and e is not found.ev and not _about_cell(path, e)]
    if others:
        return report.undecided(what, where, f"other effects follow; {detail}")
    return report.bad(what, where, detail)


def _about_cell(path, ev):
    if ev.kind in ("mut", "setitem"):
        matrix, _ = root_of(ev.cont)
        return matrix is not None
    return False


ROW_OPS = {"pop", "append", "insert", "remove", "extend", "reverse", "clear", "sort", "setitem",
           "delitem", "iadd"}


def writing(report):
    _, results = write_paths(report)
    seen = 0
    for path in results:
        events = segment(path)
        for found in stores(path, events):
            seen += 1
            pair(report, path, found, events, found.ev.where)
        for ev in path.events("mut"):
            if ev.op in ROW_OPS and is_cells(path, ev.cont) and root_of(ev.cont)[0] is None:
                report.bad("rows of the screen are moved without recording their cells",
                           "Screen.write_bulk", f"{ev.op} at {ev.where}",
                           key="write:rows-shifted")
        for ev in path.events("setattr"):
            if ev.attr == "_cells":
                report.bad("rows of the screen are moved without recording their cells",
                           "Screen.write_bulk", f"set at {ev.where}", key="write:rows-shifted")
    if not seen:
        report.undecided("cells assigned by writing are found", "Screen.write_bulk")


# -- resizing --------------------------------------------------------------------------------


def loop_path(path):
    """Indices of the loops a path is inside of: [(lid, index term, trip count)], outside in."""

    stack = []
    for ev in path.trace:
        if ev.kind != "loop":
            continue
        if ev.what == "iter":
            log = path.loops.get(ev.lid, {})
            stack.append((ev.lid, log.get("index"), log.get("trip")))
        elif stack and stack[-1][0] == ev.lid:
            stack.pop()
    return stack


def whole(report, name, results, width, height, fill):
    """Resizing (or clearing, or creating) covers everything."""

    size = (width, height)
    # loops that record
    by_loop = {}
    for path in results:
        if path.status != "backedge":
            continue
        loops = loop_path(path)
        if loops:
            by_loop.setdefault(tuple(l[0] for l in loops), []).append(path)
    covering, problems, candidates = None, [], 0
    for lids, paths in by_loop.items():
        recorded = {id(p): list(records(p, segment(p))) for p in paths}
        if not any(recorded.values()) or len(lids) < 2:
            continue
        good, matched = True, False
        for path in paths:
            loops = loop_path(path)
            trips = {repr(l[1]): l[2] for l in loops if l[1] is not None}
            hits = [r for r in recorded[id(path)] if isinstance(r[0], Tup)
                    and len(r[0].items) == 2 and all(repr(i) in trips for i in r[0].items)]
            if not hits:
                good = False
                problems.append((path, "an iteration records nothing", recorded[id(path)]))
                continue
            matched = True
            for axis, item in enumerate(hits[-1][0].items):
                trip = trips[repr(item)]
                diff = None if trip is None else differs(path, trip, size[axis])
                if diff is not False:
                    good = None if (good is not False and diff is None) else False
                    if diff:
                        problems.append((path, f"covers {trip!r} of {size[axis]!r} "
                                         f"{'columns' if axis == 0 else 'rows'}", hits))
        leaving = [p for p in results if any(
            e.kind == "loop" and e.lid in lids and e.what == "break" for e in p.trace)]
        if leaving and good:
            good = False
            problems.append((leaving[0], "the loop can be left early", []))
        if matched:
            candidates += 1
        if good:
            covering = lids
    what = f"{name}: every cell of the new size is recorded"
    if covering:
        report.ok(what, name, f"loops {covering}")
    elif problems and candidates:
        path, why, got = problems[0]
        report.bad(what, name, f"{why}; {path.describe()}"[:900])
    else:
        report.undecided(what, name, "no pair of loops over the size found")

    # cleared first
    what = f"{name}: pending changes of the old size are dropped first"
    for path in results:
        if path.status != "return" or name == "Screen":
            continue
        cleared = None
        for i, ev in enumerate(path.trace):
            if ev.kind == "mut" and ev.op == "clear" and is_buffer(path, ev.cont):
                cleared = i
            if ev.kind == "setattr" and ev.obj is not None and isinstance(
                    ev.value, (DCT, Obj)) and (is_buffer(path, ev.value) or isinstance(
                        ev.value, Obj)) and ev.attr not in ("cursor",):
                cleared = i
        if cleared is None:
            touched = [e for e in path.events("mut") if is_buffer(path, e.cont)
                       and e.op != "setitem"]
            report.judge(None if touched else False, what, name, path.describe()[:400])
            continue
        late = covering and any(
            ev.kind == "loop" and ev.lid == covering[0] for ev in path.trace[:cleared])
        report.judge(not late, what, name,
                     "cleared after recording" if late else path.describe()[:200])

    # contents
    for path in results:
        events = segment(path)
        for found in stores(path, events, local=True):
            if isinstance(found.value, Tup) and len(found.value.items) == 3:
                pair(report, path, found, events, found.ev.where)
        for found in stores(path, events):
            pair(report, path, found, events, found.ev.where)
        if covering and path.status == "backedge" and tuple(
                l[0] for l in loop_path(path)) == covering:
            recs = list(records(path, events))
            added = [e for e in events if e.kind == "mut" and e.op == "append"
                     and isinstance(e.args[0], Tup) and len(e.args[0].items) == 3]
            already = list(stores(path, events)) + list(stores(path, events, local=True))
            if recs and added and not already:
                judge_text(report, path, added[-1].args[0], recs[-1][1], recs[-1][2].where)
            elif recs and not already:
                report.judge(True if eq(path, recs[-1][1], fill) else None,
                             "the recorded text is the cell's text in the cell's colors",
                             recs[-1][2].where, f"{recs[-1][1]!r}")


def run(report):
    writing(report)
    fill = Sym("fill", STR)
    _, results = resize_paths(report)
    whole(report, "Screen.resize", results, Sym("new.width", INT, lo=0),
          Sym("new.height", INT, lo=0), fill)
    _, results = clear_paths(report)
    whole(report, "Screen.clear", results, Sym("screen.width", INT, lo=0),
          Sym("screen.height", INT, lo=0), fill)
    judge_screens(report, "Screen", outputs="what changed is drawn with its content")
