"""C09: rendering emits every pending change once, at its place, and clears it."""

from contextlib import contextmanager

from absint.models import restore, snapshot
from .c06 import expected, same_text
from .c08 import loop_ids
from .screenlab import *  # noqa: F403
from .screens import judge_screens, plain_writes

TECHNIQUE = "abstract interpretation of loop iterations (inductive emission rule)"
RULE = """rendering runs one loop over all pending changes, sorted by row and then column; an
arbitrary iteration adds to the output exactly a cursor move to the change's position plus the
origin followed by its text, or the text alone when the facts imply that the previous iteration's
change was one column to the left on the same row; a redraw adds, for an arbitrary row, a move to
that row plus the origin and the styled text of every cell of the row; whatever was pending is
empty when rendering returns; a normal render ends with a reset; terminals pass their origin; known programs, propagated as
constants, output what a plain model of a screen has pending"""
ASSUMPTIONS = ["the pending text of a cell is judged by C06, the code text of colors by C11"]

NAME = "Screen.render"
OX, OY, REDRAW = Sym("ox", INT), Sym("oy", INT), Sym("redraw", BOOL)


@contextmanager
def assuming(path, extra):
    class Holder:
        facts = path.facts
    saved = snapshot(Holder)
    try:
        for atom, val in extra:
            path.facts.assume(atom, val)
        yield
    finally:
        restore(Holder, saved)


def emission(path):
    """(variable, value added) by the iteration a path ends with, or None."""

    phi, back = path.backedge["phi"], path.backedge["back"]
    for name, var in phi.items():
        if not isinstance(var, Term) or not isinstance(back.get(name), Term):
            continue
        parts = text_parts(back[name])
        if len(parts) > 1 and same(parts[0], var):
            return name, parts[1:]
        if same(back[name], var) and ty_of(var) == STR:
            return name, []
    out, cont = [], None
    for ev in segment(path):
        if ev.kind == "mut" and ev.op in ("append", "iadd", "extend") and isinstance(
                ev.cont, LST) and (cont is None or ev.cont is cont) and not is_cells(
                    path, ev.cont):
            cont = ev.cont
            args = ev.args[0] if ev.args else None
            if ev.op == "append":
                out += text_parts(args)
            else:
                return None
    return (cont.name or "list", out) if cont is not None else None


def pending_name(path):
    """Name of the dictionary of pending changes."""

    for ev in path.events("mut", "setitem"):
        if is_buffer(path, ev.cont):
            return ev.cont.name
    return None


MOVE = re.compile("\x1b\\[(.);(.)[Hf]")


def unstr(val):
    if isinstance(val, App) and val.op == "str":
        return val.args[0]
    return val


def element(path):
    """(x, y, text) of the pending change of an iteration."""

    for sub in all_terms(path):
        if isinstance(sub, App) and sub.op == "item" and "_change_buffer" in repr(
                sub.args[0]) and same(sub.args[1], path.backedge.get("index")):
            pos = App("item", (sub, Const(0)))
            return (App("item", (pos, Const(0)), INT), App("item", (pos, Const(1)), INT),
                    App("item", (sub, Const(1)), STR))
    return None


def all_terms(path):
    for val in list(path.backedge["back"].values()) + [path.backedge.get("elem")]:
        if isinstance(val, Term):
            yield from subterms(val)


def looks(term, want):
    return repr(term) == repr(want)


def shifted(ip, path, got, base, off):
    """Is this the element's coordinate plus the origin's?"""

    got = unstr(got)
    want = ip.add(base, off)
    if repr(got) == repr(want) or eq(path, got, want) is True:
        return True
    return False if differs_simple(got) else None


def differs_simple(val):
    return all(not isinstance(s, App) or s.op in ("item", "str") for s in subterms(val))


def normal_iteration(report, ip, path, elem):
    x, y, char = elem
    got = emission(path)
    detail = path.describe()[-700:]
    if got is None:
        return report.undecided("a change is output once", NAME, detail)
    holes = Holes(got[1])
    chars = [i for i, t in enumerate(holes.terms) if repr(unstr(t)) == repr(unstr(char))]
    text = holes.text
    if len(chars) != 1:
        other = [t for t in holes.terms if repr(unstr(t)).find("_change_buffer") < 0
                 or "dictitem(" in repr(t) or "[[" in repr(t)]
        return report.judge(None if other and not chars else False, "a change is output once",
                            NAME, f"{got[1]!r} when {detail}")
    report.ok("a change is output once", NAME)
    mark = chr(0xE000 + chars[0])
    before, after = text.split(mark)
    report.judge(not after or (None if after and MOVE.search(after) is None else False),
                 "nothing follows a change's text", NAME, f"{got[1]!r} when {detail}")
    near, known = adjacency(ip, path, x, y)
    if before == "":
        report.judge(True if near is True and first_safe(path, x, y) else False,
                     "only a change right after the one before it on its row goes without a move",
                     NAME, detail)
        return None
    hit = MOVE.fullmatch(before)
    what = "a change is preceded by a move to its position plus the origin"
    if not hit:
        return report.judge(False, what, NAME, f"{got[1]!r} when {detail}")
    row, col = holes.back(hit.group(1)), holes.back(hit.group(2))
    for got_, base, off in ((row, y, OY), (col, x, OX)):
        report.judge(shifted(ip, path, got_, base, off), what, NAME,
                     f"{got_!r} instead of {base!r} plus {off!r} when {detail}")
    what = "a change right after the one before it on its row needs no move"
    report.judge(False if near is True or not known else True, what, NAME, detail)
    return None


def adjacency(ip, path, x, y):
    """(True if the facts imply the previous change is just left of this, facts look at it)."""

    phi, back = path.backedge["phi"], path.backedge["back"]
    cols, rows = [], []
    watched = set()
    for name, var in phi.items():
        new = back.get(name)
        pairs = [(var, new)]
        if isinstance(new, Tup):
            pairs = [(var.items[i] if isinstance(var, Tup) and i < len(var.items)
                      else App("item", (as_term(var), Const(i)), INT), item)
                     for i, item in enumerate(new.items)]
        for old, val in pairs:
            if not isinstance(val, Term) or not isinstance(old, Term):
                continue
            for base, out in ((x, cols), (y, rows)):
                if repr(base) in repr(val) and ty_of(val) not in (STR, BOOL):
                    out.append((old, val))
                    watched.add(repr(old))
    facts = path.facts
    near_x = any(_eq(path, val, ip.add(old, Const(1))) for old, val in cols)
    near_y = any(_eq(path, val, old) for old, val in rows)
    known = any(any(w in repr(atom) for w in watched) for atom, _ in facts.order) or any(
        repr(v) in repr(atom) for v in phi.values() for atom, _ in facts.order)
    return (near_x and near_y) or None, known


def _eq(path, one, two):
    if eq(path, one, two) is True:
        return True
    # compare by how terms look, since types of parts may be unknown
    pair = {repr(one), repr(two)}
    for atom, val in path.facts.order:
        if atom[0] != "eq" or not val:
            continue
        if {repr(atom[1]), repr(atom[2])} == pair:
            return True
        for left, right in ((atom[1], atom[2]), (atom[2], atom[1])):
            if isinstance(left, Tup) and isinstance(right, Term) and not isinstance(right, Tup):
                for i, item in enumerate(left.items):
                    part = App("item", (right, Const(i)), INT)
                    with assuming(path, [(("eq", item, part), True)]):
                        if eq(path, one, two) is True:
                            return True
    return False


def first_safe(path, x, y):
    """The first change cannot be taken to follow something."""

    init = {}
    for name, var in path.backedge["phi"].items():
        new, start = path.backedge["back"].get(name), path.backedge["init"].get(name)
        news = new.items if isinstance(new, Tup) else [new]
        starts = start.items if isinstance(start, Tup) else [start] * len(news)
        for val, begin in zip(news, starts):
            for base, key in ((x, "x"), (y, "y")):
                if isinstance(val, Term) and repr(base) in repr(val) and ty_of(val) not in (STR, BOOL):
                    init.setdefault(key, []).append(begin)
    consts = [[c.val for c in init.get(k, []) if isinstance(c, Const)] for k in "xy"]
    return not all(any(isinstance(v, int) and v >= low for v in vals)
                   for vals, low in zip(consts, (-1, 0)))


def order(report, ip, path, lst):
    """Pending changes are visited by row, then by column."""

    what = "changes are output in row order"
    origin = getattr(lst, "origin", None)
    probe = Tup((Tup((Sym("px", INT), Sym("py", INT))), Sym("text", STR)))
    key = reverse = None
    if origin is not None and origin[0] == "sorted":
        key, reverse = origin[2], origin[3]
    else:
        sorts = [ev for ev in path.events("mut") if ev.op == "sort"]
        if not sorts:
            return report.judge(False if isinstance(lst, (LST, Lazy)) and "sorted" not in repr(
                lst) else None, what, NAME, f"{lst!r} is not sorted")
        kwargs = getattr(sorts[-1], "kwargs", None)
        if kwargs is None:
            return report.undecided(what, NAME, f"{lst!r}")
        key, reverse = kwargs.get("key"), kwargs.get("reverse")
    if isinstance(reverse, Const) and reverse.val:
        return report.bad(what, NAME, f"{lst!r} is in reverse")
    if key is None or isinstance(key, Const) and key.val is None:
        return report.judge(False if "sorted(items(" in repr(lst) else None, what, NAME,
                            f"{lst!r} is sorted by column")
    try:
        got = ip.call(key, [probe], {}, None)
    except Exception as exc:  # noqa: BLE001
        return report.undecided(what, NAME, f"sorted by {key!r}: {exc!r}")
    names = [repr(i) for i in got.items] if isinstance(got, Tup) else [repr(got)]
    if names[:2] == ["py", "px"]:
        return report.ok(what, NAME, f"sorted by {got!r}")
    if all(n in ("px", "py", "text") for n in names) or all(
            n in ("px", "py", "text", "-1*px", "-1*py") for n in names):
        return report.bad(what, NAME, f"sorted by {got!r}")
    if isinstance(got, Lin) and {repr(t) for t in got.coefs} <= {"px", "py"}:
        return report.bad(what, NAME, f"sorted by {got!r}, which mixes rows up when the screen "
                          "is wide enough")
    return report.undecided(what, NAME, f"sorted by {got!r}")


def emptied(path):
    """True/False/None: nothing is pending in the end."""

    screen = screen_of(path)
    buffer = screen.fields.get("_change_buffer")
    if buffer is None:
        return False  # not even looked at
    dicts = [v for v in buffer.fields.values() if isinstance(v, DCT)] if isinstance(
        buffer, Obj) else [buffer] if isinstance(buffer, DCT) else []
    if not dicts:
        return None
    return all(not d.sym and not d.items for d in dicts)


def resets(path, val):
    """True/False/None: the text ends with styles switched off."""

    parts = text_parts(val)
    last = parts[-1]
    if isinstance(last, Const):
        if last.val.rstrip("\n").endswith(("\x1b[0m", "\x1b[m")):
            return True
        if len(parts) == 1:
            return "\x1b[" not in last.val
        return False
    for atom, known in path.facts.order:
        if known and atom[0] == "p" and atom[1] == "endswith" and same(
                atom[2], last) and isinstance(atom[3], Const) and atom[3].val in (
                    "\x1b[0m", "\x1b[m"):
            return True
        if known and atom[0] == "eq" and any(same(a, last) for a in atom[1:]) and any(
                isinstance(a, Const) and a.val == "" for a in atom[1:]):
            return True
        if not known and atom[0] == "truthy" and same(atom[1], last):
            return True
    return False if isinstance(last, Sym) else None


def normal(report, ip, results):
    loops, seen = {}, 0
    for path in results:
        if path.status != "backedge" or path.facts.implied(("truthy", REDRAW)) is True:
            continue
        ip.facts = path.facts
        elem = element(path)
        if elem is None:
            continue
        seen += 1
        loops.setdefault(path.info, path)
        normal_iteration(report, ip, path, elem)
    if not seen:
        report.undecided("the loop over pending changes is recognised", NAME)
    for lid, path in loops.items():
        ip.facts = path.facts
        order(report, ip, path, iterated(path.loops[lid].get("iter")))
    for path in results:
        if path.status == "raise":
            report.undecided("rendering does not fail", NAME, path.describe()[-300:])
        if path.status != "return" or path.facts.implied(("truthy", REDRAW)) is True:
            continue
        ip.facts = path.facts
        detail = path.describe()[-500:]
        if loops:
            ran = [lid for lid in loops if lid in path.loops]
            left = any(e.lid in loops and e.what == "break" for e in path.events("loop"))
            empty = "_change_buffer" in detail
            report.judge(True if ran and not left else None if empty else False,
                         "every pending change is output", NAME, detail)
            for lid in ran:
                trip = path.loops[lid].get("trip")
                report.judge(False if "slice(" in repr(trip) else
                             True if repr(trip).startswith("len(screen._change_buffer")
                             else None if trip is None or "_change_buffer" in repr(trip)
                             and not isinstance(trip, Lin) else False,
                             "every pending change is output", NAME, f"{trip!r} of them")
                for name, init in path.loops[lid]["init"].items():
                    if name in (emission_name(loops[lid]),):
                        report.judge(True if isinstance(init, Const) and init.val == "" or
                                     isinstance(init, LST) and init.items == [] else None,
                                     "output starts empty", NAME, f"{init!r}")
        report.judge(resets(path, path.value), "a normal render leaves no style switched on",
                     NAME, f"{path.value!r} when {detail}")


def emission_name(path):
    got = emission(path)
    return got[0] if got else None


def iterated(it):
    while isinstance(it, Lazy) and it.kind in ("enumerate", "iter"):
        it = it.args[0]
    return it


def stable(path, term):
    """A counter that starts somewhere and goes up by one is start plus index."""

    index = path.backedge.get("index")
    for name, var in path.backedge["phi"].items():
        if same(var, term):
            init, back = path.backedge["init"].get(name), path.backedge["back"].get(name)
            return init, back, index
    return None


def redraws(report, ip, results):
    what = "a redraw outputs each row at its place"
    seen = 0
    for path in results:
        if path.facts.implied(("truthy", REDRAW)) is not True:
            continue
        ip.facts = path.facts
        if path.status == "return":
            trips = [log.get("trip") for log in path.loops.values()]
            full = any(eq(path, t, Sym("screen.height", INT, lo=0)) is True
                       for t in trips if t is not None)
            left = any(e.what == "break" for e in path.events("loop"))
            report.judge(True if full and not left else None if not trips or any(
                t is None for t in trips) else False,
                "a redraw outputs every row", NAME, f"{trips!r} when {path.describe()[-300:]}")
            continue
        if path.status != "backedge" or len(loop_ids(path)) != 1:
            continue
        got = emission(path)
        if got is None:
            report.undecided(what, NAME, path.describe()[-300:])
            continue
        seen += 1
        holes = Holes(got[1])
        hit = MOVE.match(holes.text)
        if not hit:
            report.judge(False if "\x1b[" in holes.text or not holes.text else None, what, NAME,
                         f"{got[1]!r}")
            continue
        row, col = unstr(holes.back(hit.group(1))), unstr(holes.back(hit.group(2)))
        index = path.backedge.get("index")
        report.judge(True if eq(path, col, OX) is True else False if differs(
            path, col, OX) else None, what, NAME, f"column {col!r}")
        if eq(path, row, ip.add(OY, index)) is True:
            report.ok(what, NAME)
        else:
            base = stable(path, row)
            if base is None:
                report.judge(False if differs(path, row, ip.add(OY, index)) else None, what,
                             NAME, f"row {row!r}")
            else:
                start, back, _ = base
                good = eq(path, start, OY) is True and eq(
                    path, back, ip.add(row, Const(1))) is True
                report.judge(True if good else False, what, NAME,
                             f"row {row!r} from {start!r}, then {back!r}")
        cells(report, ip, path, holes, holes.text[hit.end():])
    if not seen:
        report.undecided(what, NAME)


def cells(report, ip, path, holes, rest):
    what = "a redraw outputs every cell of a row in its style"
    body = holes.back(rest)
    if not (isinstance(body, App) and body.op == "str.join"):
        inner = [lid for lid in path.loops if lid != path.info]
        return report.judge(None if inner else False, what, NAME, f"{body!r}")
    note = next((n for n in path.notes if isinstance(n, tuple) and n[0] == "join"
                 and repr(n[1]) == repr(body)), None)
    if note is None:
        return report.undecided(what, NAME, f"{body!r}")
    if not same(body.args[0], Const("")):
        return report.bad(what, NAME, f"joined by {body.args[0]!r}")
    index = path.backedge.get("index")
    row = next((ev.lst for ev in path.events("index") if ev.idx is not None
                and str(ev.idx).startswith("J")), None)
    col = next((ev.idx for ev in path.events("index") if str(ev.idx).startswith("J")), None)
    if row is None or not (row.name or "").startswith(("screen._cells", "slice(screen._cells")):
        return report.undecided(what, NAME, f"{body!r}")
    with assuming(path, note[3]):
        cell = Tup(App("item", (App("item", (Sym(f"{row.name}@{row.version}"), col)),
                                Const(i)), t)
                   for i, t in enumerate((STR, ANY, ANY)))
        base = ip.getitem(row, col, None)
        if isinstance(base, Tup):
            cell = base
        texts, codes, sure = expected(path, cell.items)
        got = Holes(note[2])
        good = any(same_text(path, got, t) for t in texts)
        if not good:
            chars = [t for t in got.terms if repr(t) == repr(cell.items[0])]
            strange = [t for t in got.terms if not isinstance(t, App) or t.op not in (
                "ansi", "item")]
            good = None if strange and chars else False
            for color in cell.items[1:]:
                if known_none(path, color) is not True and not strange and not any(
                        isinstance(t, App) and t.op == "ansi" and same(
                            t.args[0], as_term(color)) for t in got.terms):
                    sure = True  # a color that may be there is not output
        report.judge(True if good is True else good if sure else None, what, NAME,
                     f"{note[2]!r} for {cell!r} when {path.describe()[-400:]}")
    wide = ip.length(row)
    report.judge(True if eq(path, wide, Sym("screen.width", INT, lo=0)) is True else
                 False if differs(path, wide, Sym("screen.width", INT, lo=0)) else None,
                 what, NAME, f"{wide!r} cells")
    del index
    filtered = getattr(getattr(note[4], "fn", None), "generators", None)
    if filtered and filtered[0].ifs:
        report.bad(what, NAME, "cells are filtered")


def drawing(report):
    """Terminals render with their origin and the mode asked for."""

    def stub(ip, args, kwargs, node):
        got = dict(zip(["self", "origin", "redraw"], args), **kwargs)
        ip.notes.append(("render", got))
        return Sym("rendered", STR)

    ip = driver.interp(stubs={**NUMERIC, "Screen.render": stub},
                       skip_post_init=("Color", "Span"))
    driver.find(ip, "slate.terminal", "Terminal")
    results = driver.run(ip, """
        def main(term, redraw):
            return term.draw(redraw)
        """, lambda m: [driver.symbolic(m, "term", "Terminal"), REDRAW])
    report.saw(ip, results)
    for path in results:
        got = [n[1] for n in path.notes if isinstance(n, tuple) and n[0] == "render"]
        if path.status != "return" or len(got) != 1:
            report.judge(None if path.status != "return" else False, "drawing renders once",
                         "Terminal.draw", path.describe()[:300])
            continue
        report.ok("drawing renders once", "Terminal.draw")
        where_, origin = got[0].get("origin"), None
        origin = repr(where_)
        report.judge(True if "term.origin" in origin else False if where_ is None or
                     isinstance(where_, (Const, Tup)) else None,
                     "drawing shifts by the terminal's origin", "Terminal.draw", origin)
        mode = got[0].get("redraw")
        known = path.facts.implied(("truthy", REDRAW))
        good = isinstance(mode, Term) and (same(mode, REDRAW) or isinstance(mode, Const) and
                                           known is not None and bool(mode.val) == known)
        report.judge(True if good else False if mode is None or isinstance(mode, Const)
                     else None, "drawing passes on the mode", "Terminal.draw", f"{mode!r}")


def rendering(report):
    ip, results = explore(report, """
        def main(screen, ox, oy, redraw):
            return screen.render((ox, oy), redraw)
        """, lambda m: [OX, OY, REDRAW])
    normal(report, ip, results)
    redraws(report, ip, results)
    for path in results:
        if path.status == "return":
            report.judge(emptied(path), "nothing stays pending", NAME, path.describe()[-300:])


def run(report):
    rendering(report)
    drawing(report)
    judge_screens(report, NAME, outputs="a render outputs what is pending, at its place",
                  full="a redraw outputs every cell, at its place",
                  order="every change is output once, in row order", only=plain_writes)
