"""C08: text lands cell by cell from the cursor, wraps at the edge, moves the cursor."""

from .screenlab import *  # noqa: F403
from .screens import judge_screens, plain_writes

TECHNIQUE = "abstract interpretation of loop iterations (inductive position rule)"
RULE = """for an arbitrary character of an arbitrary span in an arbitrary batch: it is stored once,
at the current position, as the span's own styled character of that index with the span's colors
(those below it may only show through a translucent background); the position then is the next
column, or the start of the next row when the facts imply the edge; a newline stores nothing and
moves one row down in its column; characters are skipped only when the position is implied to be outside; positions
carry over from span to span and start at the given place; the cursor ends where the text did;
the collected cells are committed to the same place of the screen with the same content; a missing
position means the screen's cursor; known programs, propagated as constants, place text and leave
the cursor as a plain model of a screen does"""
ASSUMPTIONS = ["what get_characters returns is judged by C16, blending by C11 and C12"]


def flat(mapping):
    """Variables (and parts of tuples held in them) of a loop."""

    out = {}
    for name, val in mapping.items():
        if isinstance(val, Tup):
            for i, item in enumerate(val.items):
                out[(name, i)] = item
        else:
            out[(name,)] = val
    return out


def char_notes(path):
    return {n[1]: n for n in path.notes if isinstance(n, tuple) and n[0] == "chars"}


def styled_char(path, val):
    """(span, index, note) if a value is one of a span's styled characters."""

    if isinstance(val, App) and val.op == "item" and isinstance(val.args[0], Sym):
        name = val.args[0].name.rsplit("@", 1)[0]
        note = char_notes(path).get(name)
        if note:
            return note[2], val.args[1], note
    return None


def styled_char_in(path, val):
    if not isinstance(val, Term):
        return None
    for sub in subterms(val):
        got = styled_char(path, sub)
        if got:
            return got
    return None


def _last(path, got, idx):
    """Are both the last index, however it is spelled?"""

    return eq(path, got[1], idx) is True or isinstance(idx, Const) and idx.val == -1 and (
        "-1" in repr(got[1]) or repr(got[1]) == "-1")


def attr(ip, span, name):
    return ip.getattr(span, name, None)


def outside(path, x, y, width, height):
    facts = path.facts

    def le(one, two, strict=False):
        atom = facts.lin_atom(one, two, strict)
        return atom if isinstance(atom, bool) else facts.implied(atom) is True
    return (le(x, Const(0), True) or le(width, x) or le(y, Const(0), True) or le(height, y))


class Placement:
    """The loop that places characters."""

    def __init__(self, ip, results):
        self.ip, self.lid = ip, None
        self.width, self.height = Sym("screen.width", INT, lo=0), Sym("screen.height", INT, lo=0)
        self.results = results
        self.paths, self.breaks = [], []
        self.xvar = self.yvar = None
        for path in results:
            if path.status != "backedge":
                continue
            for found in self.placed(path):
                self.lid = path.info
                phi = flat(path.backedge["phi"])
                for name, val in phi.items():
                    if same(val, found.x):
                        self.xvar = name
                    if same(val, found.y):
                        self.yvar = name
        for path in results:
            if path.status == "backedge" and path.info == self.lid:
                self.paths.append(path)
            elif any(e.kind == "loop" and e.lid == self.lid and e.what == "break"
                     for e in path.trace):
                self.breaks.append(path)

    def placed(self, path):
        """Stores of styled characters in the iteration a path ends with."""

        for local in (True, False):
            for found in stores(path, segment(path), local):
                if isinstance(found.value, Tup) and found.value.items and any(
                        styled_char(path, i) for i in subterms(found.value.items[0])):
                    yield found
        if self.lid is not None:
            for found in stores(path, segment(path), True):
                if isinstance(found.value, Tup) and path.info == self.lid and not any(
                        styled_char(path, i) for i in subterms(found.value.items[0])):
                    yield found


def newline(path, ip, span, index):
    """True/False/None: the character of this iteration is a newline."""

    text = attr(ip, span, "text")
    term = App("item", (as_term(text), index), STR)
    return path.facts.eq_implied(term, Const("\n"))


def current(path):
    """(span, index) of the iteration a path is in."""

    notes = list(char_notes(path).values())
    idx = path.backedge.get("index") if path.backedge else None
    if not notes:
        return None, idx
    return notes[-1][2], idx


def placement(report, ip, results):
    work = Placement(ip, results)
    name = "Screen.write_bulk"
    if work.lid is None or work.xvar is None or work.yvar is None:
        report.undecided("the loop placing characters is recognised", name,
                         f"loop {work.lid} position {work.xvar}, {work.yvar}")
        return None
    report.ok("the loop placing characters is recognised", name)
    for path in work.paths:
        ip.facts = path.facts
        phi, back = flat(path.backedge["phi"]), flat(path.backedge["back"])
        x, y = phi[work.xvar], phi[work.yvar]
        nx, ny = back.get(work.xvar), back.get(work.yvar)
        found = list(work.placed(path))
        span, index = current(path)
        for ev in path.events("setitem"):
            got = styled_char_in(path, ev.value)
            if isinstance(ev.cont, LST) and got and root_of(ev.cont)[0] is None:
                diff = differs(path, got[1], ev.idx) if not _last(path, got, ev.idx) else False
                report.judge(None if diff is None else not diff,
                             "a character keeps its own text and style", ev.where,
                             f"{ev.value!r} put at {ev.idx!r}")
        if span is None or index is None:
            report.undecided("the character of an iteration is known", name)
            continue
        nl = newline(path, ip, span, index)
        detail = path.describe()[-900:]
        where_ = found[0].ev.where if found else name
        if nl is not False and found:
            report.bad("a newline is not placed", where_, detail)
            continue
        if nl is True:
            report.ok("a newline is not placed", name)
            report.judge(_pos(path, ny, plus(ip, y, 1)), "a newline moves to the next row", name,
                         f"from row {y!r} to {ny!r} when {detail}")
            report.judge(_pos(path, nx, x), "a newline stays in the column", name,
                         f"from column {x!r} to {nx!r} when {detail}")
            continue
        if not found:
            out = outside(path, x, y, work.width, work.height)
            report.judge(True if out else False, "a character is left out only off the screen",
                         name, detail)
            continue
        if len(found) > 1 and any(not same(f.x, found[0].x) or not same(f.y, found[0].y)
                                  for f in found):
            report.bad("a character is placed once", where_, detail)
            continue
        put = found[-1]
        good = eq(path, put.x, x) is True and eq(path, put.y, y) is True
        report.judge(good or (False if differs(path, put.x, x) or differs(path, put.y, y)
                              else None), "a character is placed at the position", where_,
                     f"({put.x!r}, {put.y!r}) for ({x!r}, {y!r}) when {detail}")
        advance(report, path, ip, work, (x, y), (nx, ny), where_)
        content(report, path, ip, put, span, index)
    for path in work.breaks:
        ip.facts = path.facts
        log = path.loops.get(work.lid, {})
        phi = flat(log.get("phi", {}))
        x, y = phi.get(work.xvar), phi.get(work.yvar)
        if x is None or y is None:
            report.undecided("placing stops only off the screen", name)
            continue
        report.judge(bool(outside(path, x, y, work.width, work.height)),
                     "placing stops only off the screen", name, path.describe()[-900:])
    return work


def plus(ip, val, num):
    return ip.add(val, Const(num))


def _pos(path, got, want):
    if got is None:
        return None
    if eq(path, got, want) is True:
        return True
    return False if differs(path, got, want) else None


def advance(report, path, ip, work, pos, new, where_):
    (x, y), (nx, ny) = pos, new
    atom = path.facts.lin_atom(plus(ip, x, 1), work.width, True)
    inside = atom if isinstance(atom, bool) else path.facts.implied(atom)
    what = "the position advances by one column, or to the next row at the edge"
    detail = f"({x!r}, {y!r}) to ({nx!r}, {ny!r}) when {path.describe()[-800:]}"
    step = _pos(path, nx, plus(ip, x, 1)), _pos(path, ny, y)
    wrap = _pos(path, nx, Const(0)), _pos(path, ny, plus(ip, y, 1))
    if inside is True:
        want = step
    elif inside is False:
        want = wrap
    elif step == (True, True) or wrap == (True, True):
        report.bad(what, where_, "whatever the column: " + detail)
        return
    else:
        want = (None, None)
    if want == (True, True):
        report.ok(what, where_)
    elif False in want:
        report.bad(what, where_, detail)
    else:
        report.undecided(what, where_, detail)


def translucent(path, ip, color):
    """True/False/None: this background lets what is below show through."""

    none = known_none(path, color)
    if none is True:
        return False
    if none is None:
        return None
    alpha = ip.getattr(color, "alpha", None)
    known = path.facts.eq_implied(alpha, Const(1.0))
    return None if known is None else not known


def content(report, path, ip, put, span, index):
    where_, detail = put.ev.where, path.describe()[-700:]
    fore, back = attr(ip, span, "foreground"), attr(ip, span, "background")
    items = put.value.items
    clear = translucent(path, ip, back)
    got = styled_char(path, items[0])
    what = "a character keeps its own text and style"
    if got is None:
        # something else: what was there before, shown through a translucent background
        if clear is False:
            report.bad(what, where_, f"{items[0]!r} when {detail}")
        elif clear is True:
            report.ok(what, where_, "what is below shows through")
        else:
            report.bad(what, where_, f"{items[0]!r} whatever the background when {detail}")
    else:
        note = got[2]
        good = same(as_term(got[0]), as_term(span)) and eq(path, got[1], index) is True
        report.judge(good or (False if differs(path, got[1], index) else None), what, where_,
                     f"{items[0]!r} at index {index!r} when {detail}")
        for val, part in ((note[3], "without its colors"), (note[4], "with its sequence")):
            flag = val.val if isinstance(val, Const) else None
            report.judge(None if flag is None else bool(flag),
                         f"a character is taken {part}", where_, f"{note[1]}")
    for pos, want, part in ((1, fore, "foreground"), (2, back, "background")):
        if len(items) <= pos:
            report.undecided(f"a character has its span's {part}", where_)
            continue
        val = items[pos]
        what = f"a character has its span's {part}"
        if same(as_term(val), as_term(want)) or eq(path, as_term(val), as_term(want)) is True:
            report.ok(what, where_)
        elif known_none(path, val) is True and known_none(path, want) is True:
            report.ok(what, where_)
        elif clear is True:
            report.ok(what, where_, "seen through a translucent background")
        else:
            report.bad(what, where_, f"{val!r} instead of {want!r} when {detail}")


def carrying(report, ip, results, work):
    """Positions go from batch entry to span to character and into the cursor."""

    name = "Screen.write_bulk"
    offset_key = "_scrollback_offset"
    entered = False
    for path in results:
        log = path.loops.get(work.lid)
        if log is None:
            continue
        order = list(path.loops)
        outer = None
        for lid in order[:order.index(work.lid)]:
            phi = flat(path.loops[lid]["phi"])
            if work.xvar in phi and work.yvar in phi:
                outer = path.loops[lid]
        if outer is None:
            continue
        entered = True
        for var in (work.xvar, work.yvar):
            init, start = flat(log["init"]).get(var), flat(outer["phi"])[var]
            report.judge(_pos(path, init, start),
                         "a span starts where the one before it ended", name,
                         f"{var[0]}: {init!r} for {start!r} when {path.describe()[-600:]}")
        if path.status == "backedge" and path.info in outer_ids(path, work):
            # what the next span starts from is where the characters of this one ended
            back, ended = flat(path.backedge["back"]), flat(log["phi"])
            for var in (work.xvar, work.yvar):
                report.judge(_pos(path, back.get(var), ended[var]),
                             "a span starts where the one before it ended", name,
                             f"{var[0]}: {back.get(var)!r} for {ended[var]!r} when "
                             f"{path.describe()[-600:]}")
    if not entered:
        report.undecided("a span starts where the one before it ended", name)
    seen = False
    for path in results:
        if path.status != "backedge":
            continue
        span_loops = [lid for lid in path.loops if work.xvar in flat(path.loops[lid]["phi"])
                      and _is_outer(results, lid, work)]
        ends = [e for e in path.events("setattr") if e.attr == "cursor"]
        if not span_loops or not any(e.kind == "loop" and e.lid == span_loops[0] and e.what in (
                "exit", "break") for e in path.trace):
            continue
        if path.info == span_loops[0] or path.info == work.lid:
            continue
        seen = True
        log = path.loops[span_loops[0]]
        phi, init = flat(log["phi"]), flat(log["init"])
        screen = screen_of(path)
        ip.facts = path.facts
        offset = screen.fields.get(offset_key, Const(0))
        given = _given(path)
        if given is not None:
            what = "text starts at the given position"
            detail = f"({init.get(work.xvar)!r}, {init.get(work.yvar)!r}) for {given!r} when " \
                     f"{path.describe()[-600:]}"
            report.judge(_pos(path, init.get(work.xvar), given.items[0]), what + " (column)",
                         name, detail)
            report.judge(_pos(path, init.get(work.yvar), ip.sub(given.items[1], offset)),
                         what + " (row)", name, detail)
        what = "the cursor ends where the text ended"
        value = screen.fields.get("cursor")
        if not ends or not isinstance(value, Tup) or len(value.items) != 2:
            report.judge(False if not ends else None, what, name, path.describe()[-600:])
            continue
        detail = f"cursor {value!r}, text ended at ({phi[work.xvar]!r}, {phi[work.yvar]!r}) " \
                 f"after {offset!r} scrolled rows"
        report.judge(_pos(path, value.items[0], phi[work.xvar]), what + " (column)", name, detail)
        report.judge(_pos(path, value.items[1], ip.add(phi[work.yvar], offset)),
                     what + " (row)", name, detail)
    if not seen:
        report.undecided("the cursor ends where the text ended", name)


def outer_ids(path, work):
    """Loops around the placing one that carry the position themselves."""

    order = list(path.loops)
    if work.lid not in order:
        return []
    return [lid for lid in order[:order.index(work.lid)]
            if work.xvar in flat(path.loops[lid]["phi"])]


def completeness(report, results, work):
    """Nothing that was given to be written is left out."""

    name = "Screen.write_bulk"
    what = "every character of every span of the batch is placed"
    for path in work.paths:
        for lid, log in path.loops.items():
            if lid not in loop_ids(path):
                continue
            trip = log.get("trip")
            if trip is None:
                report.undecided(what, name, f"loop {lid}")
                continue
            want = _full_length(trip)
            if want is True:
                report.ok(what, name)
            elif any(str(s) in ("screen.width", "screen.height") or isinstance(
                    s, Const) for s in subterms(trip)) or isinstance(trip, (Lin, Const)):
                report.bad(what, name, f"loop {lid} runs {trip!r} times")
            else:
                report.undecided(what, name, f"loop {lid} runs {trip!r} times")
        break
    inner = {lid for path in work.paths for lid in loop_ids(path)} - {work.lid}
    for path in results:
        for ev in path.events("loop"):
            if ev.lid in inner and ev.what == "break":
                phi = flat(path.loops[ev.lid]["phi"])
                x, y = phi.get(work.xvar), phi.get(work.yvar)
                out = x is not None and y is not None and outside(
                    path, x, y, work.width, work.height)
                log = path.loops.get(work.lid)
                if not out and log:
                    phi = flat(log["phi"])
                    out = outside(path, phi[work.xvar], phi[work.yvar], work.width, work.height)
                report.judge(bool(out), what, name,
                             f"loop {ev.lid} is left when {path.describe()[-500:]}")


def _full_length(trip):
    """Is this the length of something given (and not of a part of it)?"""

    if isinstance(trip, Sym) and trip.name.startswith("len("):
        return True
    if isinstance(trip, App) and trip.op == "len":
        return True
    return None


def _is_outer(results, lid, work):
    """Does the placing loop run inside this loop?"""

    for path in results:
        if path.info == work.lid if path.status == "backedge" else False:
            inside = [e.lid for e in path.trace if e.kind == "loop" and e.what == "iter"]
            return lid in inside and lid != work.lid
    return False


def _given(path):
    """The position of the batch entry a path is in."""

    for lid, log in path.loops.items():
        elem = log.get("elem")
        if isinstance(elem, Tup) and len(elem.items) == 2 and isinstance(
                elem.items[0], Tup) and len(elem.items[0].items) == 2 and "data" in repr(
                    elem.items[0]):
            return elem.items[0]
    return None


# -- committing ------------------------------------------------------------------------------


def source(path, val, depth=0):
    """Follows a value to where it came from before loops changed it."""

    if depth > 8:
        return val
    for log in path.loops.values():
        for name, phi in log["phi"].items():
            if same(phi, val) and name in log["init"]:
                return source(path, log["init"][name], depth + 1)
    return val


def committing(report, ip, results):
    name = "Screen.write_bulk"
    lids, seen = set(), 0
    for path in results:
        if path.status != "backedge":
            continue
        for found in stores(path, segment(path)):
            if not isinstance(found.value, Tup) or len(found.value.items) != 3:
                continue
            seen += 1
            ip.facts = path.facts
            lids.add(tuple(loop_ids(path)))
            char, fore, back = found.value.items
            where_ = found.ev.where
            base = collected_cell(char)
            if base is None:
                report.undecided("a cell is committed with its collected content", where_,
                                 f"{char!r}")
                continue
            row, col = base[:2]
            committed_text(report, path, char, where_)
            what = "a cell is committed at its own place"
            good = f"[{found.y!r}]" in row and eq(path, col, found.x) is True
            report.judge(good or False, what, where_, f"cell ({found.x!r}, {found.y!r}) from "
                         f"{char!r} when {path.describe()[-500:]}")
            for pos, val, part in ((1, fore, "foreground"), (2, back, "background")):
                collected_color(report, path, ip, val, row, col, pos, part, where_)
    if not seen:
        report.undecided("collected cells are committed", name)
        return
    size = (Sym("screen.height", INT, lo=0), Sym("screen.width", INT, lo=0))
    for chain in lids:
        for path in results:
            for ev in path.events("loop"):
                if ev.lid in chain and ev.what == "break":
                    report.bad("every collected cell is committed", name,
                               f"loop left early when {path.describe()[-500:]}")
            if path.status == "backedge" and path.info == chain[-1] and len(chain) == 2:
                for lid, want in zip(chain, size):
                    trip = path.loops[lid].get("trip")
                    diff = None if trip is None else differs(path, trip, want)
                    report.judge(None if diff is None else not diff,
                                 "every collected cell is committed", name,
                                 f"{trip!r} of {want!r}")


def loop_ids(path):
    out = []
    for ev in path.trace:
        if ev.kind == "loop":
            if ev.what == "iter":
                out.append(ev.lid)
            elif ev.lid in out:
                out.remove(ev.lid)
    return out


def skipping(report, results, work):
    """Collected cells are committed, unless the screen shows them already."""

    commit, name = Commit(results), "Screen.write_bulk"
    what = "a collected cell is left out only if the screen has that content already"
    if commit.lid is None:
        return
    placed = [f for path in work.paths for f in work.placed(path)] if work else []
    for path, _ in commit.skipped:
        detail = path.describe()[-700:]
        if commit.untouched(path, placed):
            report.ok(what, name, "nothing was collected there")
            continue
        good, part = commit.unchanged(path)
        if good is not True and list(commit.other_facts(path)):
            good = None
        report.judge(good, what, name, f"{part} may differ when {detail}")


LOSSLESS = {("str.rstrip", "\n"), ("str.removesuffix", "\n"), ("str.strip", "\n")}


def committed_text(report, path, char, where_):
    """The text of a cell is the collected one, save for a newline added at its end."""

    what = "a committed cell has its collected text"
    val = char
    while isinstance(val, App) and val.op.startswith("str."):
        args = tuple(a.val if isinstance(a, Const) else None for a in val.args[1:])
        if (val.op, *args) not in LOSSLESS and not (
                val.op == "str.replace" and args[:2] == ("\n", "")):
            known = val.op in ("str.strip", "str.rstrip", "str.lstrip", "str.lower", "str.upper",
                               "str.title", "str.capitalize", "str.swapcase", "str.expandtabs")
            return report.judge(False if known else None, what, where_, f"{char!r}")
        val = val.args[0]
    if isinstance(val, App) and val.op == "item":
        return report.ok(what, where_)
    if isinstance(val, App) and val.op == "slice":
        return report.judge(None, what, where_, f"{char!r}")
    return report.undecided(what, where_, f"{char!r}")


def collected_color(report, path, ip, val, row, col, pos, part, where_):
    what = f"a committed cell has its collected {part}"
    detail = f"{val!r} when {path.describe()[-500:]}"

    def own(term):
        return (isinstance(term, App) and term.op == "item" and isinstance(
            term.args[1], Const) and isinstance(term.args[0], App)
            and term.args[0].op == "item" and isinstance(term.args[0].args[0], Sym)
            and term.args[0].args[0].name == row and same(term.args[0].args[1], col)
            and term.args[1].val)

    val = source(path, val)
    got = own(val)
    if got:
        return report.judge(got == pos, what, where_, detail)
    if isinstance(val, App) and val.op == "blend" or isinstance(val, Sym) and val.name.startswith(
            "tb"):
        return report.ok(what, where_, "blended")
    if isinstance(val, Obj) and pos == 1:
        had = [t for atom, _ in path.facts.order for a in atom[1:] if isinstance(a, Term)
               for t in subterms(a) if own(t) == 1]
        gone = any(known_none(path, t) is True or path.facts.implied(("truthy", t)) is False
                   for t in had)
        return report.judge(gone, what, where_, "default foreground: " + detail)
    if isinstance(val, Obj) or isinstance(val, Const):
        return report.bad(what, where_, detail)
    return report.undecided(what, where_, detail)


# -- entry points ----------------------------------------------------------------------------


def default_position(report):
    calls = []

    def stub(ip, args, kwargs, node):
        names = ["self", "data", "terminal_background", "force_overwrite"]
        got = dict(zip(names, args), **kwargs)
        ip.notes.append(("bulk", got))
        return Sym("count", INT)

    ip, results = explore(report, """
        def main(screen, spans, cursor):
            return screen.write(spans, cursor)
        """, lambda m: [driver.symbolic(m, "spans", "list[Span]"),
                        driver.symbolic(m, "cursor", "tuple[int, int] | None")],
        stubs={"Screen.write_bulk": stub})
    del calls
    for path in results:
        bulk = [n[1] for n in path.notes if isinstance(n, tuple) and n[0] == "bulk"]
        what = "a single write starts at the given position, or the screen's cursor"
        if path.status != "return" or len(bulk) != 1:
            report.judge(None if path.status != "return" else False if not bulk else None, what,
                         "Screen.write", path.describe()[:400])
            continue
        data = bulk[0].get("data")
        ip.facts = path.facts
        if not isinstance(data, LST) or data.items is None or len(data.items) != 1 \
                or not isinstance(data.items[0], Tup):
            report.undecided(what, "Screen.write", f"{data!r}")
            continue
        pos, spans = data.items[0].items
        none = path.facts.implied(("isnone", Sym("cursor")))
        given = Sym("cursor")
        own = screen_of(path).fields.get("cursor")
        if none is True:
            good = same(as_term(pos), as_term(own))
        elif none is False:
            good = "cursor" in repr(pos) and "screen" not in repr(pos)
        else:
            good = False if not isinstance(pos, App) else None
        report.judge(good, what, "Screen.write", f"{pos!r} when {path.describe()[:300]}")
        report.judge(True if "spans" in repr(spans) else None, "a single write writes the spans",
                     "Screen.write", f"{spans!r}")
        del given


def writing(report):
    ip, results = write_paths(report)
    work = placement(report, ip, results)
    if work is not None:
        carrying(report, ip, results, work)
        completeness(report, results, work)
    skipping(report, results, work)
    committing(report, ip, results)


def run(report):
    writing(report)
    default_position(report)
    judge_screens(report, "Screen.write_bulk", full="text is shown where it was written",
                  cursor="the cursor is where the text ended", only=plain_writes)
