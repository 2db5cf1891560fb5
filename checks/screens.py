"""Known programs on screens, followed as constants, against a plain model of a screen."""

from __future__ import annotations

from .known import *  # noqa: F403
from .known import Sheet, UNKNOWN, constant_interp, has_unknown, outcome

CODES = {"bold": "1", "italic": "3", "underline": "4", "strike": "9"}
HEAD = """
    from slate.terminal import terminal
    from slate.core import ColorSpace
    from slate.color import Color
    from slate.span import Span
    from slate.screen import Screen
    def main(stream):
        terminal.color_space = ColorSpace.TRUE_COLOR
        out = []
"""
RED, BLUE, GREY = (200, 10, 20), (1, 2, 250), (90, 91, 92)


def span(text, fg=None, bg=None, *styles):
    return (text, fg, bg, frozenset(styles))


def spelled(item):
    text, fg, bg, styles = item
    more = [f"{s}=True" for s in sorted(styles)]
    if fg:
        more.append(f"foreground=Color({fg})")
    if bg:
        more.append(f"background=Color({bg}, is_background=True)")
    return f"Span({', '.join([repr(text), *more])})"


def line(spans):
    return f"[{', '.join(map(spelled, spans))}]"


def statement(op, *rest):
    if op == "write":
        spans, cursor, force = rest
        where_ = "" if cursor is None else f", cursor={cursor}"
        return f"s.write({line(spans)}{where_}{', force_overwrite=True' if force else ''})"
    if op == "bulk":
        items, force = rest
        data = ", ".join(f"({pos}, {line(spans)})" for pos, spans in items)
        return f"s.write_bulk([{data}]{', force_overwrite=True' if force else ''})"
    if op == "resize":
        size, fill, keep = rest
        return f"s.resize({size}" + (f", {fill!r}" if fill != " " else "") + (
            "" if keep else ", keep_original=False") + ")"
    if op == "clear":
        return f"s.clear({'' if rest[0] == ' ' else repr(rest[0])})"
    if op == "render":
        return f"s.render({rest[0]})" if rest[0] else "s.render()"
    if op == "redraw":
        return f"s.render(origin={rest[0]}, redraw=True)" if rest[0] else "s.render(redraw=True)"
    if op == "move":
        return f"setattr(s, 'cursor', {rest[0]})"
    if op == "cursor":
        return "s.cursor"
    raise KeyError(op)


def source(start, ops):
    size, fill = start
    body = [f"s = Screen({size[0]}, {size[1]}" + ("" if fill == " " else f", fillchar={fill!r}")
            + ")"]
    body += [f"out.append({statement(*op)})" for op in ops]
    return HEAD + "".join(f"        {text}\n" for text in body) + "        return out\n"


class Model:
    """A screen as the properties describe it (opaque colors, nothing below the last row)."""

    def __init__(self, size, fill):
        self.size, self.cells, self.pending, self.cursor = (0, 0), {}, {}, (0, 0)
        self.resize(size, fill, True)

    def resize(self, size, fill, keep):
        old, self.size = self.cells, size
        spots = [(x, y) for y in range(size[1]) for x in range(size[0])]
        self.cells = {spot: old[spot] if keep and spot in old else ("fill", fill, None, None,
                                                                    frozenset())
                      for spot in spots}
        self.pending = dict(self.cells)

    def clear(self, fill):
        self.resize(self.size, fill, False)
        self.cursor = (0, 0)

    def write(self, spans, cursor, force):
        return self.bulk([(self.cursor if cursor is None else cursor, spans)], force)

    def bulk(self, items, force):
        put = {}
        for (x, y), spans in items:
            for text, fg, bg, styles in spans:
                for char in text:
                    if not (0 <= x < self.size[0] and 0 <= y < self.size[1]):
                        break
                    if char == "\n":
                        y += 1
                        continue
                    put[x, y] = ("text", char, fg, bg, styles)
                    x, y = (x + 1, y) if x + 1 < self.size[0] else (0, y + 1)
            self.cursor = (x, y)
        count = 0
        for spot, cell in put.items():
            if force or self.cells[spot] != cell:
                self.cells[spot] = self.pending[spot] = cell
                count += 1
        return count

    def render(self, origin):
        out, self.pending = self.pending, {}
        return ("shown", origin or (0, 0), out, False)

    def redraw(self, origin):
        self.pending = {}
        return ("shown", origin or (0, 0), dict(self.cells), True)

    def do(self, op, *rest):
        if op == "move":
            self.cursor = rest[0]
            return None
        if op == "cursor":
            return self.cursor
        return getattr(self, op)(*rest)


def fault(cell, got):
    """What is wrong with a cell that shows something."""

    _, char, fg, bg, styles = cell
    need = {CODES[s] for s in styles}
    if fg:
        need.add("38;2;" + ";".join(map(str, fg)))
    if bg:
        need.add("48;2;" + ";".join(map(str, bg)))
    shown, codes = got
    if shown != char:
        return f"{shown!r} instead of {char!r}"
    if need - codes:
        return f"{shown!r} without {sorted(need - codes)}"
    extra = {c for c in codes - need if fg or not c.startswith("38")}
    return f"{shown!r} with {sorted(extra)}" if extra else None


def differences(shown, got):
    """What is wrong with the output of a render: (content, completeness, order)."""

    _, (ox, oy), cells, _ = shown
    sheet = Sheet().feed(got)
    wanted = {(x + ox, y + oy): cell for (x, y), cell in cells.items()}
    content = [f"at {spot}: {why}" for spot, cell in wanted.items() if spot in sheet.cells
               and (why := fault(cell, sheet.cells[spot]))]
    where_ = [f"nothing at {spot}" for spot in wanted if spot not in sheet.cells]
    where_ += [f"{sheet.cells[spot][0]!r} at {spot}" for spot in sheet.cells if spot not in wanted]
    where_ += [f"{text!r} sent" for text in sheet.strange if text != "\n"]
    spots = [spot for spot, _ in sheet.prints]
    order = []
    if len(spots) != len(set(spots)):
        order.append("a cell is output twice")
    if spots != sorted(spots, key=lambda s: (s[1], s[0])):
        order.append("out of order")
    return content, where_, order, sheet


def moves(sheet):
    """What is wrong with the cursor moves before what is output."""

    spots = [spot for spot, _ in sheet.prints]
    runs = [b for a, b in zip([None, *spots], spots) if a is None or b != (a[0] + 1, a[1])]
    more = [spot for spot in sheet.moved if spot not in runs]
    return [f"needless moves to {more[:3]}"] if more and spots else []


W, B = "write", "bulk"
STARTS = [((4, 3), " "), ((3, 2), "."), ((1, 4), " "), ((5, 1), "x")]
PROGRAMS = [
    [(W, [span("ab", RED)], (0, 0), False), ("render", None), (W, [], (0, 9), False), ("cursor",),
     ("redraw", None), ("render", None), (B, [((0, 20), []), ((2, 0), [span("c")])], False),
     ("render", None), ("redraw", None)],
    [("render", None), (W, [span(" ")], (0, 0), False), ("render", None),
     (W, [span("\u00a0")], (0, 0), False), ("render", (1, 1)), (W, [span("\u3000")], (0, 0), False),
     ("render", (1, 1)), (W, [span(" ")], (0, 0), False), ("render", (1, 1)), ("redraw", None)],
    [(W, [span("ab", RED)], (0, 9), False), (W, [span("cd")], (0, 14), False), ("clear", " "),
     ("cursor",), ("render", (1, 1)), ("redraw", None), (W, [span("n")], None, False), ("cursor",),
     ("render", None)],
    [("render", None), (W, [span("ab")], (0, 0), False), ("render", None), ("cursor",),
     (W, [span("ab")], (0, 0), False), ("render", (2, 2)), ("cursor",)],
    [(W, [span("abcdef", RED, BLUE)], (1, 0), False), ("cursor",), ("render", (1, 1)),
     ("redraw", (1, 1)), ("render", (1, 1))],
    [("render", None), (W, [span("a", RED), span("b", None, GREY), span("c")], (0, 0), False),
     ("cursor",), (W, [span("d", BLUE)], None, False), ("cursor",), ("render", (3, 4))],
    [(W, [span("a\nb\n\nc")], (0, 0), False), ("cursor",), ("render", (1, 1))],
    [("render", (1, 1)), (W, [span("a", RED)], (0, 0), False), ("redraw", (5, 7)),
     (W, [span("a", RED)], (0, 0), True), ("render", (5, 7)), ("redraw", None)],
    [(B, [((0, 0), [span("aaaa", RED)]), ((1, 0), [span("bb", BLUE, GREY)])], False),
     ("render", None), (B, [((0, 0), [span("a", RED)]), ((0, 0), [span("z")])], False),
     ("render", (1, 1)), (B, [((0, 0), [span("q")]), ((0, 0), [span("z")])], False),
     ("render", (1, 1))],
    [("render", None), (W, [span("ab")], (-1, 0), False), (W, [span("ab")], (0, -1), False),
     (W, [span("ab")], (40, 0), False), ("render", None)],
    [("render", None), (W, [span("wxyzwxyzwxyzwxyzwxyz")], (0, 0), False), ("render", None),
     ("redraw", None)],
    [(W, [span("ab", RED, BLUE)], (0, 0), False), ("resize", (6, 5), " ", True),
     ("redraw", None), ("render", None)],
    [(W, [span("ab", RED, BLUE)], (0, 0), False), ("resize", (6, 5), " ", True),
     ("render", (1, 1)), ("redraw", (1, 1))],
    [(W, [span("abcdefghijkl", RED)], (0, 0), False), ("render", None), ("resize", (2, 2), " ", True),
     ("render", (1, 1)), ("resize", (5, 4), "+", True), ("render", (1, 1)), ("redraw", None)],
    [(W, [span("abcdefghijkl", None, GREY)], (0, 0), False), ("resize", (2, 5), "-", True),
     ("render", None), ("redraw", (2, 2)), (W, [span("pqrstuvw")], (1, 3), False), ("render", None)],
    [(W, [span("abcdefghijkl", BLUE)], (0, 0), False), ("resize", (4, 3), "#", False),
     ("render", None), ("redraw", None)],
    [(W, [span("abcdefghijkl", BLUE)], (0, 0), False), ("render", None), ("cursor",),
     ("clear", " "), ("cursor",), ("render", None), ("redraw", (1, 1)),
     (W, [span("n", RED)], None, False), ("render", None), ("cursor",)],
    [(W, [span("abc", BLUE)], (0, 0), False), ("clear", "~"), ("redraw", None),
     (W, [span("abc", BLUE)], (0, 0), False), ("render", None), ("clear", "~"), ("render", None)],
    [("resize", (0, 0), " ", True), ("render", None), ("redraw", None),
     ("resize", (3, 2), ",", True), ("render", None), ("redraw", (1, 1))],
    [(W, [span("ab")], (0, 0), False), ("resize", (0, 2), " ", True), ("resize", (2, 0), " ", True),
     ("resize", (3, 1), " ", True), ("redraw", None), ("render", None)],
    [(W, [span("k", RED, None, "bold", "underline")], (0, 0), False), ("render", None),
     (W, [span("k", RED, None, "bold", "underline")], (0, 0), False), ("render", None),
     (W, [span("k", RED, None, "bold")], (0, 0), False), ("render", None),
     (W, [span("k", RED, None)], (0, 0), False), ("render", None),
     (W, [span("k", RED, BLUE)], (0, 0), False), ("render", None),
     (W, [span("k", BLUE, BLUE)], (0, 0), False), ("render", None),
     (W, [span("k", BLUE, RED)], (0, 0), False), ("render", None),
     (W, [span("k", BLUE)], (0, 0), False), ("render", None),
     (W, [span(" ", BLUE)], (0, 0), False), ("render", None), ("redraw", None)],
    [("move", (1, 0)), (W, [span("mn")], None, False), ("cursor",), ("render", None),
     (W, [], (2, 0), False), ("cursor",), (B, [], False), ("cursor",), ("render", None)],
    [("render", None), (B, [((2, 0), [span("r", RED)]), ((0, 0), [span("l", BLUE)])], False),
     ("cursor",), ("render", (1, 1)), (B, [((0, 0), [span("l", BLUE)]), ((1, 0), [span(" ")])], True),
     ("render", (1, 1))],
    [(W, [span("\u00e9\u6f22'\"<&>", RED)], (0, 0), False), ("render", (1, 1)), ("redraw", (1, 1))],
    [("render", None), (W, [span("a"), span(""), span("b", RED), span("\n"), span("c")], (0, 0),
                        False), ("cursor",), ("render", (1, 1))],
    [("render", None), (W, [span("wxyz" * 8)], (0, 0), True), ("render", None),
     (W, [span("wxyz" * 8)], (0, 0), True), ("render", (1, 1))],
    [(W, [span(" ", RED), span(" ", None, BLUE), span(" ", RED, BLUE)], (0, 0), False),
     ("resize", (6, 5), " ", True), ("redraw", None), ("resize", (3, 2), " ", True),
     ("redraw", None), ("render", None)],
]


def play(report, ip, what, where_, wanted=("shown", "count", "cursor")):
    """(label, operation, what the model gives, what the code gives) for each step of each
    program; what is UNKNOWN is skipped, and reported as undecided."""

    done = 0
    for start in STARTS:
        for ops in PROGRAMS:
            text = source(start, ops)
            got = outcome(report, ip, what, where_, text)
            label = f"Screen{start[0]}, {start[1]!r}: " + "; ".join(statement(*op) for op in ops)
            if got is UNKNOWN:
                report.undecided(what, where_, label[:400])
                continue
            if isinstance(got, tuple) and got[:1] == ("raised",):
                yield label, None, None, got
                continue
            model, lost = Model(*start), False
            for num, (op, value) in enumerate(zip(ops, got)):
                if off_bottom(model, op):
                    lost = True
                if op[0] == "clear":
                    lost = False
                want = model.do(*op)
                if lost or op[0] == "clear":
                    continue
                here = f"Screen{start[0]}, {start[1]!r}: " + "; ".join(
                    statement(*o) for o in ops[:num + 1])
                yield here, op, want, value
            done += 1
    report.count("known programs", done)


def off_bottom(model, op):
    """Writing below the last row scrolls, which the model has not."""

    if op[0] == "write":
        spot = model.cursor if op[2] is None else op[2]
        return bool(op[1]) and 0 < model.size[1] <= spot[1]
    if op[0] == "bulk":
        return any(spans and 0 < model.size[1] <= pos[1] for pos, spans in op[1])
    return False


def judge_screens(report, where_, *, outputs=None, full=None, counts=None, cursor=None,
                  order=None, places=None, only=None):
    """Judge the steps of the programs; each keyword is the name of what is judged by it."""

    ip = constant_interp()
    what = outputs or full or counts or cursor or order or places
    for label, op, want, got in play(report, ip, what, where_):
        if op is None:
            report.judge(False, what, where_, f"{got!r} in {label}"[:900])
            continue
        if only is not None and not only(label):
            continue
        if op[0] in ("render", "redraw"):
            if not isinstance(got, str):
                report.judge(False, what, where_, f"{got!r} in {label}"[:900])
                continue
            content, place, wrong, sheet = differences(want, got)
            name = outputs if op[0] == "render" else full
            if name:
                report.judge(not content and not place, name, where_,
                             f"{'; '.join((content + place)[:4])} after {label}"[:900])
            if places and op[0] == "render":
                report.judge(not place, places, where_,
                             f"{'; '.join(place[:4])} after {label}"[:900])
            if order:
                report.judge(not wrong, order, where_, f"{wrong} after {label}"[:900])
                wrong = moves(sheet)
                report.judge(not wrong, "the cursor is moved only where a run starts", where_,
                             f"{wrong} after {label}"[:900])
        elif op[0] in ("write", "bulk") and counts:
            report.judge(got == want, counts, where_, f"{got!r} instead of {want} for {label}"[:900])
        elif op[0] == "cursor" and cursor:
            report.judge(got == want, cursor, where_, f"{got!r} instead of {want} after {label}"[:900])


def resized(label):
    return "s.resize(" in label or "s.clear(" in label


def plain_writes(label):
    return not resized(label)
