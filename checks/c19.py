"""C19: exported SVG shows each cell with its own colors and styles."""

from itertools import product

from .svglab import *  # noqa: F403

TECHNIQUE = "abstract interpretation of the exports; reading the markup with unknown colors in it"
RULE = """the markup exported for a span of unknown text and unknown colors, for every combination
of styles and of colors set or not, is one rectangle followed by one text: the rectangle is filled
with the hexadecimal code of the background (or the default one), the text, after applying its
styles, with that of the foreground (or the default one), the other way around when inverted; the
declarations for its styles are there, and no others. For every pair of cells of different kinds
written beside each other (and known screens of several rows), the texts of the elements make up
the rows, every element has one kind of cell, its place follows from its row and column, and its
colors and styles are the cell's. Cells of unknown colors are joined only when these are equal"""
ASSUMPTIONS = ["the cells written are those given (C06, C07)", "known screens are a selection"]

SPAN = """
    from slate.span import Span
    def main(text, fg, bg, dfg, dbg):
        return Span(text, foreground=fg, background=bg, {flags}).as_svg(
            font_size=10, origin=(3, 4), default_foreground=dfg, default_background=dbg, {how})
"""

SCREEN = """
    from slate.span import Span
    from slate.screen import Screen
    from slate.color import Color
    from slate.terminal import terminal
    def main():
        terminal.color_space = None
        screen = Screen({width}, {height})
        {writes}
        return screen.export_svg_with_styles(font_size={font}, origin={origin},
            default_foreground=Color((1, 2, 3)), default_background=Color((4, 5, 6)))
"""

TERMINAL = """
    from slate.span import Span
    from slate.color import Color
    from slate.terminal import Terminal, terminal as shared
    def main(stream):
        shared.color_space = None
        terminal = Terminal(stream)
        screen = terminal
        {writes}
        return terminal.export_svg({how})
"""

GROUP = """
    from slate.span import Span
    from slate.color import Color
    def main(fg1, bg1, fg2, bg2):
        parts = [None if c is None else (c.rgb[0], c.rgb[1], c.rgb[2])
                 for c in (fg1, bg1, fg2, bg2)]
        return (parts, list(Span.group([({one!r}, fg1, bg1), ({two!r}, fg2, bg2)])))
"""

SHOWN = ("bold", "dim", "italic", "underline", "strike", "invert")
DEFAULT_FG, DEFAULT_BG = "#010203", "#040506"

FILLS = "elements are filled with the colors of the text"
STYLED = "the styles are declared"
JOINED = "cells are joined only when they are alike"
TEXT = "every cell's text appears once, in order"
PLACE = "elements are placed by row and column"


def run(report):
    unknown_colors(report)
    grouping(report)
    ip = constant_interp((4, 2))
    ip.config.max_paths = 600
    pairs(report, ip)
    screens(report, ip)
    terminals(report, ip)


# -- spans ---------------------------------------------------------------------------------


def unknown_colors(report):
    ip = span_interp()
    text = Sym("text", STR)
    named = {n: driver.symbolic(ip, n, "Color") for n in ("fg", "bg", "dfg", "dbg")}
    combos = [dict(zip(SHOWN, c)) for c in product((False, True), repeat=len(SHOWN))]
    combos += [{**base, extra: True} for extra in ("blink", "fast_blink", "conceal", "opaque")
               for base in ({}, {"bold": True, "invert": True})]
    for flags, has_fg, has_bg in product(combos, (True, False), (True, False)):
        args = [text, named["fg"] if has_fg else NONE_V, named["bg"] if has_bg else NONE_V,
                named["dfg"], named["dbg"]]
        fg, bg = ("fg" if has_fg else "dfg"), ("bg" if has_bg else "dbg")
        if flags.get("invert"):
            fg, bg = bg, fg
        for how in ("inline_styles=True", "cls='c'"):
            label = f"{[f for f in flags if flags[f]]} {fg} on {bg} {how}"
            for path in attempt(report, ip, FILLS, "Span.as_svg", SPAN.format(
                    flags=", ".join(f"{f}={v}" for f, v in flags.items()), how=how), args):
                judge_span(report, path, flags, fg, bg, "style" if "inline" in how else "class",
                           label)
    plain_styles(report, ip, combos, named)


def plain_styles(report, ip, combos, named):
    """The declarations by themselves, as the screen puts them in its style sheet."""

    source = """
    from slate.span import Span
    def main(text, fg, bg):
        return Span(text, foreground=fg, background=bg, {flags}).get_svg_styles()
    """
    for flags, has_fg, has_bg in product(combos, (True, False), (True, False)):
        args = [Sym("text", STR), named["fg"] if has_fg else NONE_V,
                named["bg"] if has_bg else NONE_V]
        label = f"{[f for f in flags if flags[f]]} {has_fg} {has_bg}"
        for path in attempt(report, ip, STYLED, "Span.get_svg_styles", source.format(
                flags=", ".join(f"{f}={v}" for f, v in flags.items())), args):
            got = path.value
            if path.status != "return" or not isinstance(got, DCT) or got.sym or not all(
                    isinstance(k, Const) for k in got.items):
                report.undecided(STYLED, "Span.get_svg_styles", label)
                continue
            known = {k.val: v.val for k, v in got.items.items() if isinstance(v, Const)}
            if any(k.val not in known and k.val != "fill" for k in got.items):
                report.undecided(STYLED, "Span.get_svg_styles", label)
                continue
            why = wrong_css(known, flags)
            report.judge(why is None, STYLED, "Span.get_svg_styles", f"{why}: {label}")
            wanted = named["bg" if flags.get("invert") else "fg"]
            given = has_bg if flags.get("invert") else has_fg
            fill = got.items.get(Const("fill"))
            if fill is not None:
                report.judge(is_hex(fill, wanted) if given else False, FILLS,
                             "Span.get_svg_styles", f"fill:{fill!r}: {label}")


def is_hex(val, color_):
    want = color_.fields.get("hex") if isinstance(color_, Obj) else None
    name = getattr(color_, "oid", None) or getattr(color_, "name", None)
    if val == want or repr(val) == f"{name}.hex":
        return True
    # another color's, or something that is no code at all
    if isinstance(val, Const) or re.fullmatch(r"(fg|bg|dfg|dbg)\.hex", repr(val)):
        return False
    return None


def judge_span(report, path, flags, fg, bg, source, label):
    where_ = "Span.as_svg"
    if path.status == "backedge":
        return
    if path.status != "return":
        report.undecided(FILLS, where_, f"{path.status} {label}")
        return
    svg = Svg(path.value)
    if svg.error or len(svg.rects) != 1 or len(svg.texts) != 1:
        report.undecided(FILLS, where_, svg.error or f"elements, {label}")
        return
    rect, text = svg.order[0], svg.texts[0]
    report.judge(rect["tag"] == "rect", "the rectangle lies under the text", where_, label)
    rect = svg.rects[0]
    report.judge(hex_of(svg, rect.get("fill"), bg), FILLS, where_,
                 f"rectangle is filled with {svg.back(rect.get('fill', ''))!r}, {label}")
    styles = svg.styles(text)
    for fill in {styles.get("fill"), text.get("fill")}:
        report.judge(hex_of(svg, fill, fg), FILLS, where_,
                     f"text is filled with {svg.back(fill or '')!r}, {label}")
    if source == "style":
        why = wrong_css(styles, flags)
        report.judge(why is None, STYLED, where_, f"{why}: {label}")
    else:
        report.judge("c" in text.get("class", "").split(), STYLED, where_, f"no class, {label}")


def hex_of(svg, text, name):
    if text is None:
        return False
    val = svg.back(text)
    if repr(val) == f"{name}.hex":
        return True
    if isinstance(val, Const) or re.fullmatch(r"(fg|bg|dfg|dbg)\.hex", repr(val)):
        return False
    return None


# -- grouping ------------------------------------------------------------------------------


def grouping(report):
    ip = span_interp(stubs={})
    cells = [("a", "b"), ("\x1b[1ma", "\x1b[1mb"), ("\x1b[1ma", "b"), ("a", "\x1b[3mb"),
             (" ", " "), ("\x1b[7mx\x1b[0m", "\x1b[7my\x1b[0m")]
    for one, two in cells:
        for has in product((True, False), repeat=4):
            args = [driver.symbolic(ip, n, "Color") if h else NONE_V
                    for n, h in zip(("fg1", "bg1", "fg2", "bg2"), has)]
            for path in attempt(report, ip, JOINED, "Span.group", GROUP.format(one=one, two=two),
                                args):
                if path.status != "return" or path.value.items[1].items is None:
                    report.undecided(JOINED, "Span.group", f"{path.status} {one!r} {two!r} {has}")
                    continue
                parts, made = path.value.items
                judge_group(report, path, parts.items, made.items, (one, two))


def plain_of(cell):
    return re.sub(r"\x1b\[[0-9;]*m", "", cell)


def judge_group(report, path, args, made, cells):
    got = [s for s in made if isinstance(s, Obj)]
    texts = [s.fields.get("text") for s in got]
    label = f"{cells} {path.describe()[:200]}"
    if not all(isinstance(t, Const) for t in texts):
        report.undecided(TEXT, "Span.group", label)
        return
    whole = "".join(plain_of(c) for c in cells)
    report.judge("".join(t.val for t in texts) == whole, TEXT, "Span.group", f"{texts} {label}")
    alike = []
    for one, two in ((args[0], args[2]), (args[1], args[3])):
        if isinstance(one, Const) or isinstance(two, Const):
            alike.append(isinstance(one, Const) and isinstance(two, Const))
        else:
            known = [a == b or path.facts.eq_implied(a, b) for a, b in zip(one.items, two.items)]
            # False: joined although nothing is known of the colors
            alike.append(True if all(k is True for k in known) else firm(path, False))
    styles = {re.sub(r"[^\x1b\[0-9;m]", "", c.split("m")[0]) if "\x1b" in c else "" for c in cells}
    alike.append(len(styles) == 1)
    if any(t.val == whole for t in texts):
        report.judge(False if False in alike else None if None in alike else True, JOINED,
                     "Span.group", label)
    else:
        report.ok(JOINED, "Span.group")


# -- screens -------------------------------------------------------------------------------

BASE = {"foreground": (200, 10, 20)}
KINDS = {
    "plain": {**BASE}, "other": {"foreground": (20, 10, 200)},
    "near": {"foreground": (200, 10, 21)}, "on": {**BASE, "background": (9, 90, 99)},
    "on2": {**BASE, "background": (90, 9, 99)}, "bold": {**BASE, "bold": True},
    "dim": {**BASE, "dim": True}, "italic": {**BASE, "italic": True},
    "underline": {**BASE, "underline": True}, "strike": {**BASE, "strike": True},
    "both": {**BASE, "underline": True, "strike": True},
    "invert": {**BASE, "invert": True}, "invert2": {**BASE, "background": (9, 90, 99), "invert": True},
    "blink": {**BASE, "blink": True}, "all": {**BASE, "background": (5, 5, 5), "bold": True,
                                              "italic": True, "underline": True, "dim": True},
    "blank": None,
}


def span_source(text, kind):
    opts = dict(KINDS[kind])
    out = [repr(text)]
    for key, val in opts.items():
        if key in ("foreground", "background"):
            out.append(f"{key}=Color({val}, is_background={key == 'background'})")
        else:
            out.append(f"{key}={val}")
    return f"Span({', '.join(out)})"


def code(rgb):
    return "#" + "".join(f"{v:02X}" for v in rgb)


def wanted(kind):
    opts = KINDS[kind] or {}
    fg = code(opts["foreground"]) if "foreground" in opts else None
    bg = code(opts["background"]) if "background" in opts else None
    return fg, bg, opts


def pairs(report, ip):
    names = list(KINDS)
    for one, two in product(names, repeat=2):
        cells = [[("a", one), ("a", two), ("c", one)]]
        show(report, ip, cells, f"{one} beside {two}")


def screens(report, ip):
    rows = [
        [[("a", "plain"), ("b", "plain")], [("c", "plain"), ("d", "bold")]],
        [[("a", "bold"), ("b", "on")], [("c", "on"), ("d", "bold")], [("e", "bold"), ("f", "bold")]],
        [[(" ", "blank")] * 3, [("x", "italic"), (" ", "blank"), ("y", "italic")]],
        [[("a", "plain"), (" ", "plain"), ("b", "plain")], [(" ", "on"), (" ", "on"), ("z", "on")]],
        [[("\u2588", "plain"), ("\u2588", "plain")], [("\u2588", "bold"), ("a", "bold")]],
        [[("a", "plain"), ("b", "bold"), ("c", "italic"), ("d", "strike"), ("e", "invert")]],
        [[(" ", "blank")]], [[("q", "all")], [("q", "all")], [("q", "all")]],
        [[("a", "invert2"), ("b", "invert2")], [("a", "invert2"), ("b", "invert")]],
        [[("m", "bold"), ("H", "bold"), ("[", "bold"), ("1", "bold"), (";", "plain")]],
    ]
    # as many styles in a row as no class name may repeat for
    show(report, ip, [[("ab"[x % 2], ("bold", "italic", "strike")[(x + x // 100) % 3]) for x in range(300)]],
         "three hundred changes of style in a row")
    for cells in rows:
        for font, origin in ((10, (0, 0)), (15, (7, 20)), (20, (100.5, 3.25))):
            show(report, ip, cells, f"font size {font} from {origin}", font, origin)


def writes(cells):
    out = []
    for y, row in enumerate(cells):
        for x, (char, kind) in enumerate(row):
            if KINDS[kind] is not None:
                out.append(f"screen.write([{span_source(char, kind)}], cursor=({x}, {y}))")
    return "\n        ".join(out) or "pass"


def show(report, ip, cells, label, font=10, origin=(0, 0)):
    where_ = "Screen.export_svg_with_styles"
    cells = [[(" " if KINDS[k] is None else c, k) for c, k in row] for row in cells]
    for path in attempt(report, ip, TEXT, where_, SCREEN.format(
            width=len(cells[0]), height=len(cells), writes=writes(cells), font=font,
            origin=origin), []):
        val = path.value
        if path.status == "raise":
            report.judge(False, TEXT, where_, f"{raised_name(path)}: {label}")
        elif path.status != "return" or not isinstance(val, Tup) or len(val.items) != 2 \
                or not all(isinstance(v, Const) for v in val.items):
            report.undecided(TEXT, where_, label)
        else:
            judge_cells(report, Svg(*val.items), cells, label, where_, origin)


def judge_cells(report, svg, cells, label, where_, origin=None, defaults=(DEFAULT_FG, DEFAULT_BG)):
    if svg.error:
        report.judge(False, TEXT, where_, f"{svg.error}: {label}")
        return
    whole = "".join(c for row in cells for c, _ in row)
    content = "".join(t["content"] for t in svg.texts)
    report.judge(same_text(content, whole), TEXT, where_, f"{content!r}: {label}")
    if not same_text(content, whole):
        return
    order = [(x, y, kind) for y, row in enumerate(cells) for x, (_, kind) in enumerate(row)]
    at = 0
    pitch = []
    for text in svg.texts:
        size = len(text["content"])
        if not size:
            continue
        run_ = order[at:at + size]
        at += size
        kinds = {k for _, _, k in run_}
        detail = f"{text['content']!r}: {label}"
        report.judge(len(kinds) == 1 and len({y for _, y, _ in run_}) == 1, JOINED, where_, detail)
        if len(kinds) != 1:
            continue
        fg, bg, flags = wanted(kinds.pop())
        fg, bg = fg or defaults[0], bg or defaults[1]
        if flags.get("invert"):
            fg, bg = bg, fg
        styles = svg.styles(text)
        report.judge((styles.get("fill") or "").upper() == fg, FILLS, where_,
                     f"{styles.get('fill')} instead of {fg}, {detail}")
        why = wrong_css(styles, flags)
        report.judge(why is None, STYLED, where_, f"{why}: {detail}")
        rect = under(svg, text)
        report.judge(rect is not None and rect.get("fill", "").upper() == bg, FILLS, where_,
                     f"{rect} instead of {bg}, {detail}")
        if rect is not None:
            pitch.append((run_[0][0], run_[0][1], size, rect, text))
    placed(report, pitch, label, where_, origin)


def under(svg, text):
    """The rectangle drawn right before a text."""

    at = next(i for i, item in enumerate(svg.order) if item is text)
    return svg.order[at - 1] if at and svg.order[at - 1]["tag"] == "rect" else None


def placed(report, runs, label, where_, origin):
    try:
        spots = [(col, row, size, float(rect["x"]), float(rect["y"]), float(rect["width"]),
                  float(rect["height"]), float(text["x"]), float(text["y"]))
                 for col, row, size, rect, text in runs]
    except (KeyError, ValueError):
        report.undecided(PLACE, where_, label)
        return
    if not spots:
        return
    rows = sorted({s[1] for s in spots})
    pitch_x = {(s[7] - origin[0]) / s[0] for s in spots if s[0] and origin is not None}
    for step in pitch_x:
        report.judge(step > 0 and step - min(pitch_x) < 0.02, PLACE, where_,
                     f"columns are {sorted(pitch_x)} wide: {label}")
    firsts = {}
    for col, row, size, left, top, wide, high, x, y in spots:
        firsts.setdefault(row, y)
        report.judge(abs(left - x) < 0.01 and abs(firsts[row] - y) < 0.01 and top <= y <= top + high,
                     PLACE, where_, f"text at {x}, {y} over {left}, {top}: {label}")
        if col == 0 and origin is not None:
            report.judge(abs(x - origin[0]) < 0.01, PLACE, where_, f"row begins at {x}: {label}")
        if pitch_x:
            report.judge(abs(wide - size * min(pitch_x)) < 1, PLACE, where_,
                         f"{size} cells are {wide} wide: {label}")
    steps = {(firsts[b] - firsts[a]) / (b - a) for a, b in zip(rows, rows[1:])}
    for step in steps:
        report.judge(step > 0 and step - min(steps) < 0.02, PLACE, where_,
                     f"rows are {sorted(steps)} high: {label}")


# -- the terminal --------------------------------------------------------------------------


def terminals(report, ip):
    where_ = "Terminal.export_svg"
    given = "default_foreground=Color((1, 2, 3)), default_background=Color((4, 5, 6))"
    rows = [[[("a", "plain"), ("b", "bold"), (" ", "blank"), ("c", "on")],
             [("d", "on"), ("e", "invert"), (" ", "blank"), (" ", "blank")]],
            [[(" ", "blank")] * 4, [("x", "all"), ("y", "all"), ("z", "plain"), ("w", "plain")]]]
    for cells in rows:
        for how, defaults in ((given, (DEFAULT_FG, DEFAULT_BG)), ("", ("#0E0F10", "#0B0C0D")),
                              (given + ", font_size=30", (DEFAULT_FG, DEFAULT_BG)),
                              (given.split(", default_b")[0], (DEFAULT_FG, "#0B0C0D"))):
            for path in attempt(report, ip, TEXT, where_, TERMINAL.format(
                    writes=writes(cells), how=how), [STREAM]):
                if path.status == "raise":
                    report.judge(False, TEXT, where_, f"{raised_name(path)}: {how}")
                elif path.status != "return" or not isinstance(path.value, Const):
                    report.undecided(TEXT, where_, how)
                else:
                    whole(report, Svg(path.value), cells, how, defaults)


def whole(report, svg, cells, how, defaults):
    where_ = "Terminal.export_svg"
    judge_cells(report, svg, cells, how, where_, (0, 0), defaults)
    if svg.error:
        return
    what = "the image has the terminal's background and room for every cell"
    first = svg.order[0]
    report.judge(first["tag"] == "rect" and first.get("fill", "").upper() == defaults[1], what,
                 where_, f"{first}: {how}")
    root = list(svg.root)[0]
    try:
        wide, high = float(root.get("width")), float(root.get("height"))
        need_x = max(float(r["x"]) + float(r["width"]) for r in svg.rects[1:])
        need_y = max(float(r["y"]) + float(r["height"]) for r in svg.rects[1:])
    except (TypeError, ValueError, KeyError):
        report.undecided(what, where_, how)
        return
    report.judge(wide + 1 >= need_x and high + 1 >= need_y, what, where_,
                 f"{wide}x{high} for {need_x}x{need_y}: {how}")
