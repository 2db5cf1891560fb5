"""C31: translucent colors are blended over what is below them, each on its layer."""

import re
from itertools import product

from .common import *  # noqa: F403
from .known import Sheet, UNKNOWN, constant_interp, outcome
from absint.interp import Raised  # noqa: F401

TECHNIQUE = "abstract interpretation with layer and provenance qualifiers on colors"
RULE = """colors are tracked with the layer they are on and the set of colors they were blended from,
their alpha values being arbitrary; for every stack of up to three spans on a cell, the rendered
cell has at most one foreground code, made from a foreground-layer color, and at most one background
code, made from an opaque background-layer color; with an opaque background (or none) on top, these
are exactly the colors of the last span; otherwise the background is blended from the backgrounds of
the last opaque span and the translucent ones above it (the terminal's when there is none), the
topmost always taking part; the text is the last one that is not a see-through blank; in known
stacks on an opaque base, propagated as constants, every further translucent layer moves the
background, and the text that shows through, towards its color"""
ASSUMPTIONS = ["the spans' colors are on the layers they are used for",
               "alpha values are between 0 and 1",
               "the channels a blend gives are judged by C12"]

LAYERS = "a cell's colors are on their layers"
HIDDEN = "an opaque background hides what is below"
BLENDED = "a translucent background is blended over what is below"
OPAQUE = "no transparency is left in a background"
SHOWN = "the text shown is the topmost visible one"
FORE = "the foreground belongs to the text shown"

TERM = (11, 12, 13)
MARK = "\uf8ff"  # stands before every color, none of which is empty


class Layer:
    def __init__(self, num, text=" ", fg=True, bg="?", flags=""):
        self.num, self.text, self.fg, self.bg, self.flags = num, text, fg, bg, flags

    def fore(self):
        return (100 + self.num, 110 + self.num, 120 + self.num)

    def back(self):
        return (200 + self.num, 210 + self.num, 220 + self.num)

    def source(self, pad=""):
        parts = [repr(pad + self.text)]
        if self.fg:
            parts.append(f"foreground=Color({self.fore()}, alpha=fa{self.num})")
        if self.bg is not None:
            parts.append(f"background=Color({self.back()}, is_background=True, alpha=ba{self.num})")
        return f"Span({', '.join(parts)}{self.flags})"

    def alpha_names(self):
        return [n + str(self.num) for n in ("fa", "ba")]

    def __repr__(self):
        return f"{self.text!r}{' fg' * bool(self.fg)}{' bg' * (self.bg is not None)}{self.flags}"


def rgb_of(ip, obj, node):
    val = ip.getattr(obj, "rgb", node)
    return tuple(val.items) if isinstance(val, Tup) else (as_term(val),)


def blend(ip, args, kwargs, node):
    names = ["self", "other", "alpha", "is_background"]
    given = {**dict(zip(names, args)), **kwargs}
    layer = given.get("is_background", NONE_V)
    if isinstance(layer, Const) and layer.val is None:
        layer = ip.getattr(given["self"], "is_background", node)
    one, two = rgb_of(ip, given["self"], node), rgb_of(ip, given["other"], node)
    mixed = Tup(App("mix", (as_term(a), as_term(b)), INT) for a, b in zip(one, two))
    return ip.call(ip.classes["Color"], [mixed], {"is_background": layer}, node)


def ansi(ip, args, kwargs, node):
    layer = ip.truth(ip.getattr(args[0], "is_background", node), node)
    alpha = ip.getattr(args[0], "alpha", node)
    code = App("ansi", (Tup(rgb_of(ip, args[0], node)), Const("bg" if layer else "fg"),
                        as_term(alpha)), STR)
    return Cat((Const(MARK), code))


def stack_interp():
    ip = driver.interp(stubs={**NUMERIC, "Color.blend": blend, "Color.ansi": ansi,
                              "set_echo": lambda *a: NONE_V,
                              "get_default_color": lambda m, a, k, n: m.call(
                                  m.classes["Color"], [Tup(map(Const, TERM))], {}, n),
                              "get_terminal_size": lambda *a: Tup((Const(1), Const(1)))},
                       externals={name: lambda *a: Tup((Const(1), Const(1))) for name in (
                           "os.get_terminal_size", "shutil.get_terminal_size")},
                       skip_post_init=("Color",), max_paths=2000)
    driver.find(ip, "slate.terminal", "Terminal")
    ip.config.env = {}
    return ip


PROGRAM = """
from slate.screen import Screen
from slate.span import Span
from slate.color import Color
def main({names}):
    screen = Screen({width}, 1)
    screen.write_bulk([{data}],
                      terminal_background=Color({term}, is_background=True))
    return screen.render(redraw={redraw})
"""


def kinds(num):
    for text, fg, bg in product("x ", (False, True), (None, "?")):
        yield Layer(num, text if text == " " else "xyz"[num], fg, bg)
    yield Layer(num, " ", True, "?", ", opaque=True")
    yield Layer(num, " ", True, "?", ", underline=True")
    yield Layer(num, "xyz"[num], True, "?", ", bold=True")


def run(report):
    ip = stack_interp()
    for one in kinds(0):
        judge_stack(report, ip, [one])
        for two in kinds(1):
            judge_stack(report, ip, [one, two])
    plain = Layer(0, "x", True, "?")
    for one in (plain, Layer(0, "x", True, None)):
        for two, three in product(kinds(1), kinds(2)):
            if three.fg and two.fg and (three.bg or two.bg):
                judge_stack(report, ip, [one, two, three])
    top = Layer(1, "y", True, "?"), Layer(1, " ", True, "?"), Layer(1, "y", True, None)
    for two in top:
        judge_neighbours(report, ip, [plain, two])
    judge_neighbours(report, ip, [plain, top[1], Layer(2, "z", False, None)])
    through_terminal(report, ip)
    tinting(report)


def judge_stack(report, ip, layers):
    names = [n for layer in layers for n in layer.alpha_names()]
    for redraw in (False,) if len(layers) > 1 else (False, True):
        source = PROGRAM.format(names=", ".join(names), term=TERM, redraw=redraw, width=1, data=", ".join(
            f"((0, 0), [{layer.source()}])" for layer in layers))
        args = [Sym(n, FLOAT, lo=0, hi=1) for n in names]
        for path in attempt(report, ip, LAYERS, "Screen.write_bulk", source, args):
            if path.status == "backedge":
                continue
            judge_cell(report, path, layers, "Screen.write_bulk", repr(layers))


def judge_neighbours(report, ip, layers):
    """The same in the second cell, after text of the same span or of another one."""

    names = [n for layer in layers for n in layer.alpha_names()]
    for pads in product((True, False), repeat=len(layers)):
        data = ", ".join("((0, 0), [{}])".format(
            layer.source("q") if pad else f"Span('q'), {layer.source()}")
            for layer, pad in zip(layers, pads))
        source = PROGRAM.format(names=", ".join(names), term=TERM, redraw=False, data=data,
                                width=2)
        args = [Sym(n, FLOAT, lo=0, hi=1) for n in names]
        for path in attempt(report, ip, LAYERS, "Screen.write_bulk", source, args):
            if path.status != "backedge":
                judge_cell(report, path, layers, "Screen.write_bulk", f"{layers!r} after text")


# -- what a stack should look like ---------------------------------------------------------


class View:
    """What is visible of a stack, given which backgrounds are opaque."""

    def __init__(self, layers, solid):
        self.base, self.shown, self.above, self.see_through = None, None, [], False
        for layer in layers:
            if self.base is not None and layer.bg is not None and not solid[layer.num]:
                self.above.append(layer)
                if layer.text == " " and "opaque" not in layer.flags:
                    self.see_through = True
                else:
                    self.shown, self.see_through = layer, False
            else:
                self.base = self.shown = layer
                self.above, self.see_through = [], False
        self.solid_base = self.base.bg is not None and solid[self.base.num]

    def backs(self):
        return {layer.back() for layer in [self.base, *self.above] if layer.bg is not None}

    def wrong_back(self, sources, term):
        """Why a background made of these colors (None: no background) is wrong."""

        backs = self.backs()
        if sources is None:
            return (BLENDED if self.above else HIDDEN, "no background") if backs else None
        if not backs:
            return HIDDEN, f"has a background from {sorted(sources)} without being given one"
        if self.solid_base and not self.above:
            return None if sources == backs else (
                HIDDEN, f"background from {sorted(sources)}, not just {self.base.back()}")
        if not sources <= backs | {term}:
            return HIDDEN, f"background from {sorted(sources - backs - {term})}, which is hidden"
        if self.above and self.above[-1].back() not in sources:
            return BLENDED, f"{self.above[-1].back()} takes no part: {sorted(sources)}"
        below = self.base.back() if self.base.bg is not None else term
        if below not in sources and (self.base.bg is not None or len(self.above) == 1):
            return BLENDED, f"{below} takes no part: {sorted(sources)}"
        if not self.above and term not in sources:
            return BLENDED, f"the terminal's {term} takes no part: {sorted(sources)}"
        return None

    def wrong_fore(self, sources, solid, term):
        white = (255, 255, 255)
        if not self.shown.fg:
            if sources is None:
                return None
            own = white
        else:
            if sources is None:
                return "no foreground"
            own = self.shown.fore()
        if own not in sources:
            return f"{own} takes no part: {sorted(sources)}"
        allowed = {own}
        if self.see_through or self.shown.fg and not solid:
            allowed |= self.backs() | {term}
        if not sources <= allowed:
            return f"foreground from {sorted(sources - allowed)} too"
        if self.see_through and self.shown.text != " " and self.above[-1].back() not in sources:
            return f"{self.above[-1].back()} above takes no part: {sorted(sources)}"
        if self.shown.fg and not solid and self.backs() and sources == {own}:
            return "translucent, but not blended with its background"
        return None


def sources_of(rgb):
    """The known colors an rgb triplet is mixed from; None when unclear."""

    if all(isinstance(c, Const) for c in rgb):
        return {tuple(c.val for c in rgb)}
    if len(rgb) != 3 or not all(isinstance(c, App) and c.op == "mix" for c in rgb):
        return None
    out = set()
    for pos in (0, 1):
        part = sources_of(tuple(c.args[pos] for c in rgb))
        if part is None:
            return None
        out |= part
    return out


class Cell:
    """A rendered cell: its text, plain style codes and colors."""

    def __init__(self, val):
        self.fault, self.codes = None, set()
        self.colors = {"fg": [], "bg": []}
        holes = Holes(val)
        text = re.sub(r"\x1b\[\d+;\d+H", "", holes.text)
        text = re.sub(r"^.*q(\x1b\[0?m)*", "", text)
        for params in re.findall(r"\x1b\[([^\x1b]*?)m", text):
            for part in params.split(";"):
                if part.isdigit():
                    self.codes.add(part)
                elif len(part) == 2 and part[0] == MARK and isinstance(
                        holes.back(part[1]), App) and holes.back(part[1]).op == "ansi":
                    rgb, layer, alpha = holes.back(part[1]).args
                    self.colors[layer.val].append((tuple(rgb.items), alpha))
                elif part:
                    self.fault = f"{part!r} in {text!r}"
        self.codes -= {"0", "99"}
        self.text = re.sub(r"\x1b\[[^\x1b]*?m", "", text)
        if any(ord(c) >= 0xE000 for c in self.text):
            self.fault = f"{self.text!r}"


def settled(path, name):
    """Is the alpha of this name one on the path? None when it was never asked."""

    return path.facts.eq_implied(Sym(name, FLOAT, lo=0, hi=1), Const(1.0))


def tangled(path):
    """Does the path depend on how large an alpha is?"""

    return any(atom[0] in ("le", "lt") and re.search(r"\b[fb]a\d", repr(atom))
               for atom, _ in path.facts.order)


def judge_cell(report, path, layers, where_, label, term=TERM):
    if path.status != "return":
        report.undecided(LAYERS, where_, f"{path.status} {path.exc!r} {label}")
        return
    cell = Cell(path.value)
    if cell.fault:
        report.undecided(LAYERS, where_, f"{cell.fault} {label}")
        return
    detail = f"{label} gives {path.value!r} when {path.describe()[-300:]}"
    report.judge(len(cell.colors["fg"]) <= 1 and len(cell.colors["bg"]) <= 1,
                 LAYERS, where_, detail)
    if len(cell.colors["fg"]) > 1 or len(cell.colors["bg"]) > 1:
        return
    parts = {}
    for key, found in cell.colors.items():
        parts[key] = None
        for rgb, alpha in found:
            parts[key] = sources_of(rgb)
            if parts[key] is None:
                report.undecided(BLENDED, where_, f"{rgb!r} {label}")
                return
            if key == "bg":
                known = path.facts.eq_implied(alpha, Const(1.0))
                report.judge(known if known in (True, False) else None, OPAQUE, where_,
                             f"alpha {alpha!r}: {detail}")
    backed = [layer for layer in layers if layer.bg is not None]
    options = [(known,) if (known := settled(path, f"ba{layer.num}")) is not None
               else (True, False) for layer in backed]
    for choice in product(*options):
        view = View(layers, dict(zip((layer.num for layer in backed), choice)))
        wrong = view.wrong_back(parts["bg"], term)
        what = BLENDED if view.above else HIDDEN
        if wrong is None:
            report.ok(what, where_)
        elif "takes no part" in wrong[1] and tangled(path):
            report.undecided(wrong[0], where_, f"{wrong[1]}: {detail}")
        else:
            report.bad(wrong[0], where_, f"{wrong[1]}: {detail}")
        text, codes = view.shown.text, {"bold": "1", "underline": "4"}
        wanted = {code for name, code in codes.items() if name in view.shown.flags}
        report.judge(cell.text == text and cell.codes == wanted, SHOWN, where_,
                     f"{cell.text!r} with {sorted(cell.codes)}, not {text!r}: {detail}")
        known = settled(path, f"fa{view.shown.num}")
        for solid in (True, False) if known is None else (known,):
            wrong = view.wrong_fore(parts["fg"], solid, term)
            if wrong is None:
                report.ok(FORE, where_)
            elif "part" in wrong and tangled(path):
                report.undecided(FORE, where_, f"{wrong}: {detail}")
            else:
                report.bad(FORE, where_, f"{wrong}: {detail}")


THROUGH = """
import io
from slate.terminal import Terminal
from slate.span import Span
from slate.color import Color
def main(stream, {names}):
    term = Terminal(stream)
    {call}
    return term._screen.render()
"""


def through_terminal(report, ip):
    for layer in (Layer(0, "x", True, "?"), Layer(0, " ", True, "?"), Layer(0, "x", False, None)):
        span = layer.source()
        for name, call in (("write", f"term.write([{span}], cursor=(0, 0))"),
                           ("write_bulk", f"term.write_bulk([((0, 0), [{span}])])")):
            source = THROUGH.format(names=", ".join(layer.alpha_names()), call=call)
            args = [STREAM, *(Sym(n, FLOAT, lo=0, hi=1) for n in layer.alpha_names())]
            for path in attempt(report, ip, BLENDED, f"Terminal.{name}", source, args):
                if path.status != "backedge":
                    judge_cell(report, path, [layer], f"Terminal.{name}", repr(layer))


# -- known stacks --------------------------------------------------------------------------

STACK = """
    from slate.terminal import terminal
    from slate.core import ColorSpace
    from slate.color import Color
    from slate.span import Span
    from slate.screen import Screen
    def main(stream):
        terminal.color_space = ColorSpace.TRUE_COLOR
        s = Screen(2, 1)
        s.write_bulk([{data}])
        return s.render((1, 1))
"""
RED, BLUE, GREEN, DARK = (250, 20, 10), (20, 10, 240), (5, 245, 9), (30, 40, 50)
TINTS = [
    [(RED, 0.2), (RED, 0.6)], [(RED, 0.6), (RED, 0.2)], [(RED, 0.3), (BLUE, 0.3)],
    [(RED, 0.3), (BLUE, 0.3), (RED, 0.3)], [(GREEN, 0.7), (BLUE, 0.1), (GREEN, 0.5)],
    [(RED, 0.1), (RED, 0.2), (RED, 0.3)], [(BLUE, 0.5)], [(GREEN, 0.05)], [(RED, 0.85), (DARK, 0.4)],
    [(RED, 0.3), (BLUE, 0.3), (GREEN, 0.3)] * 3,
]
TINTED = "every translucent layer tints what is below"


def tint_of(report, ip, layers, text):
    data = [f"((0, 0), [Span('x', foreground=Color({(200, 200, 200)}), "
            f"background=Color({DARK}, is_background=True))])"]
    data += [f"((0, 0), [Span({text!r}, foreground=Color({(1, 1, 1)}), "
             f"background=Color({rgb}, is_background=True, alpha={alpha}))])"
             for rgb, alpha in layers]
    got = outcome(report, ip, TINTED, "Screen.write_bulk", STACK.format(data=", ".join(data)))
    if got is UNKNOWN or not isinstance(got, str):
        return got, None
    _, codes = Sheet().feed(got).cells.get((1, 1), ("", ()))
    out = {}
    for code in codes:
        parts = code.split(";")
        if parts[0] in ("38", "48") and len(parts) == 5:
            out[parts[0]] = tuple(map(int, parts[2:]))
    return got, out


def tinting(report):
    ip = constant_interp()
    for layers in TINTS:
        for text in (" ", "y"):
            for top in range(len(layers)):
                below, above = layers[:top], layers[:top + 1]
                _, one = tint_of(report, ip, below, text)
                got, two = tint_of(report, ip, above, text)
                detail = f"{two} over {one} with {above} as {text!r}"
                if one is None or two is None:
                    report.judge(None if got is UNKNOWN else False, TINTED, "Screen.write_bulk",
                                 f"{got!r} {detail}")
                    continue
                for code in ("38", "48") if text == " " else ("48",):
                    good = code in one and code in two and all(
                        (min(a, t) <= b <= max(a, t) and (abs(a - t) < 30 or b != a))
                        for a, b, t in zip(one[code], two[code], above[-1][0]))
                    report.judge(good, TINTED, "Screen.write_bulk", detail)
    report.count("known stacks", len(TINTS))
