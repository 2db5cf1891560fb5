"""C17: style codes and their parsed meaning are consistent inverses."""

from .spanlab import *  # noqa: F403

TECHNIQUE = "constant propagation and abstract interpretation of the parser, against a table"
RULE = """the parser is followed for every style, unset, reset and colour code, from the plain state
and from the state with everything set, alone and in every ordered pair (in one sequence and in
two), with unknown numbers in colour codes: each attribute of the resulting span is the one the
table of standard codes gives; every other number is rejected with ValueError, and sequences of unknown parts raise nothing else; what a style prints is parsed back to it"""
ASSUMPTIONS = ["malformed sequences: up to four parts of unknown characters"]

SET = {"1": "bold", "2": "dim", "3": "italic", "4": "underline", "5": "blink",
       "6": "fast_blink", "7": "invert", "8": "conceal", "9": "strike", "99": "opaque"}
UNSET = {"22": ("bold", "dim"), "23": ("italic",), "24": ("underline",),
         "25": ("blink", "fast_blink"), "26": ("fast_blink",), "27": ("invert",),
         "28": ("conceal",), "29": ("strike",), "39": ("foreground",), "49": ("background",)}
RESET = ("0", "")
COLORS = {  # code: layer, colour, alpha
    "30": ("foreground", PALETTE[0], 1.0), "37": ("foreground", PALETTE[7], 1.0),
    "41": ("background", PALETTE[1], 1.0), "47": ("background", PALETTE[7], 1.0),
    "90": ("foreground", PALETTE[8], 1.0), "97": ("foreground", PALETTE[15], 1.0),
    "100": ("background", PALETTE[8], 1.0), "107": ("background", PALETTE[15], 1.0),
    "38;5;0": ("foreground", PALETTE[0], 1.0), "38;5;123": ("foreground", PALETTE[123], 1.0),
    "48;5;255": ("background", PALETTE[255], 1.0), "48;5;1": ("background", PALETTE[1], 1.0),
    "38;2;1;2;3": ("foreground", (1, 2, 3), 1.0), "48;2;0;22;99": ("background", (0, 22, 99), 1.0),
    "38;5;123;0.5": ("foreground", PALETTE[123], 0.5), "41;0.25": ("background", PALETTE[1], 0.25),
    "48;2;7;8;9;0.5": ("background", (7, 8, 9), 0.5), "30;0.5": ("foreground", PALETTE[0], 0.5),
    "38;5;123;1.0": ("foreground", PALETTE[123], 1.0), "41;.5": ("background", PALETTE[1], 0.5),
    "31;0.0": ("foreground", PALETTE[1], 0.0), "104;0.5": ("background", PALETTE[12], 0.5),
    "97;0.75": ("foreground", PALETTE[15], 0.75),
    "48;5;200;0.25": ("background", PALETTE[200], 0.25),
    "38;2;255;0;1;0.75": ("foreground", (255, 0, 1), 0.75),
}
EVERYTHING = "1;2;3;4;5;6;7;8;9;99;38;2;10;20;30;48;2;40;50;60"

DRIVER = """
    from slate.span import Span
    def main({names}):
        return list(Span.yield_from({expr}))
"""


class State(dict):
    """The attributes in effect, by the table of standard codes."""

    def __init__(self, other=()):
        super().__init__({name: False for name in STYLES})
        self.update(foreground=None, background=None)
        self.update(other)

    def after(self, code):
        new = State(self)
        if code in RESET:
            return State()
        if code in SET:
            new[SET[code]] = True
        elif code in UNSET:
            for name in UNSET[code]:
                new[name] = None if name.endswith("ground") else False
        elif code in COLORS:
            layer, rgb, alpha = COLORS[code]
            new[layer] = (rgb, alpha)
        else:
            raise KeyError(code)
        return new


def everything():
    return State({**dict.fromkeys(STYLES, True), "foreground": ((10, 20, 30), 1.0),
                  "background": ((40, 50, 60), 1.0)})


def color_right(path, got, want, layer):
    """Does a field hold the colour (rgb, alpha), or none?"""

    if want is None:
        return got == NONE_V if isinstance(got, Term) else False
    if not isinstance(got, Obj):
        return False if got == NONE_V else None
    rgb, alpha = want
    checks = [same_value(path, field(got, "rgb"), Tup(
        [v if isinstance(v, Term) else Const(v) for v in rgb])),
        same_value(path, field(got, "alpha"), alpha if isinstance(alpha, Term) else Const(alpha)),
        known_bool(path, field(got, "is_background"))]
    if checks[2] is not None:
        checks[2] = checks[2] == (layer == "background")
    return False if False in checks else True if all(c is True for c in checks) else None


def judge_span(report, path, span, state, where_, label):
    if not isinstance(span, Obj):
        report.undecided("a code has its meaning", where_, f"{span!r} for {label}")
        return
    for name, want in state.items():
        got = span.fields.get(name)
        if name.endswith("ground"):
            right = color_right(path, got, want, name)
            what = "a colour code sets its layer to its colour, and nothing else does"
        else:
            got_bool = known_bool(path, got)
            right = None if got_bool is None else got_bool == want
            what = "a code turns on or off exactly the styles it stands for"
        report.judge(firm(path, right) if right is False else right, what, where_,
                     f"{name} is {got!r} instead of {want!r} after {label}")
    report.judge(same_field(path, span.fields.get("hyperlink"), Const("")),
                 "codes change nothing but styles", where_, f"hyperlink after {label}")


def follow(report, ip, expr, names, args, where_="Span.yield_from"):
    return attempt(report, ip, "parsing is followed", where_,
                   DRIVER.format(names=", ".join(names), expr=expr), args)


def judge_text(report, ip, text, state, label, where_="Span.yield_from", names=(), args=()):
    """The one span in `text` is in `state`."""

    for path in follow(report, ip, text, names, args):
        if path.status == "backedge":
            continue
        if path.status == "raise":
            report.judge(firm(path, False), "a code that stands for something is accepted", where_,
                         f"{raised_name(path)} for {label} when {path.describe()[:100]}")
            continue
        items = path.value.items if path.status == "return" and isinstance(
            path.value, LST) else None
        if items is None:
            report.undecided("a code that stands for something is accepted", where_,
                             f"{path.status} for {label}")
            continue
        report.ok("a code that stands for something is accepted", where_)
        if len(items) != 1:
            report.judge(firm(path, False), "a sequence is no text", where_,
                         f"{items!r} for {label}")
            continue
        got = state(path) if callable(state) else state
        judge_span(report, path, items[0], got, where_,
                   f"{label} when {path.describe()[:100]}")


def run(report):
    ip = span_interp(max_paths=3000)
    codes = [*SET, *UNSET, *RESET, *COLORS]
    starts = {"": State(), f"\x1b[{EVERYTHING}m": everything()}
    for before, state in starts.items():
        for code in codes:
            text = f"{before}\x1b[{code}mx"
            judge_text(report, ip, repr(text), state.after(code), repr(text))
    # ordered pairs, in one sequence and in two
    light = codes if THOROUGH else [*SET, *UNSET, "0", "", "30", "107", "38;5;123", "48;5;1",
                                    "38;2;1;2;3", "48;2;0;22;99", "41;0.25", "38;5;123;0.5",
                                    "104;0.5"]
    for one in light:
        for two in light:
            state = State().after(one).after(two)
            text = f"\x1b[{one};{two}mx"
            judge_text(report, ip, repr(text), state, repr(text))
            if THOROUGH or one in UNSET or two in UNSET or one in RESET or two in RESET:
                state = everything().after(one).after(two)
                for text in (f"\x1b[{EVERYTHING};{one}m\x1b[{two}mx",
                             f"\x1b[{EVERYTHING}m\x1b[{one};{two}mx"):
                    judge_text(report, ip, repr(text), state, repr(text))
    report.count("codes", len(codes))
    report.count("pairs of codes", len(light) ** 2)
    numbers(report, ip)
    unknown_numbers(report, ip)
    malformed(report, ip)
    printed(report, ip)


def numbers(report, ip):
    """Every number on its own."""

    known = set(SET) | set(UNSET) | set(RESET) | {
        str(n) for start in (30, 40, 90, 100) for n in range(start, start + 8)}
    for number in range(0, 300):
        code = str(number)
        if code in known:
            if code not in COLORS and code not in SET and code not in UNSET and code not in RESET:
                base = number - (number // 10 * 10)
                bright = number >= 90
                layer = "background" if number // 10 in (4, 10) else "foreground"
                state = State({layer: (PALETTE[base + 8 * bright], 1.0)})
                judge_text(report, ip, repr(f"\x1b[{code}mx"), state, f"code {code}")
            continue
        if code not in ("38", "48"):  # those begin a colour, and are nothing on their own
            nothing(report, ip, code)
            nothing(report, ip, f"1;{code};3")
            continue
        for path in follow(report, ip, repr(f"\x1b[{code}mx"), (), ()):
            if path.status == "raise":
                report.judge(True if raised_name(path) == "ValueError" else firm(path, False),
                             "a rejected sequence raises ValueError",
                             "Span.yield_from", f"{raised_name(path)} for {code}")
            elif path.status == "return" and isinstance(path.value, LST) and path.value.items:
                judge_span(report, path, path.value.items[0], State(), "Span.yield_from",
                           f"code {code} on its own")
    for code in ("a", "1a", " 1", "?25", "1:2", "4:3", "-1", "1.5", "x;1"):
        nothing(report, ip, code)
    report.count("numbers", 300)


def nothing(report, ip, code):
    for path in follow(report, ip, repr(f"\x1b[{code}mx"), (), ()):
        good = path.status == "raise" and raised_name(path) == "ValueError"
        report.judge(True if good else firm(path, False) if path.status in (
            "raise", "return") else None,
            "a code that stands for nothing is rejected with a ValueError", "Span.yield_from",
            f"{path.status} {raised_name(path)} for {code!r}")


def unknown_numbers(report, ip):
    """Colour codes with unknown numbers, among other codes."""

    nums = ints("r", "g", "b", lo=0, hi=255)
    names = ["r", "g", "b"]
    around = [("", ""), ("1;", ""), ("", ";4"), ("0;", ";22"), ("38;5;7;", ";48;5;8"),
              ("48;2;1;2;3;", ";30")]
    plans = [(names, "", "", "", 1.0)] + [
        ([free_], before, after, *alpha) for free_ in names for before, after in around
        for alpha in (("", 1.0), (";0.5", 0.5))
        if THOROUGH or free_ == "b" or not before]
    fixed = {"r": 30, "g": 1, "b": 22}
    for lead, layer in (("38", "foreground"), ("48", "background")):
        for free_, before, after, alpha, value in plans:
            state = State()
            if before:
                state = apply(state, before.strip(";"))
            rgb = tuple(n if n.name in free_ else fixed[n.name] for n in nums)
            state[layer] = (rgb, value)
            if after:
                state = apply(state, after.strip(";"))
            body = ";".join("{" + n + "}" if n in free_ else str(fixed[n]) for n in names)
            expr = f"f'\\x1b[{before}{lead};2;{body}{alpha}{after}mx'"
            judge_text(report, ip, expr, state, expr, names=names, args=nums)
            if "r" in free_ and state[layer] == (rgb, value):
                expr = f"f'\\x1b[{before}{lead};5;{{r}}{alpha}{after}mx'"
                judge_layer(report, ip, expr, state, layer, value, names, nums)
    for start, layer in ((30, "foreground"), (40, "background"), (90, "foreground"),
                         (100, "background")):
        for number in range(start, start + 8):
            for before, after in around[:4]:
                state = State()
                for code in filter(None, (before.strip(";"),)):
                    state = apply(state, code)
                state[layer] = (PALETTE[number - start + 8 * (start >= 90)], 1.0)
                for code in filter(None, (after.strip(";"),)):
                    state = apply(state, code)
                text = f"\x1b[{before}{number}{after}mx"
                judge_text(report, ip, repr(text), state, repr(text))


def apply(state, text):
    """Codes of a driver's constant part."""

    table = {"38;5;7": ("foreground", PALETTE[7]), "48;5;8": ("background", PALETTE[8]),
             "48;2;1;2;3": ("background", (1, 2, 3))}
    if text in table:
        layer, rgb = table[text]
        new = State(state)
        new[layer] = (rgb, 1.0)
        return new
    return state.after(text)


def judge_layer(report, ip, expr, state, layer, alpha, names, nums):
    """A palette colour of unknown index lands on its layer, the rest is as it was."""

    where_ = "Span.yield_from"
    for path in follow(report, ip, expr, names, nums):
        if path.status == "backedge":
            continue
        items = path.value.items if path.status == "return" and isinstance(
            path.value, LST) else None
        if items is None or len(items) != 1 or not isinstance(items[0], Obj):
            report.judge(firm(path, False) if path.status == "raise" else None,
                         "a code that stands for something is accepted", where_,
                         f"{path.status} {raised_name(path)} for {expr}")
            continue
        got = items[0].fields.get(layer)
        if isinstance(got, Obj):
            back = known_bool(path, field(got, "is_background"))
            right = None if back is None else back == (layer == "background")
            if right and same_value(path, field(got, "alpha"), Const(alpha)) is not True:
                right = same_value(path, field(got, "alpha"), Const(alpha))
        else:
            right = False if got == NONE_V else None
        report.judge(firm(path, right) if right is False else right,
                     "a colour code sets its layer to its colour, and nothing else does", where_,
                     f"{layer} is {got!r} after {expr} when {path.describe()[:100]}")
        rest = {k: v for k, v in state.items() if k != layer}
        judge_span(report, path, items[0], rest, where_, expr)


def malformed(report, ip):
    """Sequences of unknown parts raise nothing but ValueError."""

    plain = frozenset("0123456789.:?-+ abcxX_\u00b2")
    parts = [Sym(f"p{i}", STR, meta=Shape(plain, 0, 6)) for i in range(4)]
    names = [p.name for p in parts]
    shapes = ["p0", "38;p0", "48;5;p0", "1;p0", "p0;1", "38;2;1;2;p0", "30;p0", "38;5;7;p0"]
    if THOROUGH:
        shapes += ["p0;p1", "38;2;p0;p1", "38;2;p0;p1;p2", "38;p0;5;p1"]
    limit = ip.config.max_paths
    ip.config.max_paths = 600
    for form in shapes:
        body = "".join("{" + w + "}" if w.startswith("p") else w
                       for w in re.split(r"(p\d)", form))
        expr = f"f'\\x1b[{body}mx'"
        for path in follow(report, ip, expr, names, parts):
            if path.status == "raise":
                report.judge(True if raised_name(path) == "ValueError" else firm(path, False),
                             "a rejected sequence raises ValueError", "Span.yield_from",
                             f"{raised_name(path)} for {form} when {path.describe()[:200]}")
            elif path.status == "return":
                report.ok("a rejected sequence raises ValueError", "Span.yield_from")
    ip.config.max_paths = limit
    for text in ("38", "48;", ";", ";;", "38;5", "38;5;", "48;2;1", "48;2;1;2", "38;2;1;2;3;4",
                 "38;5;1;2", "38;7;1", "38;5;256", "38;2;1;2;256", "38;5;-1", "1.5", ".", "0.5",
                 "30;.", "30;.5", "30;1.5.2", "38;5;.5", "a", "1a", " 1", "\u00b2", "\u0661",
                 "3\u00b2", "38;5;\u00b2", "38;2;1;2;\u00b2", "1:2", "4:3", "58;5;1", "?25"):
        for path in follow(report, ip, repr(f"\x1b[{text}mx"), (), ()):
            if path.status == "raise":
                report.judge(True if raised_name(path) == "ValueError" else firm(path, False),
                             "a rejected sequence raises ValueError", "Span.yield_from",
                             f"{raised_name(path)} for {text!r}")
            elif path.status == "return":
                report.ok("a rejected sequence raises ValueError", "Span.yield_from")


def printed(report, ip):
    """What a span prints is parsed back to its styles."""

    for style in STYLES:
        state = State({style: True})
        judge_text(report, ip, f"str(Span('x', {style}=True))", state,
                   f"printing and parsing {style}", "Span.__str__")
    both = ", ".join(f"{s}=True" for s in STYLES)
    judge_text(report, ip, f"str(Span('x', {both}, reset_after=False))",
               State(dict.fromkeys(STYLES, True)), "printing and parsing all styles",
               "Span.__str__")
