"""C11: colour codes fit the active colour space and the colour's layer."""

import math

from .colorlab import *  # noqa: F403

TECHNIQUE = "abstract interpretation with intervals over colour templates and colour spaces"
RULE = """for colours made in every way (channels, hexadecimal, palette, standard and true colour
descriptions with unknown numbers, and everything derived from them) and every colour space, the
code is computed abstractly: on every path it is put together as one of the forms the space allows,
with the lead of the colour's layer, every number in it has an interval within the form's range,
true colour channels are the colour's own, and a description the space supports is the code"""
ASSUMPTIONS = ["interval ends of floating point results are exact to 1e-6",
               "alpha values are decimals"]

SPACES = ("NO_COLOR", "STANDARD", "EIGHT_BIT", "TRUE_COLOR")

DRIVER = """
    from slate.color import Color, color
    from slate.core import ColorSpace
    from slate.terminal import terminal
    def main({params}):
        terminal.color_space = ColorSpace.{space}
        c = {expr}
        {derive}
        return (c, c.ansi)
"""

NUM = "([0-9]+|[\ue000-\uf8ff])"
EPS = 1e-6


def bounded(name, hi):
    def stub(ip, args, kwargs, node):
        return Sym(ip.fresh(name), FLOAT, lo=0, hi=hi)
    return stub


UNIT = {"calculate_luminance": bounded("calculate_luminance", 1.0),
        "calculate_brightness": bounded("calculate_brightness", 1.0)}

BYTES = dict(lo=0, hi=255)

# name, expression, parameters, the code given (per space that supports it)
SOURCES = [
    ("channels", "Color((r, g, b), is_background=bg, alpha=al)", {**dict.fromkeys("rgb", BYTES)},
     None, ()),
    ("hexadecimal", "color(f'#{r:02x}{g:02x}{b:02x}')", dict.fromkeys("rgb", BYTES), None, ()),
    ("a tuple", "color((r, g, b))", dict.fromkeys("rgb", BYTES), None, ()),
    ("a name", "color('tomato')", {}, None, ()),
    ("the standard white", "Color.white(bg)", {}, None, ()),
    ("the standard black", "Color.black(bg)", {}, None, ()),
]
SOURCES += [
    ("standard code from 30 with alpha, directly", "Color.from_ansi(f'{n};' + a)",
     {"n": dict(lo=30, hi=37)}, lambda env: [env["n"]], SPACES[1:]),
    ("a palette index from 16 with alpha, directly", "Color.from_ansi(f'{n};' + a)",
     {"n": dict(lo=16, hi=29)}, None, ()),
]
for _lead in ("38", "48"):
    SOURCES += [
        (f"{_lead};5;n with alpha, directly", f"Color.from_ansi(f'{_lead};5;{{n}};' + a)",
         {"n": BYTES}, lambda env, lead=_lead: [Const(f"{lead};5;"), env["n"]],
         ("EIGHT_BIT", "TRUE_COLOR")),
        (f"{_lead};2;r;g;b with alpha, directly",
         f"Color.from_ansi(f'{_lead};2;{{r}};{{g}};{{b}};' + a)", dict.fromkeys("rgb", BYTES),
         lambda env, lead=_lead: [Const(f"{lead};2;"), env["r"], Const(";"), env["g"],
                                  Const(";"), env["b"]], ("TRUE_COLOR",)),
        (f"{_lead};5;n", f"color(f'{_lead};5;{{n}}')", {"n": BYTES},
         lambda env, lead=_lead: [Const(f"{lead};5;"), env["n"]], ("EIGHT_BIT", "TRUE_COLOR")),
        (f"{_lead};5;n with alpha", f"color(f'{_lead};5;{{n}};' + a)", {"n": BYTES},
         lambda env, lead=_lead: [Const(f"{lead};5;"), env["n"]], ("EIGHT_BIT", "TRUE_COLOR")),
        (f"{_lead};2;r;g;b", f"color(f'{_lead};2;{{r}};{{g}};{{b}}')", dict.fromkeys("rgb", BYTES),
         lambda env, lead=_lead: [Const(f"{lead};2;"), env["r"], Const(";"), env["g"],
                                  Const(";"), env["b"]], ("TRUE_COLOR",)),
        (f"{_lead};2;r;g;b with alpha", f"color(f'{_lead};2;{{r}};{{g}};{{b}};' + a)",
         dict.fromkeys("rgb", BYTES),
         lambda env, lead=_lead: [Const(f"{lead};2;"), env["r"], Const(";"), env["g"],
                                  Const(";"), env["b"]], ("TRUE_COLOR",)),
    ]
for _low in (30, 40, 90, 100):
    for _tail, _said in (("f'{n}'", ""), ("f'{n};' + a", " with alpha")):
        SOURCES.append((f"standard code from {_low}{_said}", f"color({_tail})",
                        {"n": dict(lo=_low, hi=_low + 7)}, lambda env: [env["n"]],
                        SPACES[1:]))
for _low, _high in ((0, 29), (38, 39), (48, 89), (98, 99), (108, 255)):
    SOURCES.append((f"a palette index from {_low}", "color(f'{n}')",
                    {"n": dict(lo=_low, hi=_high)}, None, ()))

DERIVED = ["as_background()", "as_background(False)", "as_background(True, 0.5)", "as_alpha(0.5)",
           "lighten(2)", "darken(3)", "hue_shift(0.3)", "complement", "contrast",
           "blend(Color((r2, g2, b2), is_background=True), 0.4)", "blend_complement(0.2)",
           "triadic_group[1]", "analogous_group[2]", "tetradic_group[3]"]


def numbers(path, holes, text):
    """Interval and value of a number within a code."""

    if text.isdigit():
        return float(text), float(text), Const(int(text))
    term = holes.back(text)
    if isinstance(term, App) and term.op == "str":
        low, high = path.facts.interval(term.args[0])
        return low, high, term.args[0] if ty_of(term.args[0]) == INT else None
    if isinstance(term, App) and term.op == "fmt":
        low, high = path.facts.interval(term.args[0])
        spec = term.args[1].val if isinstance(term.args[1], Const) else ""
        if spec in ("d", ""):
            return low, high, term.args[0]
        if spec == ".0f":
            return (round(low) if math.isfinite(low) else low,
                    round(high) if math.isfinite(high) else high, None)
    return -math.inf, math.inf, None


def within(low, high, *ranges):
    """True/False/None: an interval lies in one of the ranges."""

    for lo, hi in ranges:
        if lo - EPS <= low and high <= hi + EPS:
            return True
    if all(high < lo or low > hi for lo, hi in ranges):
        return False
    # attained ends: the bounds are those of free inputs
    return None


def judge_code(report, path, name, space, code, col, where_="Color.ansi"):
    background = known_bool(path, field(col, "is_background"))
    detail = f"{code!r} for {name} in {space} when {path.describe()[:300]}"
    if background is None:
        report.undecided("the layer of the colour is known", where_, detail)
        return
    holes = Holes(code)
    text = holes.text
    lead = "48" if background else "38"
    hit5 = re.fullmatch(f"([0-9]+);5;{NUM}", text)
    hit2 = re.fullmatch(f"([0-9]+);2;{NUM};{NUM};{NUM}", text)
    hit1 = re.fullmatch(NUM, text)
    if not (hit5 or hit2 or hit1):
        vague = any(not (t == ALPHA or isinstance(t, App) and t.op in ("str", "fmt"))
                    for t in holes.terms)
        report.judge(None if vague else False, "a code has one of the known forms", where_, detail)
        return
    report.ok("a code has one of the known forms", where_)
    if hit5 or hit2:
        report.judge((hit5 or hit2).group(1) == lead, "a code is on the colour's layer", where_,
                     detail)
    if hit5:
        low, high, _ = numbers(path, holes, hit5.group(2))
        allowed = {"NO_COLOR": [(232, 255)], "STANDARD": [], "EIGHT_BIT": [(0, 255)],
                   "TRUE_COLOR": [(0, 255)]}[space]
        if not allowed:
            report.judge(firm(path, False), "the form is one the space allows", where_, detail)
            return
        report.judge(attained(path, within(low, high, *allowed), low, high, allowed),
                     "a palette index is in range", where_, f"[{low}, {high}] {detail}")
    elif hit2:
        report.judge(firm(path, space == "TRUE_COLOR"), "the form is one the space allows",
                     where_, detail)
        rgb = field(col, "rgb")
        for pos in range(3):
            low, high, term = numbers(path, holes, hit2.group(2 + pos))
            report.judge(within(low, high, (0, 255)), "a channel is in range", where_, detail)
            want = rgb.items[pos] if isinstance(rgb, Tup) else None
            report.judge(None if term is None or want is None else same_value(path, term, want),
                         "a true colour code has the colour's channels", where_,
                         f"{term!r} is not {want!r}: {detail}")
    else:
        low, high, _ = numbers(path, holes, hit1.group(1))
        report.judge(firm(path, space != "NO_COLOR"), "the form is one the space allows", where_,
                     detail)
        ranges = [(40, 47), (100, 107)] if background else [(30, 37), (90, 97)]
        good = within(low, high, *ranges)
        report.judge(attained(path, good, low, high, ranges),
                     "a standard code is in the ranges of the colour's layer", where_,
                     f"[{low}, {high}] {detail}")


def attained(path, good, low, high, ranges):
    """An interval that reaches out of the ranges is a failure when its ends are attained."""

    if good is not None:
        return good
    if not trusted(path) or not math.isfinite(low) or not math.isfinite(high):
        return None
    return False


def given_code(report, path, name, space, code, given, params):
    want = given({p: App("str", (unknown(p, bounds),), STR) for p, bounds in params.items()})
    parts = text_parts(code)
    flat = []
    for part in want:
        flat += text_parts(part)
    if len(parts) == len(flat) and all(same(a, b) for a, b in zip(parts, flat)):
        report.ok("a supported description is its own code", "Color.ansi")
        return
    known = None
    if len(parts) == len(flat):
        same_ = [same(a, b) or (isinstance(a, App) and isinstance(b, App) and a.op == b.op == "str"
                                and path.facts.eq_implied(a.args[0], b.args[0]))
                 for a, b in zip(parts, flat)]
        known = True if all(s is True for s in same_) else None
    if known is None and all(isinstance(p, Const) or p == ALPHA or (isinstance(p, App) and p.op in (
            "str", "fmt")) for p in parts):
        known = firm(path, False)
    report.judge(known, "a supported description is its own code", "Color.ansi",
                 f"{code!r} for {name} in {space} when {path.describe()[:300]}")


def unknown(name, bounds):
    # symbols of one name are the same value: the name carries the bounds
    return Sym(f"{name}{bounds['lo']}to{bounds['hi']}", INT, **bounds)


def explore(report, ip, name, expr, params, space, derive="", given=None):
    def args(machine):
        assume_alpha(machine)
        return [ALPHA, Sym("bg", BOOL), Sym("al", FLOAT), *ints("r2", "g2", "b2", lo=0, hi=255)
                ] + [unknown(p, bounds) for p, bounds in params.items()]

    results = attempt(report, ip, f"codes in {space} are followed", "Color.ansi", DRIVER.format(
        params=", ".join(["a", "bg", "al", "r2", "g2", "b2", *params]), space=space, expr=expr,
        derive=f"c = c.{derive}" if derive else ""), args)
    done = 0
    for path in results:
        label = f"{name}.{derive}" if derive else name
        if path.status == "raise":
            if derive:
                report.undecided("a derived colour exists (see C12)", "Color",
                                 f"{label} {raised_name(path)}")
                continue
            report.judge(firm(path, False), "every colour has a code", "Color.ansi",
                         f"{raised_name(path)} for {label} in {space} when "
                         f"{path.describe()[:300]}")
            continue
        if path.status == "backedge":
            continue
        if path.status != "return" or not isinstance(path.value, Tup):
            report.undecided("a code is followed", "Color.ansi", f"{label} {path.status}")
            continue
        done += 1
        col, code = path.value.items
        judge_code(report, path, label, space, code, col)
        if given is not None:
            given_code(report, path, label, space, code, given, params)
    if not done:
        report.undecided("a code is followed", "Color.ansi", f"{name} in {space}")


def identities(report):
    """Colours the space has itself, followed as constants."""

    ip = driver.interp(stubs={"get_default_color": color_result_stub("default")}, max_paths=60)
    cases = [("STANDARD", rgb, num, str((30 if num < 8 else 82) + num))
             for num, rgb in enumerate(VGA)]
    corners = [(r, g, b) for r in (0, 255) for g in (0, 255) for b in (0, 255)]
    cases += [("EIGHT_BIT", rgb, None, f"5;{PALETTE.index(rgb, 16)}") for rgb in corners]
    cases += [("NO_COLOR", (0, 0, 0), None, "5;232"), ("NO_COLOR", (255,) * 3, None, "5;255")]
    for space, rgb, num, want in cases:
        for back in (False, True):
            results = driver.run(ip, f"""
                from slate.color import Color
                from slate.core import ColorSpace
                from slate.terminal import terminal
                def main():
                    terminal.color_space = ColorSpace.{space}
                    return Color({rgb}, is_background={back}).ansi
                """, [])
            report.saw(ip, results)
            code = str(int(want) + 10 * back) if num is not None else f"{38 + 10 * back};{want}"
            for path in results:
                if path.status == "backedge":
                    continue
                val = path.value if path.status == "return" else None
                known = None
                if isinstance(val, Const):
                    known = val.val == code
                elif val is not None and len(text_parts(val)) > 1:
                    known = None
                report.judge(known, "a colour the space has is that entry", "Color.ansi",
                             f"{val!r} instead of {code} for {rgb} in {space}")


def luminance(report):
    """Luminance and brightness of every colour lie between 0 and 1."""

    ip = driver.interp(stubs={"get_default_color": color_result_stub("default")},
                       max_paths=400)
    results = driver.run(ip, """
        from slate.color import Color
        def main(r, g, b):
            c = Color((r, g, b))
            return (c.luminance, c.brightness)
        """, ints("r", "g", "b", lo=0, hi=255))
    report.saw(ip, results)
    for path in results:
        if path.status != "return" or not isinstance(path.value, Tup):
            report.undecided("luminance is followed", "Color", path.status)
            continue
        for what, val in zip(("luminance", "brightness"), path.value.items):
            low, high = path.facts.interval(val)
            report.judge(True if -EPS <= low and high <= 1 + EPS else None,
                         f"the {what} is between 0 and 1", "Color",
                         f"[{low}, {high}] when {path.describe()[:200]}")
    return ip


def run(report):
    luminance(report)
    identities(report)
    ip = make_interp(stubs=UNIT, max_paths=600)
    driver.find(ip, "slate.core", "ColorSpace")
    for space in SPACES:
        for name, expr, params, given, supported in SOURCES:
            explore(report, ip, name, expr, params, space,
                    given=given if space in supported else None)
        some = SOURCES if THOROUGH else [s for s in SOURCES if s[0] in (
            "channels", "48;5;n", "38;2;r;g;b", "standard code from 40",
            "standard code from 90", "a palette index from 48")]
        for name, expr, params, _, _ in some:
            for derive in DERIVED:
                explore(report, ip, name, expr, params, space, derive)
