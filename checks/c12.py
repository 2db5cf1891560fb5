"""C12: derived colours stay valid and on the same layer."""

import colorsys

from .colorlab import *  # noqa: F403
from .known import table

TECHNIQUE = "abstract interpretation with intervals over symbolic colours and amounts"
RULE = """every derivation is followed from a colour with unknown channels, layer and alpha by an
unknown amount (and, as constants, from the colours at the ends of every channel by amounts around
and outside the ordinary range): no path raises, each channel of the result is an integer whose
interval lies within 0 to 255, the layer is the term the source's layer is, and channels, layer and
alpha that are to be kept are the source's own"""
ASSUMPTIONS = ["amounts are finite and short of floating-point overflow",
               "colorsys conversions of values within 0 to 1 stay within 0 to 1"]

DRIVER = """
    from slate.color import Color, color, calculate_contrast
    def main(r, g, b, r2, g2, b2, bg, al, x, n, s):
        c = {source}
        d = {other}
        return (c, d, {expr})
"""

SOURCES = ["Color((r, g, b), is_background=bg, alpha=al)",
           "Color.from_hex(f'#{r:02x}{g:02x}{b:02x}', al).as_background(bg)",
           "color(f'48;2;{r};{g};{b}')", "color('48;5;200')", "color('95')"]
OTHER = "Color((r2, g2, b2), is_background=s)"

# expression, layer ("c" or a value), alpha kept?, channels kept from
DERIVED = [
    ("c.lighten(n)", "c", None, None), ("c.lighten(n, x)", "c", None, None),
    ("c.darken(n)", "c", None, None), ("c.darken(n, x)", "c", None, None),
    ("c.blend(d, x)", "c", None, None), ("c.blend(d, x, True)", True, None, None),
    ("c.blend(d, x, False)", False, None, None),
    ("c.blend(d, x, is_background=s)", "s", None, None),
    ("c.blend(d, 0.0)", "c", None, "c"), ("c.blend(d, 1.0)", "c", None, "d"),
    ("c.lighten(0)", "c", None, "c"), ("c.darken(0)", "c", None, "c"),
    ("c.hue_shift(x)", "c", "c", None), ("c.complement", "c", "c", None),
    ("c.blend_complement(x)", "c", None, None), ("c.blend_complement(0)", "c", None, "c"),
    ("c.contrast", "c", None, None), ("calculate_contrast(c, d)", "c", None, None),
    ("calculate_contrast(c, black=d)", "c", None, None),
    ("calculate_contrast(c, d, Color.black(s))", "c", None, None),
    *((f"c.triadic_group[{i}]", "c", "c", "c" if not i else None) for i in range(3)),
    *((f"c.analogous_group[{i}]", "c", "c", "c" if not i else None) for i in range(3)),
    *((f"c.tetradic_group[{i}]", "c", "c", "c" if not i else None) for i in range(4)),
    ("c.as_alpha(x)", "c", "x", "c"), ("c.as_alpha(0)", "c", "0", "c"),
    ("Color.white(s)", "s", None, 255), ("Color.black(s)", "s", None, 0),
    ("Color.white()", False, None, 255), ("Color.black()", False, None, 0),
    ("c.as_background()", True, "c", "c"),
    ("c.as_background(True)", True, "c", "c"), ("c.as_background(False)", False, "c", "c"),
    ("c.as_background(s)", "s", "c", "c"), ("c.as_background(s, x)", "s", "x", "c"),
    ("c.as_background(True, 0.0)", True, "0", "c"),
    ("c.as_background(alpha=x)", True, "x", "c"),
]
LENGTHS = (("triadic_group", 3), ("analogous_group", 3), ("tetradic_group", 4))


def same_flag(path, one, two):
    if isinstance(one, Term) and isinstance(two, Term) and one == two:
        return True
    if isinstance(one, Term) and isinstance(two, Term) and path.facts.eq_implied(
            one, two) is not None:
        return path.facts.eq_implied(one, two)
    left, right = known_bool(path, one), known_bool(path, two)
    return None if left is None or right is None else left == right


def judge(report, path, expr, layer, alpha, keeps, args, label):
    names = dict(zip(("r", "g", "b", "r2", "g2", "b2", "bg", "al", "x", "n", "s"), args))
    detail = f"{label} when {path.describe()[:260]}"
    if path.status == "raise":
        if raised_name(path) == "OverflowError":
            return
        report.judge(firm(path, False), "a derivation never fails", f"Color: {expr}",
                     f"{raised_name(path)} for {detail}")
        return
    if path.status == "backedge":
        return
    if path.status != "return" or not isinstance(path.value, Tup):
        report.undecided("a derivation is followed", f"Color: {expr}", path.status)
        return
    report.ok("a derivation never fails", f"Color: {expr}")
    base, other, out = path.value.items
    rgb = field(out, "rgb")
    if not isinstance(rgb, Tup):
        report.undecided("a derived colour has three channels", f"Color: {expr}", repr(rgb))
        return
    report.judge(len(rgb.items) == 3, "a derived colour has three channels", f"Color: {expr}",
                 repr(rgb)[:200])
    for chan in rgb.items:
        whole = ty_of(chan) == INT if isinstance(chan, Term) else None
        if isinstance(chan, Const):
            whole = isinstance(chan.val, int)
        report.judge(whole if whole or ty_of(chan) == FLOAT else None,
                     "a channel is an integer", f"Color: {expr}", f"{chan!r} for {detail}")
        low, high = path.facts.interval(chan)
        inside = True if low >= 0 and high <= 255 else False if low > 255 or high < 0 else None
        report.judge(inside, "a channel is between 0 and 255", f"Color: {expr}",
                     f"[{low}, {high}] for {detail}")
    got = field(out, "is_background")
    want = {"c": field(base, "is_background"), "s": names["s"], True: TRUE, False: FALSE}[layer]
    known = same_flag(path, got, want)
    if known is None and isinstance(got, (Const, Sym)) and isinstance(want, (Const, Sym)):
        known = False  # a fixed layer, or another input's
    report.judge(known, "a derived colour is on the layer asked for", f"Color: {expr}",
                 f"{got!r} instead of {want!r} for {detail}")
    if alpha is not None:
        want = field(base, "alpha") if alpha == "c" else names["x"] if alpha == "x" else Const(0)
        got = field(out, "alpha")
        known = same_value(path, got, want)
        report.judge(known, "alpha is kept or as asked for", f"Color: {expr}",
                     f"{got!r} instead of {want!r} for {detail}")
    if keeps is not None:
        want = Tup((Const(keeps),) * 3) if isinstance(keeps, int) else field(
            base if keeps == "c" else other, "rgb")
        known = same_value(path, rgb, want)
        report.judge(known, "channels are kept", f"Color: {expr}",
                     f"{rgb!r} instead of {want!r} for {detail}")


def towards(report, ip, args):
    """Lightening by a share never lowers a channel, darkening never raises one, and blending by
    a share stays between both colours."""

    args = list(args)
    args[8] = Sym("x01", FLOAT, lo=0, hi=1)
    args[9] = Sym("npos", INT, lo=0, hi=1000)
    source = SOURCES[0]
    for expr, bound in (("c.lighten(n, x)", "up"), ("c.darken(n, x)", "down"),
                        ("c.lighten(n)", "up"), ("c.darken(n)", "down"),
                        ("c.lighten(1)", "up"), ("c.darken(1)", "down")):
        results = attempt(report, ip, "shades are followed", f"Color: {expr}",
                          DRIVER.format(source=source, other=OTHER, expr=expr), args)
        for path in results:
            if path.status != "return" or not isinstance(path.value, Tup):
                continue
            base, _, out = path.value.items
            olds, news = field(base, "rgb"), field(out, "rgb")
            if not isinstance(olds, Tup) or not isinstance(news, Tup):
                continue
            for old, new in zip(olds.items, news.items):
                low, high = (old, new) if bound == "up" else (new, old)
                report.judge(at_most(path, low, high), f"a shade goes {bound}",
                             f"Color: {expr}", f"{new!r} from {old!r}")


PROPORTION = """
    from slate.color import Color
    def main(r, g, b, r2, g2, b2, bg, al, x, n, s):
        c, d = Color((r, g, b), is_background=bg), Color((r2, g2, b2), is_background=s)
        def part(one, two):
            return min(max(int(one + (two - one) * x), 0), 255)
        return (c.blend(d, x), (part(r, r2), part(g, g2), part(b, b2)))
"""


def proportion(report, ip, args):
    """Blending by a share gives channels in proportion."""

    what, where_ = "blending mixes the channels in proportion", "Color: c.blend(d, x)"
    args = list(args)
    args[8] = Sym("x01", FLOAT, lo=0, hi=1)
    for path in attempt(report, ip, what, where_, PROPORTION, args):
        if path.status != "return" or not isinstance(path.value, Tup):
            continue
        out, wants = path.value.items
        news = field(out, "rgb")
        if not isinstance(news, Tup):
            continue
        for got, want in zip(news.items, wants.items):
            report.judge(path.facts.eq_implied(got, want) or None, what, where_,
                         f"{got!r} instead of {want!r}")


def numbers(path, val):
    rgb = field(val, "rgb") if isinstance(val, Obj) else None
    if isinstance(rgb, Tup) and all(isinstance(v, Const) for v in rgb.items):
        return [v.val for v in rgb.items]
    return None


def known_shades(report, solid):
    """Shades and blends of known colours."""

    plain = [Const(v) for v in (False, 0.5, 0.0, 0, True)]
    for rgb, other in zip(COLOURS, COLOURS[5:] + COLOURS[:5]):
        for count in (0, 1, 2, 5, 9, 10, 14, 40):
            for expr, sign in (("c.lighten(n)", 1), ("c.darken(n)", -1),
                               ("c.lighten(n, 0.03)", 1), ("c.darken(n, 0.03)", -1)):
                vals = [*map(Const, (*rgb, *other)), *plain]
                vals[9] = Const(count)
                for path in attempt(report, solid, "shades are followed", f"Color: {expr}",
                                    DRIVER.format(source=SOURCES[0], other=OTHER, expr=expr),
                                    vals):
                    news = numbers(path, path.value.items[2]) if path.status == "return" \
                        and isinstance(path.value, Tup) else None
                    report.judge(None if news is None else all(
                        (new - old) * sign >= 0 for old, new in zip(rgb, news)),
                        f"a shade goes {'up' if sign > 0 else 'down'}", f"Color: {expr}",
                        f"{news} from {rgb} with {count}")
        for share in (0.0, 0.1, 0.25, 0.5, 0.8, 0.95, 1.0):
            vals = [*map(Const, (*rgb, *other)), *plain]
            vals[8] = Const(share)
            expr = "c.blend(d, x)"
            for path in attempt(report, solid, "shades are followed", f"Color: {expr}",
                                DRIVER.format(source=SOURCES[0], other=OTHER, expr=expr), vals):
                news = numbers(path, path.value.items[2]) if path.status == "return" \
                    and isinstance(path.value, Tup) else None
                report.judge(None if news is None else all(
                    abs(new - (old + (two - old) * share)) < 1 + 1e-6
                    for old, two, new in zip(rgb, other, news)),
                    "blending mixes the channels in proportion", f"Color: {expr}",
                    f"{news} from {rgb} and {other} by {share}")


def at_most(path, low, high):
    """True when low <= high follows; None otherwise."""

    atom = path.facts.lin_atom(low, high, False)
    if isinstance(atom, bool):
        return atom or None
    if atom[0] != "p" and path.facts.lin_implied(atom):
        return True
    for one, two, way in ((low, high, "min"), (high, low, "max")):
        # min(.., v) <= v and the like, piece by piece
        if isinstance(one, App) and one.op == way and any(
                at_most(path, *((a, two) if way == "min" else (two, a))) for a in one.args):
            return True
    other = high if isinstance(high, App) and high.op == "min" else None
    if other is not None and all(at_most(path, low, a) for a in other.args):
        return True
    other = low if isinstance(low, App) and low.op == "max" else None
    if other is not None and all(at_most(path, a, high) for a in other.args):
        return True
    return whole_at_most(path, low, high)


def whole_at_most(path, low, high):
    """a <= int(x) from a <= x for whole a >= 0, and int(x) <= a from x <= a for x >= 0."""

    if isinstance(high, App) and high.op in ("int", "trunc") and ty_of(low) == INT:
        return True if path.facts.interval(low)[0] >= 0 and real_at_most(
            path, low, high.args[0]) else None
    if isinstance(low, App) and low.op in ("int", "trunc") and ty_of(high) == INT:
        return True if real_at_most(path, low.args[0], high) and path.facts.interval(
            high)[0] >= 0 else None
    return None


def real_at_most(path, low, high):
    from absint.facts import lin_of, mk_lin
    left, right = lin_of(low), lin_of(high)
    if left is None or right is None:
        return False
    diff = dict(right[1])
    for term, coef in left[1].items():
        diff[term] = diff.get(term, 0) - coef
    total = float(right[0] - left[0])
    for term, coef in diff.items():
        if not coef:
            continue
        lo, hi = path.facts.interval(term)
        total += float(coef) * (lo if coef > 0 else hi)
    return total >= 0


COLOURS = [(255, 255, 255), (0, 0, 0), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0),
           (1, 2, 3), (254, 253, 255), (128, 128, 128), (200, 100, 50), (35, 35, 35), (7, 250, 90)]
AMOUNTS = [(0.0, 0), (0.5, 3), (1.0, 10), (1.7, 25), (-0.4, -4), (-30.25, -40), (1e6, 10 ** 6)]


def hues(report, ip):
    """Known colours with their hue moved round the circle."""

    def moved(rgb, amount):
        hue, light, full = colorsys.rgb_to_hls(*(v / 255 for v in rgb))
        want = [255 * v for v in colorsys.hls_to_rgb((hue + amount) % 1, light, full)]
        return lambda got: len(got) == 3 and all(abs(g - w) <= 4 for g, w in zip(got, want))

    what = "the hue is moved by the amount, round the circle"
    rows = []
    for rgb in ((200, 100, 50), (7, 250, 90), (20, 40, 220), (250, 10, 120), (128, 128, 128)):
        made = f"Color({rgb})"
        rows += [(what, "Color.hue_shift", f"{made}.hue_shift({amount}).rgb", moved(rgb, amount))
                 for amount in (0, 0.125, 0.5, 0.75, 0.999, 1.25, -0.25, -0.75, -3.5, 7)]
        if len(set(rgb)) > 1:
            rows += [(what, "Color.complement", f"{made}.complement.rgb", moved(rgb, 0.5))]
            rows += [(what, f"Color.{name}", f"{made}.{name}[{n}].rgb", moved(rgb, n / size))
                     for name, size in (("triadic_group", 3), ("tetradic_group", 4))
                     for n in range(size)]
    table(report, ip, "\n    from slate.color import Color\n", rows)


def run(report):
    ip = make_interp(max_paths=300)
    args = [*ints("r", "g", "b", lo=0, hi=255), *ints("r2", "g2", "b2", lo=0, hi=255),
            Sym("bg", BOOL), Sym("al", FLOAT), Sym("x", FLOAT), Sym("n", INT), Sym("s", BOOL)]
    for source in SOURCES:
        for expr, layer, alpha, keeps in DERIVED:
            for path in attempt(report, ip, "derivations are followed", f"Color: {expr}",
                                DRIVER.format(source=source, other=OTHER, expr=expr), args):
                judge(report, path, expr, layer, alpha, keeps, args, f"{expr} of {source}")
    towards(report, ip, args)
    proportion(report, ip, args)
    for name, size in LENGTHS:
        for path in driver.run(ip, DRIVER.format(source=SOURCES[0], other=OTHER,
                                                 expr=f"c.{name}"), args):
            val = path.value.items[2] if isinstance(path.value, Tup) else None
            report.judge(len(val.items) == size if isinstance(val, Tup) else None,
                         "a group has all its colours", f"Color.{name}", repr(val)[:200])
    solid = driver.interp(stubs={"get_default_color": color_result_stub("default")}, max_paths=80)
    known_shades(report, solid)
    hues(report, solid)
    pairs = list(zip(COLOURS, COLOURS[5:] + COLOURS[:5]))
    amounts = AMOUNTS if THOROUGH else AMOUNTS[1:5] + AMOUNTS[6:]
    for rgb, other in pairs if THOROUGH else pairs[:8]:
        for num, (amount, count) in enumerate(amounts):
            vals = [Const(v) for v in (*rgb, *other, num % 2 == 0, 0.5, amount, count, True)]
            for expr, layer, alpha, keeps in DERIVED:
                if num and not any(v in expr for v in ("n)", "n,", "x")):
                    continue
                for path in attempt(report, solid, "constant derivations are followed",
                                    f"Color: {expr}",
                                    DRIVER.format(source=SOURCES[0], other=OTHER, expr=expr),
                                    vals):
                    judge(report, path, expr, layer, alpha, keeps, vals,
                          f"{expr} of {rgb} with {other}, {amount}, {count}")
