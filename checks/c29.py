"""C29: colors a space does not have are shown by the nearest it has."""

from .common import *  # noqa: F403
from .colorlab import *  # noqa: F403
from .known import UNKNOWN, constant_interp, outcome

TECHNIQUE = "constant propagation over all channel values; abstract interpretation of the choice"
RULE = """for every value of every channel the level of the 256-color palette's cube that the code
has for it is the nearest of the six (taken as evenly spaced); for a spread of colors the standard
code is that of an entry with the least (redmean) distance, of all sixteen, and
the greyscale index is the one nearest to the color's brightness; on every path of an arbitrary
color's code the standard entry is chosen among all sixteen by that measure from the color's own
channels, and each level is computed from the channel of that place alone"""
ASSUMPTIONS = ["the distance is the weighted Euclidean (redmean) one the library's code cites"]
HEAD = """
    from slate.terminal import terminal
    from slate.core import ColorSpace
    from slate.color import Color
    def main(stream):
"""
SPREAD = [(r, g, b) for r in (3, 70, 131, 200, 254) for g in (0, 64, 127, 192, 250)
          for b in (5, 90, 128, 180, 255)]


def codes(report, ip, what, space, colors, back=False, also="None"):
    """[(color, code, more)] where known."""

    out = []
    for start in range(0, len(colors), 32):
        some = colors[start:start + 32]
        got = outcome(report, ip, what, "Color.ansi", HEAD + f"""
        terminal.color_space = ColorSpace.{space}
        out = []
        for rgb in {some!r}:
            c = Color(rgb, is_background={back})
            out.append((c.ansi, {also}))
        return out
""")
        if got is UNKNOWN or got[:1] == ("raised",):
            report.judge(None if got is UNKNOWN else False, what, "Color.ansi",
                         f"{got!r} for {some[0]}, ... in {space}")
            continue
        out += [(color, *item) for color, item in zip(some, got)]
    report.count("known colors", len(out))
    return out


def number(code, lead):
    """The palette index of a 256-color code."""

    head, _, rest = str(code).rpartition(";")
    return int(rest) if head == f"{lead};5" and rest.isdigit() else None


def cube(report, ip):
    what = "each channel is shown by the nearest level of the palette's cube"
    colors = [(v, 255 - v, v * 7 % 256) for v in range(256)] + [
        (v, v, v) for v in range(0, 256, 3)]
    for back in (False, True):
        for rgb, code, _ in codes(report, ip, what, "EIGHT_BIT", colors if not back
                                  else colors[::37], back):
            index = number(code, 48 if back else 38)
            if index is None or not 16 <= index < 232:
                report.judge(False, what, "Color.ansi", f"{code!r} for {rgb}")
                continue
            levels = ((index - 16) // 36, (index - 16) // 6 % 6, (index - 16) % 6)
            good = all(abs(5 * c / 255 - lvl) <= 0.5 for c, lvl in zip(rgb, levels))
            report.judge(good, what, "Color.ansi", f"{code!r}, levels {levels}, for {rgb}")


def standard(report, ip):
    what = "the standard code is that of the nearest entry"
    entries = PALETTE[:16]
    colors = SPREAD + borderline(entries)
    for back in (False, True):
        for rgb, code, _ in codes(report, ip, what, "STANDARD", colors if not back
                                  else colors[::9], back):
            far = [distance(rgb, entry) for entry in entries]
            try:
                num = int(code) - 10 * back
                num = num - 30 if 30 <= num < 38 else num - 82 if 90 <= num < 98 else None
            except ValueError:
                num = None
            good = num is not None and far[num] <= min(far) * 1.005
            report.judge(good, what, "Color.ansi",
                         f"{code!r} for {rgb}, whose nearest is {far.index(min(far))}")


def distance(one, two):
    """The redmean distance of two colors."""

    mean = (one[0] + two[0]) // 2
    red, green, blue = (a - b for a, b in zip(one, two))
    return ((2 + mean / 256) * red ** 2 + 4 * green ** 2
            + (2 + (255 - mean) / 256) * blue ** 2) ** 0.5


def borderline(entries):
    """Colors that are nearly as near to a second entry."""

    out = []
    steps = (*range(2, 256, 23), 255)
    for rgb in ((r, g, b) for r in steps for g in steps for b in steps):
        one, two = sorted(distance(rgb, entry) for entry in entries)[:2]
        if one * 1.006 < two < one * 1.03:
            out.append(rgb)
    return out


def grey(report, ip):
    what = "the greyscale index is the nearest to the brightness"
    colors = SPREAD[::2] + [(v, v, v) for v in range(0, 256, 5)]
    for rgb, code, bright in codes(report, ip, what, "NO_COLOR", colors, also="c.brightness"):
        index = number(code, 38)
        good = index is not None and abs(232 + 23 * bright - index) <= 0.5 + 1e-6
        report.judge(good, what, "Color.ansi", f"{code!r} for {rgb} of brightness {bright:.3f}")
    want = [(v, v, v) for v in range(0, 256, 15)] + SPREAD[::7]
    for rgb, code, bright in codes(report, ip, what, "NO_COLOR", want, also="c.brightness"):
        light = lightness(rgb)
        report.judge(abs(bright - light) < 0.004, "brightness is the perceived lightness",
                     "Color.brightness", f"{bright:.4f} instead of {light:.4f} for {rgb}")


def lightness(rgb):
    """CIE lightness of an sRGB color, from 0 to 1."""

    linear = [c / 255 / 12.92 if c / 255 <= 0.04045 else ((c / 255 + 0.055) / 1.055) ** 2.4
              for c in rgb]
    lum = sum(w * c for w, c in zip((0.2126, 0.7152, 0.0722), linear))
    return (lum * 24389 / 27 if lum <= 216 / 24389 else 116 * lum ** (1 / 3) - 16) / 100


def choice(report):
    """How an arbitrary color's standard entry is chosen."""

    what = "the standard entry is chosen among all sixteen"
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              "geometric_difference": distance_stub}, max_paths=600)
    rgb = [Sym(n, INT, lo=0, hi=255) for n in "rgb"]
    results = attempt(report, ip, what, "Color.ansi", """
        from slate.color import Color
        from slate.core import ColorSpace
        from slate.terminal import terminal
        def main(r, g, b):
            terminal.color_space = ColorSpace.STANDARD
            return Color((r, g, b)).ansi
        """, rgb)
    for path in results:
        if path.status != "return":
            continue
        picks = path.events("argmin")
        if len(picks) != 1:
            report.undecided(what, "Color.ansi", path.describe()[:200])
            continue
        ev = picks[0]
        nums = [i.val for i in ev.items if isinstance(i, Const)]
        score = ev.score
        report.judge(sorted(nums) == list(range(16)) and ev.which == "min" if len(nums) == len(
            ev.items) else None, what, ev.where, f"{ev.which} of {ev.items!r}"[:300])
        mine = isinstance(score, App) and score.op == "distance" and any(
            isinstance(a, Tup) and list(a.items) == rgb for a in score.args)
        report.judge(True if mine else None, "the distance is from the color's own channels",
                     ev.where, f"{score!r}"[:300])


def distance_stub(ip, args, kwargs, node):
    vals = list(args) + list(kwargs.values())
    return App("distance", tuple(as_term(v) for v in vals), FLOAT)


def run(report):
    ip = constant_interp()
    cube(report, ip)
    standard(report, ip)
    grey(report, ip)
    choice(report)
