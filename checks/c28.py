"""C28: contrast colors can be read on what they are made for."""

from .colorlab import *  # noqa: F403
from .common import *  # noqa: F403
from .known import table, constant_interp

TECHNIQUE = "abstract interpretation with intervals of the luminance"
RULE = """on every path of an arbitrary color's contrast, the interval the branch leaves for its
luminance is at a W3C contrast ratio of at least 3:1 from the (constant) color given back, dark
colors get a light one and light ones a dark one, on the same layer, opaque; the luminance is the
W3C one, for a spread of colors propagated as constants"""
ASSUMPTIONS = ["the ratio is the one for large text; the defaults allow no more than 3.8:1"]
LUM = Sym("lum", FLOAT, lo=0.0, hi=1.0)
LEAST = 3.0
COLORS = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (128, 128, 128),
          (10, 10, 10), (11, 11, 11), (12, 200, 99), (77, 3, 240), (35, 35, 35), (245, 245, 245),
          (60, 60, 60), (119, 119, 119), (100, 110, 120), (250, 128, 114)]


def luminance(rgb):
    linear = [c / 255 / 12.92 if c / 255 <= 0.04045 else ((c / 255 + 0.055) / 1.055) ** 2.4
              for c in rgb]
    return sum(w * c for w, c in zip((0.2126, 0.7152, 0.0722), linear))


def ratio(one, two):
    return (max(one, two) + 0.05) / (min(one, two) + 0.05)


def channels(val):
    rgb = val.fields.get("rgb") if isinstance(val, Obj) else None
    items = rgb.items if isinstance(rgb, Tup) else ()
    return tuple(i.val for i in items) if len(items) == 3 and all(
        isinstance(i, Const) for i in items) else None


def luminance_stub(ip, args, kwargs, node):
    rgb = channels((list(args) + list(kwargs.values()))[0])
    return LUM if rgb is None else Const(luminance(rgb))


def run(report):
    what = "the contrast color is at 3:1 or more from the color"
    ip = driver.interp(stubs={"calculate_luminance": luminance_stub,
                              "calculate_brightness": float_stub("brightness"),
                              "get_default_color": color_result_stub("default")}, max_paths=200)
    driver.find(ip, "slate.color", "calculate_contrast")
    for expr in ("c.contrast", "calculate_contrast(c)", "calculate_contrast(base=c)"):
        results = attempt(report, ip, what, "calculate_contrast", f"""
            from slate.color import Color, calculate_contrast
            def main(r, g, b, back):
                c = Color((r, g, b), is_background=back)
                return {expr}
            """, [*[Sym(n, INT, lo=0, hi=255) for n in "rgb"], Sym("back", BOOL)])
        for path in results:
            if path.status != "return":
                if path.status == "raise":
                    report.bad(what, "calculate_contrast", f"{raised_name(path)} for {expr}")
                continue
            rgb = channels(path.value)
            low, high = path.facts.interval(LUM)
            detail = f"{rgb} for luminances from {low:.3f} to {high:.3f} ({expr})"
            low, high = max(low, 0.0), min(high, 1.0)
            if rgb is None or any(atom for atom, _ in path.facts.order
                                  if "lum" not in repr(atom) and "back" not in repr(atom)):
                report.undecided(what, "calculate_contrast", detail + path.describe()[:300])
                continue
            mine = luminance(rgb)
            worst = 1.0 if low <= mine <= high else min(ratio(low, mine), ratio(high, mine))
            report.judge(worst >= LEAST, what, "calculate_contrast",
                         f"only {worst:.2f}:1 with {detail}")
    report.count("ways to ask", 3)
    ip = constant_interp()
    head = "    from slate.color import Color, calculate_luminance\n"
    rows = []
    for rgb in COLORS:
        rows.append(("the luminance is the W3C one", "calculate_luminance",
                     f"Color({rgb}).luminance", near(luminance(rgb))))
        for back in (False, True):
            rows.append((what, "Color.contrast", f"Color({rgb}, is_background={back}).contrast",
                         readable(rgb, back)))
            rows.append(("the contrast color is opaque", "Color.contrast",
                         f"Color({rgb}, alpha=0.5, is_background={back}).contrast",
                         readable(rgb, back, 1.0)))
    table(report, ip, "\n" + head, rows)


def near(want):
    return lambda got: isinstance(got, (int, float)) and abs(got - want) < 1e-5


def readable(rgb, back, alpha=None):
    def judge(got):
        return isinstance(got, tuple) and len(got) == 3 and got[1] is back and alpha in (
            None, got[2]) and ratio(
            luminance(rgb), luminance(got[0])) >= LEAST and (
            0.1 < luminance(rgb) < 0.3 or (luminance(got[0]) > 0.5) == (luminance(rgb) <= 0.1))
    return judge
