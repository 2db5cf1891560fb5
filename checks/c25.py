"""C25: cached results are never corrupted or outdated."""

from .colorlab import *  # noqa: F403

TECHNIQUE = "abstract interpretation of repeated operations, with caches followed by their keys"
RULE = """each operation on a span, a color or a text is evaluated twice: on its own, and after a
history of other operations in the same run (the same operation, on the same and on an equal
object, on objects differing in one field each, writing, drawing and exporting the span, other
color spaces and environments being in effect); functions with a cache give what they kept for
arguments whose equality and hash do not tell them apart, and lists they gave out are shared; both
results have to be equal, all through"""
ASSUMPTIONS = ["a selection of operations, objects and histories",
               "hashes of different values differ"]

HEAD = """
    import os
    from slate.terminal import terminal, Terminal
    from slate.core import ColorSpace, get_color_space, width
    from slate.color import color, Color
    from slate.span import Span
    from slate.screen import Screen
    def main(stream):
        terminal.color_space = None
        def styled(**more):
            return Span(**{{"text": "ab", "foreground": color("#ff8040"),
                           "background": color("48;5;120"), "bold": True, **more}})
        def tint(**more):
            return Color(**{{"rgb": (200, 100, 7), "alpha": 0.5, **more}})
        def spoil(val):
            if isinstance(val, (list, dict)):
                val.clear()
        S, T = styled(), tint()
        {before}
        {space}
        return {op}
"""

SPAN_OPS = ["str(styled())", "styled().get_characters()", "styled().get_characters(True)",
            "styled().get_characters(exclude_color=True)",
            "styled().get_characters(always_include_sequence=True)",
            "styled(text='ab\\ncd').get_characters()", "repr(styled())", "styled().attrs",
            "styled()[1:]", "styled().get_svg_styles()", "styled().split('a')", "styled().mutate(text='q')",
            "styled().as_svg(default_foreground=tint(), default_background=tint())"]
COLOR_OPS = ["tint().ansi", "color('#ff8040').ansi", "color('31').ansi", "color('38;5;77').ansi",
             "color('48;2;1;2;3').ansi", "color('38;2;1;2;3').ansi", "color('44').ansi",
             "tint().blend(color('#00ff88'), 0.25)", "tint().blend(tint(rgb=(1, 2, 3)), alpha=0.5)",
             "tint().blend(color('#00ff88'), 0.25, True)", "tint().lighten(2)", "tint().darken(3)",
             "tint(is_background=True).blend(color('#00ff88'), 0.25)",
             "tint().complement", "tint().contrast", "tint().as_background()",
             "tint().as_alpha(0.25)", "tint().hue_shift(0.25)", "tint().triadic_group",
             "tint().blend_complement(0.25)", "color('#abcdef')", "color('tomato')", "color('93')",
             "color('#abcdef80')", "color('tomato;0.5')", "color('38;5;100')", "Color.white()", "Color.black(True)",
             "color((1, 2, 3))"]
TEXT_OPS = [r"list(Span.yield_from('a\x1b[1;31mb\x1b[0mc'))", r"Span.first_from('\x1b[3mx')",
            "list(Span.yield_from('plain'))",
            r"list(Span.group([('a', None, None), ('\x1b[1mb', color('#fff000'), None)]))",
            "get_color_space()", "terminal.color_space", r"width('a\x1b[1mb')"]
SCREEN_OPS = ["drawn(Screen(4, 2), styled())", "drawn(Screen(4, 2), styled(text='ab\\ncd'))",
              "exported(Screen(3, 1), styled())"]

FIELDS = {"text": "'xy'", "foreground": "color('#ff8041')", "background": "color('48;5;121')",
          "hyperlink": "'u'", "bold": "False", "dim": "True", "italic": "True",
          "underline": "True", "blink": "True", "fast_blink": "True", "invert": "True",
          "conceal": "True", "strike": "True", "opaque": "True", "reset_after": "False"}
COLOR_FIELDS = {"rgb": "(200, 100, 8)", "is_background": "True", "alpha": "0.75"}

USES = ["Screen(3, 2).write([styled()], cursor=(0, 0))",
        "Screen(3, 2).write([styled()], cursor=(1, 1))",
        "Screen(2, 1).write([styled(text='ab\\ncd'), styled()], cursor=(0, 0))",
        "Screen(3, 2).write_bulk([((0, 0), [styled()]), ((0, 1), [styled()]), "
        "((0, 2), [styled(), styled()])])",
        "Screen(3, 2).write_bulk([((0, 5), [styled()])], force_overwrite=True)",
        "drawn(Screen(4, 2), styled())", "exported(Screen(3, 1), styled())",
        "[c for s in styled().split(' ') for c in s.get_characters()]"]

HELPERS = """def drawn(screen, span):
            screen.write([span], cursor=(0, 0))
            first = screen.render()
            return (first, screen.render(redraw=True))
        def exported(screen, span):
            screen.write([span], cursor=(0, 0))
            return screen.export_svg_with_styles(font_size=10, origin=(0, 0), default_foreground=tint(),
                                                 default_background=tint())
        """

SPACES = ("STANDARD", "NO_COLOR", "EIGHT_BIT", "TRUE_COLOR")


def put_env(ip, args, kwargs, node):
    key, val = ip.facts.resolve(args[0]), ip.facts.resolve(args[1])
    ip.memo["env", key.val] = val
    return NONE_V


def shown(val, depth=0):
    """A value as something to compare; Ellipsis inside where it is not known."""

    if depth > 8:
        return Ellipsis
    if isinstance(val, Const):
        return (type(val.val).__name__, val.val)
    if isinstance(val, EnumM):
        return repr(val)
    if isinstance(val, (Tup, LST)):
        if val.items is None:
            return Ellipsis
        return tuple(shown(v, depth + 1) for v in val.items)
    if isinstance(val, DCT):
        return Ellipsis if val.sym else tuple(sorted(
            (repr(k), shown(v, depth + 1)) for k, v in val.items.items()))
    if isinstance(val, Obj):
        return (val.cls.name if val.cls else kind_of(val), tuple(sorted(
            (k, shown(v, depth + 1)) for k, v in val.fields.items()
            if k not in ("luminance", "brightness", "hls", "hex"))))
    return Ellipsis


def unknown_in(val):
    return val is Ellipsis or isinstance(val, tuple) and any(map(unknown_in, val))


def results(report, ip, op, before="", space="pass"):
    """The values an operation gives (one per path), as things to compare."""

    where_ = op
    out = []
    for path in attempt(report, ip, "the operation is followed", where_, HEAD.format(
            before=HELPERS + before, op=op, space=space), [STREAM]):
        if path.status == "backedge":
            continue
        if path.status == "raise":
            out.append(("raised", raised_name(path)))
        else:
            out.append(shown(path.value) if path.status == "return" else Ellipsis)
    return out


def same(op):
    """The operation on the one object that everybody uses."""

    return op.replace("styled()", "S").replace("tint()", "T")


def compare(report, ip, fresh, op, before, space="pass"):
    what = "an operation gives the same whatever was done before"
    before = before.strip()
    tried = f"try: {before}\n        except Exception: pass"
    again = results(report, ip, op, tried, space)
    detail = f"{op} after {before!r}" + ("" if space == "pass" else f" and {space!r}")
    if len(fresh) != 1 or len(again) != 1:
        report.undecided(what, op, detail)
        return
    one, two = fresh[0], again[0]
    if one == two and not unknown_in(one):
        report.ok(what, op)
    elif one == two:
        report.undecided(what, op, detail)
    else:
        report.judge(None if unknown_in(one) or unknown_in(two) else False, what, op,
                     f"{two!r} instead of {one!r}: {detail}"[:600])


def run(report):
    ip = driver.interp(stubs={"get_default_color": color_result_stub("default"),
                              "set_echo": lambda *a: NONE_V,
                              "Event.__call__": lambda *a: FALSE},
                       externals={"os.putenv": put_env}, max_paths=300)
    driver.find(ip, "slate.terminal", "Terminal")
    ip.config.env = {}
    ops = SPAN_OPS + COLOR_OPS + TEXT_OPS + SCREEN_OPS
    plain = "terminal.color_space = ColorSpace.TRUE_COLOR"
    for op in ops:
        fresh = results(report, ip, op, "", plain)
        if fresh and fresh[0][:1] == ("raised",):
            report.undecided("the operation is followed", op, f"raises {fresh[0][1]}")
            continue

        def after(done, here=op):
            compare(report, ip, fresh, here, f"{plain}; {done}", plain)
        after(f"x = {op}; y = {op}")
        after(f"x = {op}; spoil(x)")
        for other in (op, same(op), op.replace("styled(", "styled(text='q', ").replace(
                "text='q', text", "text")):
            after(f"K = {op}; y = {other}", "K")
        after(f"x = {same(op)}; spoil(x)", same(op))
        if op in COLOR_OPS:
            for name, val in COLOR_FIELDS.items():
                other = op.replace("tint(", f"tint({name}={val}, ", 1)
                if other != op and f"({name}={val}, {name}=" not in other \
                        and f"{name}=" not in op.split(")")[0]:
                    after(f"x = {other}")
            others = COLOR_OPS
        elif op in SPAN_OPS + SCREEN_OPS:
            for name, val in FIELDS.items():
                if name == "text" and "text=" in op:
                    continue
                other = op.replace("styled(", f"styled({name}={val}, ", 1)
                after(f"x = {other}")
            others = SPAN_OPS
        else:
            others = TEXT_OPS + USES[:2]
        for other in others:
            after(f"x = {other}")
            if other in ops:
                after(f"x = {same(other)}; spoil(x)", same(op))
        for use in USES:
            if op in SPAN_OPS + SCREEN_OPS:
                after(f"x = {op}; y = {use}; z = {op}")
        outdated(report, ip, op)


def outdated(report, ip, op):
    """The color space changes in between, for an equal object and for the same one."""

    changed(report, ip, op, op, "")
    if same(op) != op:
        changed(report, ip, op, same(op), "")
    elif op.endswith(".ansi"):
        changed(report, ip, op, "kept.ansi", f"kept = {op[:-5]}; ")


def changed(report, ip, plain, op, start):
    for new in SPACES:
        space = f"terminal.color_space = ColorSpace.{new}"
        fresh = results(report, ip, plain, "", space)
        for old in SPACES:
            if old != new:
                compare(report, ip, fresh, op, f"{start}terminal.color_space = ColorSpace.{old}; "
                        f"x = {op}", space)
    env = [("NO_COLOR", "1"), ("COLORTERM", "truecolor"), ("SLATE_COLORSYS", "eight_bit")]
    fresh = results(report, ip, plain)
    for name, val in env:
        clear = "; ".join(f"os.putenv({n!r}, None)" for n, _ in env)
        compare(report, ip, fresh, op, f"{start}os.putenv({name!r}, {val!r}); x = {op}", clear)
        compare(report, ip, fresh, op, f"{start}os.putenv({name!r}, {val!r}); "
                f"terminal.color_space = ColorSpace.NO_COLOR; x = {op}",
                f"{clear}; terminal.color_space = None")
