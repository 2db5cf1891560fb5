"""C18: text is escaped wherever it enters exported SVG."""

from .svglab import *  # noqa: F403

TECHNIQUE = "taint analysis by abstract interpretation: what every character becomes on its way"
RULE = """in the markup exported for a span of unknown text, the text is found only as the content
of one text element, through operations that turn every character with a meaning in markup into
one reference to it, and every other character into itself; elsewhere, only its length and what
kind of characters it has may be found. For known texts full of markup, references and spaces,
written to a screen and exported alone or by the terminal, the markup can be read and gives back
the text"""
ASSUMPTIONS = ["replacing single characters acts on each character alone",
               "known texts are a selection"]

SPAN = """
    from slate.span import Span
    from slate.color import Color
    def main(text, link, fg, bg, dfg, dbg):
        return Span(text, foreground=fg, background=bg, hyperlink=link, {flags}).as_svg(
            font_size=10, origin=(3, 4), default_foreground=dfg, default_background=dbg, {how})
"""

SCREEN = """
    from slate.span import Span
    from slate.screen import Screen
    from slate.color import Color
    from slate.terminal import terminal
    def main():
        terminal.color_space = None
        screen = Screen({width}, {height}{fill})
        screen.write([{spans}], cursor=(0, 0))
        {more}
        return screen.export_svg_with_styles(font_size=10, origin=(0, 0),
            default_foreground=Color((1, 2, 3)), default_background=Color((4, 5, 6)))
"""

TERMINAL = """
    from slate.span import Span
    from slate.color import Color
    from slate.terminal import Terminal
    def main(stream):
        from slate.terminal import terminal as shared
        shared.color_space = None
        terminal = Terminal(stream)
        terminal.write([{spans}], cursor=(0, 0))
        return terminal.export_svg(default_foreground=Color((1, 2, 3)),
                                   default_background=Color((4, 5, 6)))
"""

TEXTS = ["<", ">", "&", '"', "'", "<b>", "a<b&c>d", "&lt;", "&amp;", "&amp;lt;", "&#60;", "</text>",
         "'/><script>", '" x="', "]]>", "<!--", "a b  c", " ", "  <", "{i}", "{0}", "%s", "\\n",
         "\u2588<\u2588", "\u2588", "\u00e9&", "plain", "x" * 9, "$1", "&nbsp;", "&#160;", "1 < 2 && 3 > 2",
         "mH;[", "\u2580\u2584", "text", "&;&", "<<>>", "'\"'"]

FLAGS = [{}, {"bold": True}, {"italic": True}, {"dim": True}, {"underline": True, "strike": True},
         {"invert": True}, {"conceal": True}, {"blink": True}, {"opaque": True},
         {"bold": True, "invert": True, "underline": True}]
HOWS = ["", "inline_styles=True", "cls='c'", "inline_styles=True, cls='c'"]

IN_SPAN = "text of a span is found only escaped"
BACK = "the markup gives back the text"


def run(report):
    unknown_text(report)
    known_texts(report, constant_interp(SIZE))
    apart_from_text(report, constant_interp(SIZE))


def unknown_text(report):
    ip = span_interp()
    text, link = Sym("text", STR), Sym("link", STR)
    colors = [driver.symbolic(ip, n, "Color") for n in ("fg", "bg", "dfg", "dbg")]
    for flags in FLAGS:
        for how in HOWS:
            label = ", ".join([*flags, how])
            for path in attempt(report, ip, IN_SPAN, "Span.as_svg", SPAN.format(
                    flags=", ".join(f"{f}=True" for f in flags), how=how),
                    [text, link, *colors]):
                if path.status == "backedge":
                    continue
                if path.status != "return":
                    report.undecided(IN_SPAN, "Span.as_svg", f"{path.status} {label}")
                    continue
                judge_unknown(report, path, text, link, label)


def judge_unknown(report, path, text, link, label):
    svg = Svg(path.value)
    where_ = "Span.as_svg"
    if svg.error:
        report.undecided(IN_SPAN, where_, svg.error)
        return
    content = [t["content"] for t in svg.texts]
    inside = {c for c in "".join(content) if "\ue000" <= c <= "\uf8ff"}
    for i, term in enumerate(svg.holes.terms):
        place = "inside" if chr(0xE000 + i) in inside else "outside"
        for sym in (text, link):
            if not mentions(term, sym):
                continue
            raw = term == sym or isinstance(term, App) and term.op in CHANGING | {
                "str.slice", "item"} and term.op not in ESCAPES and term.op != "str.replace" \
                and mentions(term, sym)
            if raw:
                report.judge(False, IN_SPAN, where_, f"{term!r} {place} the text element, {label}")
            elif place == "inside" and sym == text:
                fine, why = escaping_fault(term, sym)
                report.judge(fine, IN_SPAN, where_, f"{why}, {label}")
            elif numeric(term):
                report.ok(IN_SPAN, where_)
            else:
                fine, why = escaping_fault(term, sym)
                report.judge(None if fine is None else False if not fine else (
                    True if sym == link else None), IN_SPAN, where_,
                    f"{why or term} {place} the text element, {label}")
    where_ = "Span.as_svg"
    if len(content) == 1 and len(content[0]) == 1 and content[0] in inside and mentions(
            svg.back(content[0]), text):
        report.ok("the text of a span is the content of one element", where_)
    else:
        report.judge(None if inside else False, "the text of a span is the content of one element", where_,
                     f"{content!r} {label}"[:300])


def numeric(term):
    """A number, written out."""

    if isinstance(term, App) and term.op in ("str", "fmt"):
        term = term.args[0]
    return ty_of(term) in (INT, FLOAT)


SIZE = (6, 3)


def known_texts(report, ip):
    for text in TEXTS:
        span = f"Span({text!r}, foreground=Color((7, 8, 9)))"
        for how in HOWS:
            for path in attempt(report, ip, BACK, "Span.as_svg", SPAN.format(
                    flags="", how=how), [Const(text), Const("<'&\""), NONE_V, NONE_V,
                                         *constant_colors(ip)]):
                readable(report, path, text, None, "Span.as_svg", how)
        for spans, bold, want in ((span, "", text), (
                f"{span}, Span({text!r}, bold=True, foreground=Color((7, 8, 9)))", "bold", text * 2)):
            pad = want + " " * 2
            for path in attempt(report, ip, BACK, "Screen.export_svg_with_styles", SCREEN.format(
                    width=len(pad), height=1, spans=spans, fill="", more=""), []):
                readable(report, path, pad, True, "Screen.export_svg_with_styles", bold)
        if len(text) <= SIZE[0] and not set(text) & set("[;"):
            for path in attempt(report, ip, BACK, "Terminal.export_svg", TERMINAL.format(
                    spans=f"{span}"), [STREAM]):
                readable(report, path, text.ljust(SIZE[0] * SIZE[1]), None, "Terminal.export_svg",
                         "exported by the terminal")
        if len(text) == 1:
            for path in attempt(report, ip, BACK, "Screen.export_svg_with_styles", SCREEN.format(
                    width=3, height=2, spans="", fill=f", fillchar={text!r}", more=""), []):
                readable(report, path, text * 6, True, "Screen.export_svg_with_styles", "filled")


def apart_from_text(report, ip):
    """The markup around texts of one length does not depend on them."""

    what = "nothing but the content of elements is taken from the text"

    def around(source, args, where_):
        for path in attempt(report, ip, what, where_, source, args):
            vals = path.value.items if isinstance(path.value, Tup) else [path.value]
            if path.status == "return" and all(isinstance(v, Const) for v in vals):
                return [re.sub(r"(?s)>[^<>]*</text>", "></text>", v.val) for v in vals]
        return None

    for text in TEXTS + ["   ", "  a", "\t", "0", "12", "bold", "A", "Zz"]:
        if any(9600 <= ord(c) <= 9631 for c in text):
            continue
        plain_ = "n" * len(text)
        for how in HOWS:
            colors = constant_colors(ip)
            one, two = (around(SPAN.format(flags="", how=how), [
                Const(t), Const(""), NONE_V, NONE_V, *colors], "Span.as_svg") for t in (text, plain_))
            report.judge(None if one is None or two is None else one == two, what, "Span.as_svg",
                         f"{one!r} for {text!r} but {two!r} for {plain_!r} ({how})"[:500])
        for flags in ("", ", bold=True"):
            one, two = (around(SCREEN.format(
                width=len(t) + 2, height=1, fill="", more="",
                spans=f"Span({t!r}, foreground=Color((7, 8, 9)){flags})"), [],
                "Screen.export_svg_with_styles") for t in (text, plain_))
            report.judge(None if one is None or two is None else one == two, what,
                         "Screen.export_svg_with_styles",
                         f"{one!r} for {text!r} but {two!r} for {plain_!r}"[:500])


def constant_colors(ip):
    path = driver.run(ip, """
        from slate.color import Color
        def main():
            return (Color((1, 2, 3)), Color((4, 5, 6)))
    """, [])[0]
    return list(path.value.items)


def readable(report, path, text, sheet, where_, label):
    detail = f"{text!r} {label}"
    if path.status == "raise":
        report.judge(False, BACK, where_, f"{raised_name(path)} for {detail}")
        return
    val = path.value
    if path.status != "return" or sheet and not (isinstance(val, Tup) and len(val.items) == 2):
        report.undecided(BACK, where_, detail)
        return
    parts = list(val.items) if sheet else [val]
    if not all(isinstance(p, Const) for p in parts):
        report.undecided(BACK, where_, f"{val!r} {detail}"[:300])
        return
    svg = Svg(*parts)
    if svg.error:
        report.judge(False, BACK, where_, f"{svg.error} for {detail}")
        return
    got = "".join(t["content"] for t in svg.texts)
    report.judge(same_text(got, text), BACK, where_, f"{got!r} for {detail}")
    if sheet:
        stray = re.sub(r"[\w.#:;{}\s-]", "", svg.css_text)
        report.judge(True if not stray else None, "the style sheet has nothing of the text", where_,
                     f"{stray!r} for {detail}")
