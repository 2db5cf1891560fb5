"""C34: the width of text counts its visible characters only."""

from itertools import product

from .spanlab import *  # noqa: F403
from .svglab import constant_interp

TECHNIQUE = "abstract interpretation on strings with unknown text between sequences"
RULE = """the width of a string of unknown texts (any length, no ESC) around style, cursor, link and
graphics sequences, some with unknown content, equals the sum of the lengths of the texts on every
path; the width of a span is the length of its text, whatever its styles, colors and link, and so
is that of its string form"""
ASSUMPTIONS = ["regular expressions match as Python defines",
               "the contents of links and graphics have no ESC and no line breaks",
               "up to three sequences in a string"]

PLAIN = frozenset(map(chr, range(32, 127))) | {"\n", "\t", "\u00e9", "\u6f22"}
LINE = PLAIN - {"\n"}
TEXTS = [Sym(f"t{i}", STR, meta=Shape(PLAIN, 0, 60)) for i in range(4)]
LINK = Sym("link", STR, meta=Shape(LINE, 0, 60))
ARGS = [*TEXTS, LINK]

WHAT = "the width is the number of characters outside of sequences"
SPAN = "the width of a span is the length of its text"

STYLES = ["'\\x1b[1m'", "'\\x1b[0m'", "'\\x1b[m'", "'\\x1b[38;2;1;22;99;48;5;7m'",
          "'\\x1b[12;34H'", "'\\x1b]8;;' + link + '\\x1b\\\\'", "'\\x1b]8;;\\x1b\\\\'",
          "'\\x1b_G' + link + '\\x1b\\\\'"]

DRIVER = """
    from slate.core import width
    from slate.span import Span
    from slate.color import Color
    def main(t0, t1, t2, t3, link):
        return width({expr})
"""


def run(report):
    ip = span_interp(max_paths=400, stubs={
        "Color.ansi": lambda m, args, kwargs, node: Const("48;2;1;22;99")})
    driver.find(ip, "slate.core", "width")
    seqs = [(s,) for s in STYLES] + list(product(STYLES, repeat=2))
    seqs += [("'\\x1b[1m'", b, c) for b, c in product(STYLES[1:6:2], STYLES)]
    for chosen in [(), *seqs]:
        expr = "t0" + "".join(f" + {s} + t{i + 1}" for i, s in enumerate(chosen))
        judge(report, ip, expr, TEXTS[:len(chosen) + 1], WHAT)
    for flags in ("", "bold=True", "opaque=True, strike=True", "foreground=Color((1, 2, 3))",
                  "hyperlink='http://x'", "hyperlink=link", "reset_after=False, dim=True",
                  "background=Color((1, 2, 3), is_background=True), hyperlink='ab', bold=True"):
        span = f"Span(t0, {flags})"
        judge(report, ip, span, TEXTS[:1], SPAN)
        judge(report, ip, f"str({span})", TEXTS[:1], SPAN)
    constants(report)


def judge(report, ip, expr, texts, what):
    want = None
    for text in texts:
        size = App("len", (text,), INT)
        want = size if want is None else ip.add(want, size)
    for path in attempt(report, ip, what, "width", DRIVER.format(expr=expr), ARGS):
        if path.status == "backedge":
            continue
        if path.status == "raise":
            report.judge(None, what, "width", f"{raised_name(path)} for {expr}")
            continue
        known = path.facts.eq_implied(path.value, want) if isinstance(path.value, Term) else None
        if known is None and isinstance(path.value, Term) and settled(path.value, texts):
            known = firm(path, False)
        report.judge(known, what, "width", f"{path.value!r} for {expr}")


def settled(val, texts):
    """Is this a sum of lengths of the texts and of numbers?"""

    from absint.facts import lin_of
    lin = lin_of(val)
    if lin is None:
        return False
    return all(isinstance(t, App) and t.op == "len" and (t.args[0] in texts or t.args[0] == LINK)
               for t in lin[1])


def constants(report):
    """Known strings."""

    ip = constant_interp()
    for text, want in (("", 0), ("abc", 3), ("\x1b[1mabc\x1b[0m", 3), ("\x1b[1m\x1b[0m", 0),
                       ("a\x1b[38;5;1mb\x1b[0mc", 3), ("\u6f22\u5b57", 2), ("a\nb", 3),
                       ("\x1b]8;;http://x.y/m\x1b\\link\x1b]8;;\x1b\\", 4),
                       ("\x1b[3;4Hmm\x1b[0mHH", 4), ("ab\n", 3), ("\n\n", 2), ("\t a\r", 4), ("\x1b[1m \x1b[0m \n", 3),
                       ("m H ; [ ]", 9), ("  x  ", 5), ("a\x1b[mbmc", 4),
                       ("\x1b[1ma\x1b[2mb\x1b[3mc\x1b[4md\x1b[0m", 4),
                       ("\x1b[1ma\x1b[0m" * 40, 40), ("\x1b]8;;u\x1b\\b\x1b]8;;\x1b\\" * 40, 40),
                       ("\x1b_Gf=24,s=10;AAAAmm\x1b\\z", 1)):
        for expr, size in ((repr(text), want), (f"Span({text!r})", len(text))):
            what = WHAT if size == want and "Span" not in expr else SPAN
            for path in attempt(report, ip, what, "width", DRIVER.format(expr=expr), ARGS):
                got = path.value.val if path.status == "return" and isinstance(
                    path.value, Const) else None
                report.judge(False if path.status == "raise" else None if got is None
                             else got == size, what, "width", f"{got!r} for {expr}")
