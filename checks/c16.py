"""C16: a span prints its text with exactly its styles, properly closed."""

import ast

from . import known
from .spanlab import *  # noqa: F403

TECHNIQUE = "abstract interpretation of the printing of a span with unknown attributes"
RULE = """the string of a span is followed for every combination of the ten styles, both colours,
hyperlink and reset with an unknown text: on every path the pieces put together read as one style
sequence with exactly the codes of what is set (none if nothing is), the very text, a reset exactly
when there is a sequence and resetting is on, and a closed hyperlink around it; the list of
characters is followed for texts of unknown characters, and of any length the code compares with;
known spans are propagated as constants"""
ASSUMPTIONS = ["a colour's own code is a non-empty list of numbers (C11)",
               "lists of characters: texts of up to six characters, and around every length the "
               "code mentions"]

CODES = {"bold": "1", "dim": "2", "italic": "3", "underline": "4", "blink": "5",
         "fast_blink": "6", "invert": "7", "conceal": "8", "strike": "9", "opaque": "99"}
COLORS = [(f, b) for f in ("fg", "None") for b in ("bg", "None")]
TEXT, LINK = "\ue000", "\ue001"


def code_stub(ip, args, kwargs, node):
    """The code of a colour, three numbers of which two are unknown."""

    col = as_term(args[0])
    out = []
    for i in range(2):
        term = App(f"code{i}", (col,), INT)
        ip.facts.ranges[term] = (0, 255)
        out.append(App("str", (term,), STR))
    return ip.concat([out[0], Const(";5;"), out[1]])


class Ink:
    """Pieces of a string as one string, with a private character for each unknown piece."""

    def __init__(self, **known):
        self.known = dict(known)
        self.other = []

    def __call__(self, val):
        out = ""
        for piece in text_parts(val):
            if isinstance(piece, Const) and isinstance(piece.val, str):
                out += piece.val
                continue
            for char, term in self.known.items():
                if piece == term:
                    out += char
                    break
            else:
                if piece not in self.other:
                    self.other.append(piece)
                out += chr(0xE800 + self.other.index(piece))
        return out


def code_of(color):
    return [App("str", (App(f"code{i}", (color,), INT),), STR) for i in range(2)]


def split_codes(body, inks):
    """The codes of a sequence, a colour's counting as one."""

    for name, text in inks.items():
        body = body.replace(text, name)
    return body.split(";")


def judge_text(path, got, ink, inks, wanted, text, reset):
    """True/False and what is wrong, for sequence + text + reset."""

    codes = []
    if got.startswith("\x1b["):
        head, end, rest = got[2:].partition("m")
        if not end:
            return False, "an unfinished sequence"
        codes, got = split_codes(head, inks), rest
    if sorted(set(codes)) != sorted(wanted):
        return False, f"codes {codes} instead of {sorted(wanted)}"
    if len(set(codes)) != len(codes):
        return None, f"codes {codes} given twice"
    if not got.startswith(text):
        return False, f"{got!r} instead of the text"
    tail = got[len(text):]
    if reset and codes:
        return tail in ("\x1b[0m", "\x1b[m"), f"{tail!r} instead of a reset"
    return tail == "", f"{tail!r} after the text"


def wanted_codes(path, values, fore, back, colors=True):
    """Codes the attributes ask for; None where the path leaves one open."""

    out = []
    for name, code in CODES.items():
        on = known_bool(path, values[name])
        if on is None:
            return None
        if on:
            out.append(code)
    if colors:
        out += ["F"] * (fore == "fg") + ["B"] * (back == "bg")
    return out


DRIVER = """
    from slate.span import Span
    from slate.color import Color
    def main(text, fg, bg, link, reset, {flags}, c0, c1, c2, c3, c4, c5, c6, c7):
        return {expr}
"""
TEXTS = ("a ", "  ", " \t\n", "ab\n", "\x00a", "\u6f22\u00e9", "<&;m[", "0;1m")
CHARS = [Sym(f"c{i}", STR, meta=Shape(None, 1, 1)) for i in range(8)]


def span_of(text, fore, back, link, values, reset="reset"):
    styles = ", ".join(f"{k}={v}" for k, v in values.items())
    return f"Span({text}, {fore}, {back}, {link}, {styles}, reset_after={reset})"


def run(report):
    ip = span_interp(stubs={"Color.ansi": code_stub}, max_paths=5000)
    fg, bg = driver.symbolic(ip, "fg", "Color"), driver.symbolic(ip, "bg", "Color")
    flags = {f"b{i}": Sym(f"b{i}", BOOL) for i in range(10)}
    args = [Sym("text", STR), fg, bg, Sym("link", STR), Sym("reset", BOOL), *flags.values(),
            *CHARS]
    source = DRIVER.replace("{flags}", ", ".join(flags))
    inks = {}
    ink = Ink()
    fore_pieces, back_pieces = code_of(fg), code_of(bg)
    for pos, piece in enumerate(fore_pieces + back_pieces):
        ink.known[chr(0xE100 + pos)] = piece
    inks["F"] = "\ue100;5;\ue101"
    inks["B"] = "\ue102;5;\ue103"
    ink.known[TEXT], ink.known[LINK] = args[0], args[3]
    for pos, char in enumerate(CHARS):
        ink.known[chr(0xE200 + pos)] = char

    printed(report, ip, source, args, flags, ink, inks)
    lengths = set(range(8 if THOROUGH else 6)) | special_lengths(report, ip, source, args)
    split_up(report, ip, source, args, flags, ink, inks, sorted(lengths))
    known_spans(report)


def printed(report, ip, source, args, flags, ink, inks):
    where_ = "Span.__str__"
    every = dict(zip(CODES, flags))
    few = [{name: str(name in on) for name in CODES}
           for on in ((), ("bold",), ("opaque",), tuple(CODES))]
    plans = [(every, fore, back, "''") for fore, back in COLORS]
    plans += [(vals, fore, back, "link") for fore, back in COLORS for vals in few]
    for values, fore, back, link in plans:
        expr = f"str({span_of('text', fore, back, link, values)})"
        results = attempt(report, ip, "printing is followed", where_,
                          source.replace("{expr}", expr), args)
        terms = {k: flags[v] if v in flags else Const(v == "True") for k, v in values.items()}
        for path in results:
            if path.status == "backedge":
                continue
            when = f"{expr} when {path.describe()[:160]}"
            if path.status != "return" or not isinstance(path.value, Term):
                report.judge(firm(path, False) if path.status == "raise" else None,
                             "a span can be printed", where_, f"{path.status} for {when}")
                continue
            got = ink(path.value)
            linked = False
            if link == "link":
                known = path.facts.eq_implied(args[3], Const(""))
                linked = None if known is None else not known
            if linked is None:
                report.judge(firm(path, False) if LINK not in got else None,
                             "a hyperlink is printed", where_, f"{path.value!r} for {when}")
                continue
            if linked:
                match = re.fullmatch(
                    rf"\x1b\]8;[^;\x1b]*;{LINK}(?:\x1b\\|\x07)(.*)\x1b\]8;;(?:\x1b\\|\x07)",
                    got, re.S)
                report.judge(True if match else firm(path, False),
                             "a hyperlink is opened with its target and closed", where_,
                             f"{path.value!r} for {when}")
                if not match:
                    continue
                got = match[1]
            judge_one(report, path, got, ink, inks, terms, fore, back, TEXT, args[4], where_,
                      f"{path.value!r} for {when}")
    report.count("printed combinations", len(plans))


def judge_one(report, path, got, ink, inks, terms, fore, back, text, reset, where_, detail,
              colors=True):
    wanted = wanted_codes(path, terms, fore, back, colors)
    what = "a span is its sequence, its text and its reset"
    on = known_bool(path, reset)
    if wanted is None:
        report.judge(firm(path, False), what, where_, f"some style makes no difference: {detail}")
        return
    if on is None:
        if not wanted:
            on = False
        else:
            report.judge(firm(path, False), what, where_, f"reset makes no difference: {detail}")
            return
    good, why = judge_text(path, got, ink, inks, wanted, text, on)
    report.judge(firm(path, good) if good is False else good, what, where_, f"{why}: {detail}")


HEAD = """
    from slate.terminal import terminal
    from slate.core import ColorSpace
    from slate.color import Color
    from slate.span import Span
    def shown(span):
        terminal.color_space = ColorSpace.TRUE_COLOR
        return str(span)
    def chars(span, *flags):
        terminal.color_space = ColorSpace.TRUE_COLOR
        return tuple(span.get_characters(*flags))
"""


def right_text(got, text, codes, reset, link=""):
    if not isinstance(got, str):
        return False
    before, after = (f"\x1b]8;;{link}\x1b\\", "\x1b]8;;\x1b\\") if link else ("", "")
    if len(got) < len(before + after) or not got.startswith(before) or not got.endswith(after):
        return False
    got = got[len(before):len(got) - len(after)]
    if codes:
        mtch = re.match("\x1b\\[([0-9;]+)m", got)
        if mtch is None or sorted(known.split_codes(mtch[1])) != sorted(codes):
            return False
        got = got[mtch.end():]
    return got == text + ("\x1b[0m" if codes and reset else "")


def known_spans(report):
    """Spans of which everything is known, propagated as constants."""

    colors = {"foreground": ("Color((9, 8, 7))", "38;2;9;8;7"),
              "background": ("Color((1, 2, 3), True)", "48;2;1;2;3")}
    sets = [(), *((n,) for n in CODES), ("foreground",), ("background",), ("bold", "background"),
            ("dim", "strike", "foreground", "background"), tuple(CODES), (*CODES, *colors)]
    rows = []
    for chosen in sets:
        for text in ("abc", "", " ", "x", "\t\n ", "\u00e9;m"):
            for reset in (True, False):
                opts = "".join(f", {n}={colors[n][0] if n in colors else True}" for n in chosen)
                made = f"Span({text!r}{opts}{'' if reset else ', reset_after=False'}"
                codes = [colors[n][1] if n in colors else CODES[n] for n in chosen]
                for link in ("", " ", "http://a.b/c?d=e&f", "0"):
                    more = f", hyperlink={link!r})" if link else ")"
                    rows.append(("a span prints its text with its codes, closed", "Span.__str__",
                                 f"shown({made}{more})",
                                 lambda got, a=(text, codes, reset, link): right_text(got, *a)))
                for flags in ("", ", True", ", False, True", ", True, True"):
                    rows.append(("every character comes with the style asked for",
                                 "Span.get_characters", f"chars({made}){flags})",
                                 lambda got, a=(text, codes, reset, flags): right_chars(got, *a)))
    known.table(report, known.constant_interp(), HEAD, rows)


def right_chars(got, text, codes, reset, flags):
    if flags.startswith(", True"):
        codes = [c for c in codes if ";" not in c]
    always = flags.endswith(" True") and flags.count(",") == 2
    if not isinstance(got, tuple) or len(got) != len(text):
        return False
    for i, (one, char) in enumerate(zip(got, text)):
        last = i == len(text) - 1
        styled = codes if always or i == 0 else []
        tail = "\x1b[0m" if codes and reset and last else ""
        if tail and not one.endswith(tail):
            return False
        if not right_text(one[:len(one) - len(tail)], char, styled, False):
            return False
    return True


def special_lengths(report, ip, source, args):
    """Lengths of text the code compares with."""

    out = set()
    for node in ast.walk(ip.classes["Span"].node):
        if isinstance(node, ast.Constant) and type(node.value) is int:
            out |= {abs(node.value), abs(node.value) + 1, abs(node.value) + 2}
    for colors in COLORS[:1]:
        for extra in ("", "always_include_sequence=True", "exclude_color=True"):
            expr = span_of("text", *colors, "''", {"bold": "True"}) + f".get_characters({extra})"
            for path in attempt(report, ip, "splitting is followed", "Span.get_characters",
                                source.replace("{expr}", expr), args):
                for atom, _ in path.facts.order:
                    for part in atom[1:]:
                        if isinstance(part, Lin):
                            terms = list(subterms(part))
                            if any(isinstance(t, App) and t.op == "len" for t in terms) and not any(
                                    isinstance(t, Sym) and t.name.startswith("L") for t in terms):
                                edge = abs(int(part.const))
                                out |= {edge - 1, edge, edge + 1, edge + 2}
    return {n for n in out if 0 <= n <= 300}


def split_up(report, ip, source, args, flags, ink, inks, lengths):
    where_ = "Span.get_characters"
    some = {"bold": "b0", "invert": "b1", "opaque": "b2"}
    plans = []
    off = dict.fromkeys(CODES, "False")
    for plain in (False, True):
        for always in (False, True):
            for fore, back in COLORS:
                plans.append(({**off, **some}, fore, back, plain, always, 3))
            for style in CODES:
                plans.append(({**off, style: "True"}, "fg", "None", plain, always, 2))
            for length in lengths:
                for fore in ("fg", "None"):
                    plans.append(({**off, "bold": "b0"}, fore, "None", plain, always, length))
            for text in TEXTS:
                plans.append(({**off, "bold": "b0"}, "None", "bg", plain, always, text))
    for values, fore, back, plain, always, length in plans:
        if isinstance(length, str):
            shown, text, length = length, repr(length), len(length)
        else:
            chars = [f"c{i}" if i < 8 else "'x'" for i in range(length)]
            text = " + ".join(chars) or "''"
            shown = "".join(chr(0xE200 + i) if i < 8 else "x" for i in range(length))
        expr = span_of(text, fore, back, "'http://x'", values) + (
            f".get_characters(exclude_color={plain}, always_include_sequence={always})")
        results = attempt(report, ip, "splitting is followed", where_,
                          source.replace("{expr}", expr), args)
        terms = {k: flags[v] if v in flags else Const(v == "True") for k, v in values.items()}
        for path in results:
            if path.status == "backedge":
                continue
            when = f"{text[:40]}, exclude_color={plain}, always={always} when " \
                   f"{path.describe()[:120]}"
            if path.status != "return":
                report.judge(firm(path, False) if path.status == "raise" else None,
                             "a span can be split up", where_, f"{path.status} for {when}")
                continue
            items = path.value.items if isinstance(path.value, (LST, Tup)) else None
            if items is None:
                report.undecided("there is one string per character", where_, repr(path.value))
                continue
            report.judge(True if len(items) == length else firm(path, False),
                         "there is one string per character", where_,
                         f"{path.value!r} for {when}"[:300])
            if len(items) != length:
                continue
            for pos, item in enumerate(items):
                char = shown[pos]
                styled = always or pos == 0
                got = ink(item)
                detail = f"{item!r} at {pos} of {when}"
                last = pos == length - 1
                judge_char(report, path, got, ink, inks, terms, fore, back, char, args[4],
                           styled, last, not plain, where_, detail)
    report.count("split combinations", len(plans))


def judge_char(report, path, got, ink, inks, terms, fore, back, char, reset, styled, last,
               colors, where_, detail):
    what = "a character comes with the style asked for and the last with the reset"
    wanted = wanted_codes(path, terms, fore, back, colors)
    on = known_bool(path, reset)
    if wanted is None or (on is None and wanted and last):
        report.judge(firm(path, False), what, where_, f"an attribute makes no difference: {detail}")
        return
    head = re.match(r"(\x1b\[[^m]*m)?", got)[0]
    sep, tail = got[len(head):].startswith(char), got[len(head) + 1:]
    codes = []
    good, why = None, ""
    if not sep:
        good, why = False, "not the character"
    else:
        codes = split_codes(head[2:-1], inks) if head else []
        asked = sorted(wanted) if styled else []
        if sorted(set(codes)) != asked:
            good, why = False, f"codes {codes} instead of {asked}"
        elif len(codes) != len(set(codes)):
            good, why = None, "codes given twice"
        elif last and wanted and on:
            good, why = tail in ("\x1b[0m", "\x1b[m"), f"{tail!r} instead of a reset"
        else:
            good, why = tail == "", f"{tail!r} after the character"
    report.judge(firm(path, good) if good is False else good, what, where_, f"{why}: {detail}")
