"""C23: decoding terminal input never fails and reports mouse events faithfully."""

from .inputlab import *  # noqa: F403
from .c22 import REQUIRED, table as key_table
from absint.models import _exc

TECHNIQUE = "abstract interpretation of the decoders on texts with unknown parts"
RULE = """reports of every mouse code with unknown coordinates are decoded: the result is the name
of the event and exactly these coordinates, with release instead of click for released buttons;
texts that are no complete report, among them all one-character changes of one, and unknown texts
without an escape character, give no event; reading keys gives the event for input that ends with a
report, the names of the key table for exactly its sequences, and the unchanged text for anything
else and in raw mode; an interrupt is read as ctrl-c; nothing raises; a key is equal to exactly its
names"""
ASSUMPTIONS = ["input longer than one sequence is represented by a selection",
               "regular expressions match as Python defines"]

REPORT = "\x1b[<0;12;34M"
ODD = ["", "\x1b", "\x1b[", "\x1b[<", "\x1b[<M", "\x1b[<;;M", "\x1b[<0;1M", "\x1b[<0;1;M",
       "\x1b[<0;;1M", "\x1b[<;1;1M", "\x1b[<0;1;2;3M", "\x1b[<0;1;2", "\x1b[<0;1;2MM",
       "\x1b[<0;1;2M\n", "\n\x1b[<0;1;2M", "x\x1b[<0;1;2M", "\x1b[<0;1;2Mx", "[<0;1;2M",
       "\x1b[<0;-1;2M", "\x1b[<0;1.5;2M", "\x1b[< 0;1;2M", "\x1b[<0;1; 2M", "\x1b[<a;1;2M",
       "\x1b[<0;\u0663;2M", "\x1b[<\u0660;1;2M", "\x1b[<0;1;\u00b2M", "\x1b[0;1;2M", "\x1b<0;1;2M",
       "\x1b[<0;1;2N", "\x1b[<0;1;2mM", "\x1b[<00;1;2M", "\x1b[<0:1:2M", "\x1b[<999;1;2M",
       "\x1b[<1;1;2M", "\x1b[M !!", "\x1b[<0;1;2m\x1b", ";;", ";;M", "a;b;cM", "0;1;2M",
       "<0;1;2M", "\x1b\x1b[<0;1;2M", "\x1b[<\x1b[<0;1;2M", "\x1b[<<0;1;2M", "\x1b[[<0;1;2M",
       "\x1b[<0;1;2M\x1b[<", "mouse:left_click@1;2", "click", "\x1b[<0;1;2M\x1b[A", "\u6f22",
       "\x00", "\x1b]0;x\x07", "M", "m", "\x1bM", "\x1bm", "\x1b[<0;;M", "\x1b[<0", "\x1b[<0;",
       "\x1b[<+0;1;2M", "\x1b[<0;1;2M ", "\x1b[<0;1_0;2M", "\x1b[<0;1;2\x1bM"]


def complete(text):
    """(code, x, y, pressed) of a complete report."""

    mtch = re.fullmatch(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])", text)
    return (mtch[1], mtch[2], mtch[3], mtch[4] == "M") if mtch else None


def event_of(text):
    """The mouse event a text stands for: its name, None, or Ellipsis for codes that may be
    covered or not."""

    parts = complete(text)
    if parts is None:
        return None
    code, posx, posy, pressed = parts
    if str(int(code)) != code:
        return Ellipsis
    name, must = mouse_name(int(code), pressed)
    if name is None:
        return None
    return f"mouse:{name}@{posx};{posy}" if must else Ellipsis


def variants():
    """Every report with one character removed, doubled or changed."""

    out = dict.fromkeys(ODD)
    for code in (0, 18, 35, 64, 95):
        for posx, posy in ((0, 0), (1, 0), (0, 7), (10, 200), (222, 223), (255, 256), (256, 255),
                           (1000, 2), (3, 65536), (123456789, 10 ** 12)):
            out.update(dict.fromkeys(f"\x1b[<{code};{posx};{posy}{end}" for end in "Mm"))
    for base in (REPORT, "\x1b[<65;7;100m"):
        for pos in range(len(base)):
            out[base[:pos] + base[pos + 1:]] = None
            out[base[:pos] + base[pos] + base[pos:]] = None
            for char in "\x1b[<;Mm5 x\n\u0665":
                out[base[:pos] + char + base[pos + 1:]] = None
    return list(out)


def run(report):
    ip = input_interp()
    for text in variants():
        constant(report, ip, text)
    coordinates(report, ip)
    reading(report, ip)
    plain(report, ip)
    interrupts(report)
    equality(report, ip)


def constant(report, ip, text):
    where_ = "parse_mouse_event"
    want = event_of(text)
    for path in attempt(report, ip, "constants are decoded", where_, HEAD.format(
            body=f"return parse_mouse_event({text!r})"), ARGS):
        if path.status == "raise":
            report.judge(firm(path, False), "decoding never fails", where_,
                         f"{raised_name(path)} for {text!r}")
        elif path.status != "return" or not isinstance(path.value, Const):
            report.undecided("constants are decoded", where_, f"{path.status} for {text!r}")
        elif want is not Ellipsis:
            report.judge(path.value.val == want, "exactly complete reports are mouse events",
                         where_, f"{path.value!r} for {text!r} instead of {want!r}")


def firm(path, value):
    return value


def coordinates(report, ip):
    where_ = "parse_mouse_event"
    for code in list(range(100)) + [128, 255]:
        for end in "Mm":
            name, must = mouse_name(code, end == "M")
            expr = f"'\\x1b[<{code};' + x + ';' + y + '{end}'"
            for path in attempt(report, ip, "reports are decoded", where_, HEAD.format(
                    body=f"return parse_mouse_event({expr})"), ARGS):
                detail = f"{path.value!r} for {expr} when {path.describe()[:100]}"
                if path.status == "raise":
                    report.bad("decoding never fails", where_, f"{raised_name(path)} {detail}")
                elif path.status == "return" and path.value == NONE_V:
                    report.judge(not must, "a report is decoded", where_, detail)
                elif path.status == "return" and name is not None:
                    parts = [p for p in text_parts(path.value) if p != Const("")]
                    want = [Const(f"mouse:{name}@"), X, Const(";"), Y]
                    known = all(isinstance(p, Const) or p in (X, Y, Z) for p in parts)
                    report.judge(True if merged(parts) == want else False if known else None,
                                 "an event has exactly the coordinates reported", where_, detail)
                elif path.status == "return":
                    report.judge(False if isinstance(path.value, (Const, Cat)) else None,
                                 "a report is decoded", where_, detail)
                elif path.status != "backedge":
                    report.undecided("reports are decoded", where_, f"{path.status} {expr}")


def merged(parts):
    out = []
    for part in parts:
        if out and isinstance(part, Const) and isinstance(out[-1], Const):
            out[-1] = Const(out[-1].val + part.val)
        else:
            out.append(part)
    return out


def getch_texts(report, ip):
    """[(text, [acceptable names])] for reading keys; None for the key table's names."""

    for text in variants()[:180]:
        if not text or text in REQUIRED:
            continue
        want = event_of(text[max(text.rfind("\x1b"), 0):])
        if want is not Ellipsis:
            yield text, [want or text]
    for seq in REQUIRED:
        yield seq, None
    for one, two in ((REPORT, "\x1b[<35;7;8m"), ("abc", REPORT), ("\x1b[A", REPORT)):
        yield one + two, [event_of(two)]
    # nearly a key of the table
    known = set(key_table(report, ip))
    for text in sorted(known):
        for near in (text.lower(), text.upper(), text.swapcase(), text[:-1], text + "x",
                     "x" + text, text + "\n"):
            if near and near not in known and event_of(near[max(near.rfind("\x1b"), 0):]) is None:
                yield near, [near]
    # nothing like a key of the table
    for text in ["a", "A", "z", " ", "ab", "\x1b[A\x1b[A", "\x1b[A ", " \x1b[A", "\x1b[a",
                 "\x1b[1;2A\n", "\n\n", "\x7f\x7f", "\x1bx", "\u00e9", "\u6f22\u5b57", "up", "esc",
                 "ctrl-a", "\x1b[200~", "F1", "\x1b\x1b", "\x1b[", "\r\n", "\x1c", "\x1f",
                 "\x1b[99~", "\x1b[1;2", "0", "x" * 50, "\t ", "hello world\n"]:
        yield text, [text]


def reading(report, ip):
    where_ = "getch"
    for text, want in getch_texts(report, ip):
        for raw in (False, True):
            for path in attempt(report, ip, "keys are read", where_, HEAD.format(
                    body=f"feed({text!r})\n        return getch(stream, raw={raw})"), ARGS):
                if path.status == "backedge" or on_tty(path) is False:
                    continue
                got = names_of(path)
                if got is None or not all(isinstance(n, Const) for n in got):
                    report.judge(False if path.status == "raise" else None,
                                 "decoding never fails", where_,
                                 f"{path.status} {raised_name(path)} {got!r} for {text!r}")
                    continue
                got = [n.val for n in got]
                if raw:
                    report.judge(got == [text], "raw input is unchanged", where_,
                                 f"{got!r} for {text!r}")
                elif want is None:
                    report.judge(got != [text] and text not in got, "known keys are named",
                                 where_, f"{got!r} for {text!r}")
                else:
                    report.judge(got == want, "other input is unchanged, or the event it is",
                                 where_, f"{got!r} instead of {want!r} for {text!r}")


def plain(report, ip):
    """Unknown texts without an escape character."""

    for where_, body, result in (
            ("parse_mouse_event", "return parse_mouse_event(t)", None),
            ("parse_mouse_event", "return parse_mouse_event('\\x1b[' + t[:0] + x + y + 'M')", None),
            ("getch", "feed(t)\n        return getch(stream, raw=True)", TEXT)):
        for path in attempt(report, ip, "unknown text is decoded", where_,
                            HEAD.format(body=body), ARGS):
            detail = f"{body} when {path.describe()[:100]}"
            if path.status == "backedge" or result is not None and on_tty(path) is False:
                continue
            if path.status == "raise":
                report.judge(False, "decoding never fails", where_,
                             f"{raised_name(path)} for {detail}")
            elif path.status != "return":
                report.undecided("decoding never fails", where_, f"{path.status}: {detail}")
            elif result is None:
                report.judge(True if path.value == NONE_V else False if isinstance(
                    path.value, (Const, Cat)) else None,
                    "text without a report is no event", where_, f"{path.value!r} for {detail}")
            else:
                got = names_of(path)
                report.judge(None if got is None else True if got == (TEXT,) else False if all(
                    isinstance(p, Const) or p == TEXT for v in got for p in text_parts(v))
                    else None, "raw input is unchanged", where_, f"{got!r} for {detail}")


def interrupts(report):
    """An interrupt while waiting for a key."""

    def interrupted(machine, args, kwargs, node):
        raise _exc("KeyboardInterrupt", (), node)

    ip = input_interp(externals={"os.read": interrupted})
    where_ = "getch"
    for raw in (False, True):
        for path in attempt(report, ip, "interrupts are read", where_, HEAD.format(
                body=f"return getch(stream, raw={raw})"), ARGS):
            if path.status == "backedge" or on_tty(path) is False:
                continue
            if path.status == "raise":
                report.judge(False if raised_name(path) == "KeyboardInterrupt" else None,
                             "an interrupt is read as a key", where_,
                             f"{raised_name(path)}, raw={raw}")
                continue
            got = names_of(path)
            if got is None or not all(isinstance(n, Const) for n in got):
                continue
            want = ["\x03"] if raw else ["ctrl-c"]
            report.judge([n.val for n in got] == want, "an interrupt is read as a key", where_,
                         f"{got!r}, raw={raw}")


def equality(report, ip):
    where_ = "Key.__eq__"
    other = Sym("t", STR)
    values = ("tab", "ctrl-i")
    for expr, want in ([(f"key == {v!r}", True) for v in values]
                       + [(f"{v!r} == key", True) for v in values]
                       + [(f"key != {v!r}", False) for v in values]
                       + [(f"key == {v!r}", False) for v in ("", "ta", "i", "Tab", "tab ")]
                       + [("key == 5", False), ("key == None", False), ("key == ('tab',)", False)]
                       + [("str(key)", "tab"), ("list(key)", values),
                          ("'ctrl-i' in key", True), ("'ctrl' in key", False)]):
        for path in attempt(report, ip, "keys are compared", where_, HEAD.format(
                body=f"key = Key({values!r})\n        return {expr}"), ARGS):
            got = path.value
            if isinstance(got, LST) and got.items is not None:
                got = Const(tuple(getattr(i, "val", None) for i in got.items))
            if path.status == "raise":
                report.bad("keys can be compared with anything", where_, expr)
            elif path.status == "return" and isinstance(got, Const):
                report.judge(got.val == want, "a key equals exactly its names", where_,
                             f"{expr} is {got!r}")
            else:
                known = path.facts.implied(("truthy", got)) if isinstance(got, Term) else None
                report.judge(None if known is None else known == want,
                             "a key equals exactly its names", where_, f"{expr} is {got!r}")
    for path in attempt(report, ip, "keys are compared", where_, HEAD.format(
            body=f"key = Key({values!r})\n        return True if key == t else False"),
            [STREAM, X, Y, Z, other]):
        same_ = [path.facts.eq_implied(other, Const(v)) for v in values]
        want = True if True in same_ else False if same_ == [False, False] else None
        got = path.value.val if path.status == "return" and isinstance(path.value, Const) else None
        report.judge(None if want is None or got is None else got == want,
                     "a key equals exactly its names", where_,
                     f"{path.value!r} when {path.describe()[:100]}")
