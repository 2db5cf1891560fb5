"""C27: parsing styled text keeps every visible character, in order."""

from .spanlab import *  # noqa: F403
from .c17 import COLORS, State, color_right
from absint.models import to_list

TECHNIQUE = "abstract interpretation of the parser on strings with unknown text between sequences"
RULE = """strings of unknown texts (any length, empty too, any characters but ESC) around style
sequences are parsed: on every path the texts of the spans, put one after another, are exactly
the unknown texts that can be non-empty, in order and nothing else, and the span each lies in has
the styles the sequences before it leave in effect, beginning with none; parsing again begins anew;
the first span is that of the parsed ones; Terminal.write and write_bulk hand exactly these spans
to the screen"""
ASSUMPTIONS = ["regular expressions match as Python defines, on text pieces without ESC",
               "up to four sequences in a string, out of a selection of codes (C17 has all)"]

PLAIN = frozenset(map(chr, range(32, 127))) | set(
    "\n\t\0\a\b\r\v\f\x1c\x7f\x85\u00a0\u00e9\u2028\u6f22")
TEXTS = [Sym(f"t{i}", STR, meta=Shape(PLAIN, 0, 60)) for i in range(5)]
NAMES = [t.name for t in TEXTS]
SEQS = ["1", "0", "", "38;5;123", "48;2;0;22;99", "22", "3;30", "39;49", "4;0;9", "99", "25"]

DRIVER = """
    from slate.span import Span
    def main(t0, t1, t2, t3, t4):
        {before}
        return {call}
"""


def template(seqs):
    """Driver expression, and the state in which each text is."""

    expr, states, state = "t0", [State()], State()
    for pos, seq in enumerate(seqs):
        expr += f" + '\\x1b[{seq}m' + t{pos + 1}"
        for code in split(seq):
            state = state.after(code)
        states.append(state)
    return expr, states


def split(seq):
    return [seq] if seq in COLORS else seq.split(";")


def flat(spans):
    """[(piece of text, span)] of parsed spans; None when one is not known."""

    out = []
    for span in spans:
        if not isinstance(span, Obj) or "text" not in span.fields:
            return None
        for piece in text_parts(span.fields["text"]):
            if piece != Const(""):
                out.append((piece, span))
    return out


def empty(path, text):
    """True/False/None: a text is empty on this path."""

    known = path.facts.eq_implied(text, Const(""))
    if known is not None:
        return known
    lo, hi = path.facts.interval(App("len", (text,), INT))
    size = path.facts.implied(path.facts.lin_atom(Const(1), App("len", (text,), INT), False))
    if size is not None:
        return not size
    return True if hi < 1 else False if lo >= 1 else None


def judge(report, path, spans, states, where_, label, first=False):
    what = "the spans hold the text outside of sequences, all of it and in order"
    detail = f"{label} when {path.describe()[:160]}"
    parts = flat(spans)
    if parts is None:
        report.undecided(what, where_, f"{spans!r} for {detail}")
        return
    wanted = [(t, s) for t, s in zip(TEXTS, states)]
    pos = 0
    for piece, span in parts:
        while pos < len(wanted) and wanted[pos][0] != piece:
            gone = empty(path, wanted[pos][0])
            if gone is not True:
                known = piece in TEXTS or isinstance(piece, Const) or gone is False
                report.judge(firm(path, False) if known else None, what, where_,
                             f"{piece!r} instead of {wanted[pos][0]!r} in {detail}")
                return
            pos += 1
        if pos == len(wanted):
            report.judge(firm(path, False), what, where_, f"{piece!r} too much in {detail}")
            return
        styles(report, path, span, wanted[pos][1], where_, f"{piece!r} in {detail}")
        pos += 1
    for text, _ in wanted[pos:]:
        gone = empty(path, text)
        if first:
            continue
        if gone is not True:
            report.judge(firm(path, False), what, where_, f"{text!r} is missing in {detail}")
            return
    report.ok(what, where_)


def styles(report, path, span, state, where_, label):
    what = "a text has the styles in effect where it is"
    for name, want in state.items():
        got = span.fields.get(name)
        if name.endswith("ground"):
            right = color_right(path, got, want, name)
        else:
            value = known_bool(path, got)
            right = None if value is None else value == want
        report.judge(firm(path, right) if right is False else right, what, where_,
                     f"{name} is {got!r} instead of {want!r} for {label}")
    for name, want in (("hyperlink", Const("")), ("reset_after", TRUE)):
        report.judge(same_field(path, span.fields.get(name), want), what, where_,
                     f"{name} is {span.fields.get(name)!r} for {label}")


def parsed(report, ip, seqs, before="pass"):
    where_ = "Span.yield_from"
    expr, states = template(seqs)
    results = attempt(report, ip, "parsing is followed", where_,
                      DRIVER.format(before=before, call=f"list(Span.yield_from({expr}))"), TEXTS)
    for path in results:
        if path.status == "backedge":
            continue
        items = path.value.items if path.status == "return" and isinstance(
            path.value, LST) else None
        if items is None:
            report.judge(firm(path, False) if path.status == "raise" else None,
                         "a string of text and sequences is parsed", where_,
                         f"{path.status} {raised_name(path)} for {expr}")
            continue
        judge(report, path, items, states, where_, f"{before}; {expr}" if before != "pass"
              else expr)


def run(report):
    ip = span_interp(max_paths=2000)
    fixed(report, ip)
    parsed(report, ip, [])
    for one in SEQS:
        parsed(report, ip, [one])
        for two in SEQS:
            parsed(report, ip, [one, two])
    triples = [("1", "0", "3;30"), ("38;5;123", "1", "39;49"), ("1", "22", "4;0;9"),
               ("48;2;0;22;99", "38;5;123", "")]
    for three in triples + ([(a, b, c) for a in SEQS for b in SEQS[:4] for c in SEQS[:4]]
                            if THOROUGH else []):
        parsed(report, ip, three)
    parsed(report, ip, ["1", "3;30", "22", "48;2;0;22;99"])
    parsed(report, ip, ["3"], before=r"list(Span.yield_from('x\x1b[1;31my'))")
    parsed(report, ip, [], before=r"a = list(Span.yield_from('\x1b[1;31m'))")
    firsts(report, ip)
    written(report)


CONSTANT = ["", "a", " ", "m", "ab \n", "1;2", "[1m", "\nx", "0", "H[m", "\u6f22\t", "[", "x" * 30,
            "a\0", "\0\0", "\a\b", "a\x1bb", "\r", "x\x7f", "\u2028\u00a0", "\x1b]x", "\ufeffa\ufeff"]
CODES = ["1", "0", "38;5;123", "3;30", "5", "4;9", "7", "22", "2", "48;2;0;22;99", "", "100"]


def constants():
    """[(text, [(visible text, State)])] of strings without unknown parts."""

    lines = [([a], []) for a in CONSTANT]
    for num, text in enumerate(CONSTANT):
        other = CONSTANT[(num * 5 + 3) % len(CONSTANT)]
        lines.append(([text, other], [CODES[num % len(CODES)]]))
        lines.append(([text, "", other], ["1", CODES[(num + 4) % len(CODES)]]))
        lines.append(([text, text, other, text],
                      [CODES[(num * k + k) % len(CODES)] for k in (1, 5, 7)]))
    lines += [(["", "x", "y", "z"], [code, "1", code]) for code in CODES]
    lines += [(["", "x", "y"], [code, "38;5;123"]) for code in CODES]
    for texts, seqs in lines:
        state, out, line = State(), [], texts[0]
        out.append((texts[0], state))
        for seq, text in zip(seqs, texts[1:]):
            for code in split(seq):
                state = state.after(code)
            line += f"\x1b[{seq}m{text}"
            out.append((text, state))
        yield line, [(t, s) for t, s in out if t]


def judge_constant(report, path, spans, want, where_, line):
    what = "the spans hold the text outside of sequences, all of it and in order"
    parts = flat(spans) if spans is not None else None
    if parts is None or any(not isinstance(p, Const) for p, _ in parts):
        report.undecided(what, where_, repr(line))
        return
    got = [(char, span) for piece, span in parts for char in piece.val]
    chars = [(char, state) for text, state in want for char in text]
    if [c for c, _ in got] != [c for c, _ in chars]:
        report.judge(firm(path, False), what, where_,
                     f"{''.join(c for c, _ in got)!r} of {line!r}")
        return
    report.ok(what, where_)
    seen = None
    for (char, span), (_, state) in zip(got, chars):
        if (id(span), id(state)) != seen:
            styles(report, path, span, state, where_, f"{char!r} in {line!r}")
        seen = id(span), id(state)


def fixed(report, ip):
    """Strings without unknown parts, texts that look like parts of sequences among them."""

    for line, want in constants():
        for where_, call, first in (("Span.yield_from", f"list(Span.yield_from({line!r}))", False),
                                    ("Span.first_from", f"Span.first_from({line!r})", True)):
            for path in attempt(report, ip, f"{where_} is followed on constants", where_,
                                DRIVER.format(before="pass", call=call), TEXTS):
                if path.status != "return":
                    report.judge(firm(path, False) if path.status == "raise" else None,
                                 "a string of text and sequences is parsed", where_,
                                 f"{path.status} {raised_name(path)} for {line!r}")
                    continue
                if not first:
                    judge_constant(report, path, ip_items(path.value), want, where_, line)
                elif path.value == NONE_V:
                    report.judge(firm(path, not want), "the first span is the one with the first "
                                 "text", where_, f"None for {line!r}")
                else:
                    judge_constant(report, path, [path.value], want[:1], where_, line)


def ip_items(val):
    return val.items if isinstance(val, LST) else None


def firsts(report, ip):
    where_ = "Span.first_from"
    for seqs in ([], ["1"], ["1", "0"], ["38;5;123", "3;30"]):
        expr, states = template(seqs)
        for path in attempt(report, ip, "parsing is followed", where_, DRIVER.format(
                before="pass", call=f"Span.first_from({expr})"), TEXTS):
            if path.status != "return":
                report.judge(firm(path, False) if path.status == "raise" else None,
                             "the first span can be asked for", where_, f"{path.status}: {expr}")
                continue
            if path.value == NONE_V:
                some = [t for t in TEXTS[:len(states)] if empty(path, t) is not True]
                report.judge(firm(path, False) if some else True,
                             "the first span is the one with the first text", where_,
                             f"None for {expr} when {path.describe()[:120]}")
                continue
            judge(report, path, [path.value], states, where_, expr, first=True)
            # nothing visible may come before it
            parts = flat([path.value]) or []
            if parts:
                ahead = TEXTS[:TEXTS.index(parts[0][0])] if parts[0][0] in TEXTS else []
                bad = [t for t in ahead if empty(path, t) is not True]
                report.judge(firm(path, False) if bad else True,
                             "the first span is the one with the first text", where_, expr)


def written(report):
    """Strings written to the terminal arrive at the screen as the parsed spans."""

    got = []

    def write_stub(ip, args, kwargs, node):
        names = ["self", "spans", "cursor", "force_overwrite", "terminal_background"]
        call = {**dict(zip(names, args)), **kwargs}
        ip.notes.append(("spans", consumed(ip, call["spans"], node), call))
        return Sym(ip.fresh("changes"), INT)

    def bulk_stub(ip, args, kwargs, node):
        names = ["self", "data", "force_overwrite", "terminal_background"]
        call = {**dict(zip(names, args)), **kwargs}
        rows = ip.seq_items(call["data"], node)
        out = None
        if rows is not None:
            out = []
            for row in rows:
                pair = ip.seq_items(row, node)
                out.append((pair[0], consumed(ip, pair[1], node)) if pair and len(pair) == 2
                           else None)
        ip.notes.append(("rows", out, call))
        return Sym(ip.fresh("changes"), INT)

    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              "set_echo": lambda *a: Const(None), "Screen.write": write_stub,
                              "Screen.write_bulk": bulk_stub},
                       skip_post_init=("Color",), max_paths=2000)
    driver.find(ip, "slate.terminal", "Terminal")
    head = """
        from slate.terminal import Terminal
        from slate.span import Span
        def main(stream, t0, t1, t2, t3, t4, x, y, force):
            term = Terminal(stream)
            return {call}
    """
    args = [STREAM, *TEXTS, Sym("x", INT), Sym("y", INT), Sym("force", BOOL)]
    cursor = Tup((args[6], args[7]))
    for line, want in constants():
        for where_, call in (("Terminal.write", f"term.write({line!r}, (x, y))"),
                             ("Terminal.write_bulk", f"term.write_bulk([((x, y), {line!r})])")):
            what = "a string is written to the screen"
            for path in attempt(report, ip, f"{where_} is followed on constants", where_,
                                head.format(call=call), args):
                if path.status == "backedge":
                    continue
                notes = [n for n in path.notes if n[0] in ("spans", "rows")]
                if path.status != "return" or len(notes) != 1:
                    report.judge(firm(path, False) if path.status in ("raise", "return") and
                                 not notes else None, what, where_,
                                 f"{path.status} {raised_name(path)} for {call}")
                    continue
                kind, spans, _ = notes[0]
                if kind == "rows" and spans is not None:
                    if len(spans) != 1:
                        report.judge(firm(path, False), what, where_, call)
                        continue
                    spans = spans[0] and spans[0][1]
                judge_constant(report, path, spans, want, where_, line)
    for seqs in ([], ["1"], ["3;30", "0"], ["38;5;123", "22"]):
        expr, states = template(seqs)
        for call, given in ((f"term.write({expr})", {}),
                            (f"term.write({expr}, (x, y), force)", {"cursor": cursor}),
                            (f"term.write([s for s in Span.yield_from({expr})], cursor=(x, y))",
                             {"cursor": cursor})):
            where_ = "Terminal.write"
            for path in attempt(report, ip, "writing is followed", where_,
                                head.format(call=call), args):
                if path.status == "backedge":
                    continue
                notes = [n for n in path.notes if n[0] in ("spans", "rows")]
                if path.status != "return" or len(notes) != 1 or notes[0][0] != "spans":
                    report.judge(firm(path, False) if path.status in ("raise", "return") and not
                                 notes else None,
                                 "a string is written to the screen", where_,
                                 f"{path.status} {raised_name(path)} for {call}")
                    continue
                if notes[0][1] is None:
                    report.undecided("a string is written to the screen", where_, call)
                    continue
                judge(report, path, notes[0][1], states, where_, call)
                for name, want in given.items():
                    report.judge(same_value(path, notes[0][2].get(name), want),
                                 "a string is written where asked", where_, call)
        call = f"term.write_bulk([((x, y), {expr}), ((y, x), 'plain'), ((x, x), [Span('it')])])"
        where_ = "Terminal.write_bulk"
        for path in attempt(report, ip, "writing is followed", where_,
                            head.format(call=call), args):
            if path.status == "backedge":
                continue
            notes = [n for n in path.notes if n[0] in ("spans", "rows")]
            rows = notes[0][1] if len(notes) == 1 and notes[0][0] == "rows" else None
            if path.status != "return" or rows is None or len(rows) != 3 or None in rows:
                report.judge(firm(path, False) if path.status == "raise" or (
                    rows is not None and len(rows) != 3) else None,
                    "strings are written to the screen", where_, f"{path.status} for {call}")
                continue
            for (pos, spans), want_pos, want in zip(
                    rows, (cursor, Tup((args[7], args[6])), Tup((args[6], args[6]))),
                    (None, "plain", "it")):
                report.judge(same_value(path, pos, want_pos), "a string is written where asked",
                             where_, call)
                if spans is None:
                    report.undecided("strings are written to the screen", where_, call)
                elif want is None:
                    judge(report, path, spans, states, where_, call)
                else:
                    parts = flat(spans)
                    report.judge(None if parts is None else True if [
                        p for p, _ in parts] == [Const(want)] else firm(path, False),
                        "strings are written to the screen", where_, f"{parts!r} for {want}")


def consumed(ip, val, node):
    out = ip.seq_items(val, node)
    if out is None and isinstance(val, (Gen, Lazy)):
        out = to_list(ip, val, node).items
    return out
