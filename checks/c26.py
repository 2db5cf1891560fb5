"""C26: fed input is delivered completely, once and in order."""

from .common import *  # noqa: F403

TECHNIQUE = "abstract interpretation of feed/read histories with an explicit stream state"
RULE = """over histories of feeding and reading keys, with unknown and with constant texts: a read
after text was fed returns exactly the texts fed since the last read, in order, without touching
the terminal; a read with nothing fed does ask the terminal and its result has no part of what was
fed before"""
ASSUMPTIONS = ["io.StringIO behaves as Python defines", "the stream read from is a terminal",
               "os.read may give any bytes",
               "histories of up to eight feeds and reads"]

CONSTANT = {"a": "x", "b": "\x1b[A", "c": " hello\r\n", "d": "\u6f22\tX" + "long " * 40 + "\x1b"}
OTHER = {"a": "\x03", "b": "\x03", "c": "AbC\0", "d": "\x1b[<0;1;2Mq"}
ODD = {"a": "AbC\0", "b": " \0 ", "c": "\n", "d": "\t"}
EVEN_ODDER = {"a": "\0", "b": "\x7f", "c": "\x1b", "d": "\u2028"}

HEAD = """
    from slate.core import feed, getch
    def main(stream, a, b, c, d):
        out = []
        {body}
        return out
"""

# f: feed the next text, r: read
HISTORIES = ["fr", "ffr", "fffr", "frfr", "ffrfr", "frffr", "frfrfr", "frr", "ffrr", "frrfr",
             "rfr", "rffr", "frrffr", "frfrr", "ffrfrfr"]


def history(ops, names, raw):
    """(driver body, [texts each read has to give])"""

    body, wanted, since, pending = [], [], list(names), []
    for op in ops:
        if op == "f":
            body.append(f"feed({since[0]})")
            pending.append(since.pop(0))
        else:
            body.append(f"out.append(getch(stream, raw={raw}))")
            wanted.append(pending)
            pending = []
    return "\n        ".join(body), wanted


def asked(path):
    """The terminal was asked for input on this path."""

    return any(n[0] == "terminal" for n in path.notes) or any(
        e.kind == "ext" and str(e.data.get("name", "")).split(".")[-1] in (
            "select", "tcgetattr", "setcbreak", "setraw", "kbhit") for e in path.trace)


def mentions(val, names):
    text = repr(val)
    return [n for n in names if re.search(rf"\b{n}\b", text)]


def empties(path, sym):
    known = path.facts.eq_implied(sym, Const(""))
    if known is None:
        truth = path.facts.implied(("truthy", sym))
        known = None if truth is None else not truth
    return known


def run(report):
    ip = driver.interp(stubs=NUMERIC, skip_post_init=("Color", "Span"), max_paths=3000,
                       externals={"os.read": reading})
    driver.find(ip, "slate.core", "getch")
    for ops in HISTORIES + (["fffrfffr", "frfrfrfr", "rrfrrfr"] if THOROUGH else []):
        constant(report, ip, ops, True)
        constant(report, ip, ops, True, OTHER)
        constant(report, ip, ops, True, ODD)
        constant(report, ip, ops, True, EVEN_ODDER)
    for ops in HISTORIES[:9]:
        constant(report, ip, ops, False)
    for ops in HISTORIES:
        unknown(report, ip, ops)


def reading(ip, args, kwargs, node):
    ip.notes.append(("terminal", len(ip.trace)))
    return Sym(ip.fresh("typed"), BYTES)


def keys_of(path):
    if not isinstance(path.value, LST) or path.value.items is None:
        return None
    out = []
    for item in path.value.items:
        vals = item.fields.get("possible_values") if isinstance(item, Obj) else None
        if vals is None or isinstance(vals, Tup) and not vals.items:
            return None
        out.append(tuple(vals.items) if isinstance(vals, Tup) else (vals,))
    return out


def on_tty(path):
    return path.facts.implied(("truthy", App("isatty", (STREAM,), BOOL)))


def constant(report, ip, ops, raw, texts=CONSTANT):
    where_ = "feed, getch"
    names = [repr(v) for v in texts.values()]
    body, wanted = history(ops, names, raw)
    label = body.replace("\n        ", "; ")
    for path in attempt(report, ip, "constant histories are followed", where_,
                        HEAD.format(body=body), [STREAM] + [Sym(n, STR) for n in "abcd"]):
        if path.status == "backedge" or on_tty(path) is not True:
            continue
        judge(report, path, [[Const(eval(t)) for t in texts] for texts in wanted], label, raw)


def unknown(report, ip, ops):
    where_ = "feed, getch"
    syms = {n: Sym(n, STR) for n in "abcd"}
    body, wanted = history(ops, "abcd", True)
    label = body.replace("\n        ", "; ")
    for path in attempt(report, ip, "histories are followed", where_,
                        HEAD.format(body=body), [STREAM, *syms.values()]):
        if path.status == "backedge" or on_tty(path) is not True:
            continue
        judge(report, path, [[syms[t] for t in texts] for texts in wanted], label, True)


def judge(report, path, wanted, label, raw):
    where_ = "feed, getch"
    keys = keys_of(path) if path.status == "return" else None
    reads = asked(path)
    asks = 0
    if keys is None or len(keys) != len(wanted):
        report.judge(False if path.status == "raise" and not reads else None,
                     "keys can be read", where_, f"{path.status} {raised_name(path)}: {label}")
        return
    for num, (got, texts) in enumerate(zip(keys, wanted)):
        texts = [t for t in texts if isinstance(t, Const) or empties(path, t) is not True]
        maybe = [t for t in texts if not isinstance(t, Const) and empties(path, t) is not False]
        detail = f"read {num + 1} of {label} when {path.describe()[:150]}"
        if not texts:
            asks += 1
            names = [s for t in wanted[:num] for s in t]
            left = [s for s in names if any(
                p == s for v in got for p in text_parts(v)) or isinstance(s, Sym)
                and mentions(got, [s.name])]
            report.judge(False if left else True, "fed text is delivered once", where_,
                         f"{left!r} again in {detail}")
            report.judge(True if reads else False, "without fed text the terminal is asked",
                         where_, detail)
            continue
        if len(maybe) == len(texts) and (len(texts) == 1 or path.facts.eq_implied(
                Cat(texts), Const("")) is not False):
            asks += 1
            report.undecided("fed text is delivered", where_, detail)
            continue
        want = "".join(t.val for t in texts) if all(isinstance(t, Const) for t in texts) else None
        what = "a read gives all text fed since the last one, in order"
        if want is not None:
            if raw:
                right = got == (Const(want),) or list(got) == [Const(want)]
            else:
                right = want == "\x1b[A" or any(v == Const(want) for v in got)
            report.judge(bool(right), what, where_, f"{got!r} instead of {want!r}: {detail}")
            continue
        parts = [p for v in got for p in text_parts(v) if p != Const("")]
        parts = [p for p in parts if p in texts or not (
            isinstance(p, Sym) and p.name in "abcd" and empties(path, p) is True)]
        report.judge(True if len(got) == 1 and parts == texts else False if parts and all(
            isinstance(p, (Sym, Const)) for p in parts) else None,
            what, where_, f"{got!r} instead of {texts!r}: {detail}")
    if not asks:
        report.judge(False if reads else True, "fed text goes before the terminal", where_, label)
