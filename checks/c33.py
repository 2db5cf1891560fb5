"""C33: the terminal's answers to queries are decoded faithfully."""

from .c04 import fire
from .c32 import Script, decoder, factory
from .inputlab import *  # noqa: F403

TECHNIQUE = "abstract interpretation against a model of a terminal answering queries"
RULE = """for every kind of query (pixel size, default colors, synchronized updates) the model terminal
answers with a well-formed reply, a malformed or foreign one, or not at all (the alarm goes off, or
there is no terminal): the value is exactly the one a well-formed reply spells and the documented
fallback for everything else, never an exception; the query is the right sequence, written once and
flushed on the terminal object's own stream
before the answer is waited for, and nothing is written where there is no terminal"""
ASSUMPTIONS = ["a well-formed color reply has the four-digit form xterm documents, with both bytes"
               " of a channel alike", "the alarm interrupts the read in progress",
               "the thread that reads a color reply ends with it"]

VALUE = "a well-formed reply gives the value it spells"
FALLBACK = "anything else gives the fallback"
QUERY = "the query is sent to the terminal's own stream"
SILENT = "nothing is sent where there is no terminal"
LAYER = "each default color is asked for by its own number"


class Answers(Script):
    """A terminal that sends one reply (None: it never does), at standard input."""

    def __init__(self, reply):
        super().__init__([reply.encode()] if reply else [], False)

    def read(self, ip, args, kwargs, node):
        burst, pos, *_ = self.state(ip)
        if not self.bursts or burst >= len(self.bursts) or burst == len(self.bursts) - 1 \
                and pos >= len(self.bursts[-1]):
            ip.notes.append(("blocked",))
            return fire(ip, node)
        return super().read(ip, args, kwargs, node)


def machine(reply, tty=True, stubs=()):
    script = Answers(reply)
    known = TRUE if tty else FALSE
    ip = driver.interp(
        stubs={**NUMERIC, **dict(stubs), "set_echo": lambda *a: NONE_V},
        externals={"os.read": script.read, "select.select": script.select,
                   "codecs.getincrementaldecoder": factory,
                   "sys.stdin.isatty": lambda *a: known, "sys.stdout.isatty": lambda *a: known,
                   "sys.stdin.fileno": lambda *a: Const(7),
                   "os.get_terminal_size": lambda *a: Tup((Const(4), Const(2))),
                   "shutil.get_terminal_size": lambda *a: Tup((Const(4), Const(2)))},
        ext_methods={"decode": decoder, "isatty": lambda ip, recv, *a: known,
                     "fileno": lambda *a: Const(7)},
        skip_post_init=("Span",), max_paths=300)
    driver.find(ip, "slate.terminal", "Terminal")
    ip.config.env = {}
    return ip


def default(machine_, args, kwargs, node):
    layer = kwargs.get("layer", args[0] if args else NONE_V)
    stream = kwargs.get("stream", args[1] if len(args) > 1 else NONE_V)
    machine_.notes.append(("asked", layer, stream))
    vals = (1, 2, 3) if layer == Const("10") else (4, 5, 6) if layer == Const("11") else (7, 8, 9)
    return machine_.call(machine_.classes["Color"], [Tup(map(Const, vals))], {}, node)


def run(report):
    resolutions(report)
    synchronized(report)
    colors(report)
    layers(report)


def plain(val):
    """A known value as a Python one, or None."""

    if isinstance(val, Const):
        return val.val
    if isinstance(val, (Tup, LST)) and val.items is not None and all(
            isinstance(i, Const) for i in val.items):
        return tuple(i.val for i in val.items)
    return None


def sent(path):
    """(text written to the stream, was it flushed after it, was it written elsewhere)"""

    text, flushed, elsewhere = "", True, False
    for ev in path.trace:
        if ev.kind == "ext" and ev.name in ("Thread.join", "os.read") and not flushed:
            break  # waits for the answer
        if ev.kind != "ext" or str(ev.name).split(".")[-1] not in ("write", "flush"):
            continue
        if receiver(ev) != STREAM:
            elsewhere = True
        elif ev.name.endswith("flush"):
            flushed = True
        elif ev.args and isinstance(ev.args[0], Const):
            text += ev.args[0].val
            flushed = False
        else:
            return None, flushed, elsewhere
    return text, flushed, elsewhere


def judge_query(report, path, query, where_, label):
    text, flushed, elsewhere = sent(path)
    if text is None:
        report.undecided(QUERY, where_, label)
        return
    report.judge(text == query and flushed and not elsewhere, QUERY, where_,
                 f"sent {text!r}{'' if flushed else ', not flushed'}"
                 f"{', to another stream' if elsewhere else ''}: {label}")


def explore(report, ip, what, where_, source, args=(STREAM,)):
    for path in attempt(report, ip, what, where_, source, list(args)):
        if path.status == "raise":
            report.judge(False if raised_name(path) not in ("SystemExit",) else None, what, where_,
                         f"{raised_name(path)} {path.exc!r} when {path.describe()[-300:]}")
        elif path.status != "backedge":
            yield path


# -- pixel size ----------------------------------------------------------------------------

RESOLUTION = """
    from slate.terminal import Terminal
    def main(stream):
        return Terminal(stream{more}).resolution
"""
SIZES = [(800, 600), (1, 2), (3840, 2160), (0, 7), (99999, 10)]
GARBLED = ["", "x", "\x1b[4;600t", "\x1b[8;24;80t", "\x1b[4;;t", "\x1b[4;1;2", "\x1b[4;a;bt",
           "\x1b[A", "\x1b]4;600;800t", "4;600;800t", "\x1b[?4;600;800t", "\x1b[4;-1;2t",
           "x\x1b[4;600;800t"]


def resolutions(report):
    where_ = "Terminal.resolution"
    for fallback in ((1280, 720), (3, 7)):
        more = "" if fallback == (1280, 720) else f", resolution_fallback={fallback!r}"
        source = RESOLUTION.format(more=more)
        cases = [(f"\x1b[4;{h};{w}t", True, (w, h), VALUE) for w, h in SIZES]
        cases += [(text, True, fallback, FALLBACK) for text in GARBLED if text]
        cases += [(None, True, fallback, FALLBACK), (None, False, fallback, FALLBACK),
                  ("\x1b[4;600;800t", False, fallback, FALLBACK)]
        for reply, tty, want, what in cases:
            ip = machine(reply, tty, {"get_default_color": default})
            label = f"reply {reply!r}" if tty else "not a terminal"
            for path in explore(report, ip, what, where_, source):
                got = plain(path.value)
                report.judge(None if got is None else got == want, what, where_,
                             f"{got!r}, not {want!r}: {label}")
                if tty:
                    judge_query(report, path, "\x1b[14t", where_, label)
                else:
                    text, *_ = sent(path)
                    report.judge(None if text is None else text == "", SILENT, where_,
                                 f"{text!r}")


# -- synchronized updates ------------------------------------------------------------------

SYNC = """
    from slate.terminal import Terminal
    def main(stream):
        term = Terminal(stream)
        return (term.supports_synchronized_update, term.supports_synchronized_update)
"""


def synchronized(report):
    where_ = "Terminal.supports_synchronized_update"
    cases = [("\x1b[?2026;1$y", True), ("\x1b[?2026;2$y", True)]
    cases += [(r, False) for r in (
        "\x1b[?2026;0$y", "\x1b[?2026;3$y", "\x1b[?2026;4$y", "\x1b[?2027;1$y", "\x1b[2026;1$y",
        "x", "1", "\x1b[?2026;1", "2026;1$y", "\x1b[?2026;12$y", "\x1b[A", None)]
    for reply, want in cases:
        for tty in (True, False):
            ip = machine(reply, tty, {"get_default_color": default})
            good = want and tty
            what = VALUE if good else FALLBACK
            label = f"reply {reply!r}" if tty else "not a terminal"
            for path in explore(report, ip, what, where_, SYNC):
                got = plain(path.value)
                report.judge(None if got is None else got == (good, good), what, where_,
                             f"{got!r}: {label}")
                if tty:
                    judge_query(report, path, "\x1b[?2026$p", where_, label)


# -- colors --------------------------------------------------------------------------------

COLOR = """
    from slate.core import get_default_color
    def main(stream):
        color = get_default_color({layer!r}, stream{how})
        return (*color.rgb, color.is_background, color.alpha)
"""
DEFAULTS = {"10": (0xde,) * 3, "11": (0x14,) * 3}
CHANNELS = [("00", "00", "00"), ("ff", "ff", "ff"), ("12", "34", "56"), ("ab", "cd", "ef"),
            ("de", "ad", "be"), ("09", "90", "0f")]

# more digits than a channel keeps
PRECISE = [("12ab", "7f80", "ff00"), ("00ff", "80fe", "0180"), ("c0de", "fa01", "10ff")]


def close(got, expected):
    return len(got) == len(expected) and all(
        abs(g - e) < 1 if isinstance(e, float) and isinstance(g, int) and not isinstance(g, bool)
        else g == e for g, e in zip(got, expected))


def colors(report):
    where_ = "get_default_color"
    for layer, fallback in DEFAULTS.items():
        form = "\x1b]" + layer + ";rgb:{}/{}/{}\x1b\\"
        cases = [(form.format(*(c * 2 for c in cs)), tuple(int(c, 16) for c in cs), VALUE)
                 for cs in CHANNELS]
        cases += [(form.format(*cs), tuple(int(c, 16) / 257 for c in cs), VALUE)
                  for cs in PRECISE]
        cases += [(text, fallback, FALLBACK) for text in (
            "x", "\x1b[A", form.format("12", "34", "56"), form.format("1212", "3434", "xyzw"),
            form.format("wxyz", "3434", "5656"), form.format("1212", "ghgh", "5656"),
            "x" + form.format("1212", "3434", "5656"), form.format("12", "3434", "5656"),
            f"\x1b]{layer};rgb:1212/3434\x1b\\", f"\x1b]{layer};?\x1b\\", "rgb:1212/3434/5656",
            f"\x1b]4;1;rgb:1212/3434/5656\x1b\\", f"\x1b]12;rgb:1212/3434/5656\x1b\\", "\r")]
        for reply, want, what in cases:
            for tty in (True, False):
                ip = machine(reply, tty)
                expected = (want if tty else fallback) + (False, 1.0)
                label = f"{layer}: reply {reply!r}" if tty else f"{layer}: not a terminal"
                source = COLOR.format(layer=layer, how="")
                for path in explore(report, ip, what if tty else FALLBACK, where_, source):
                    got = plain(path.value)
                    report.judge(None if got is None else close(got, expected),
                                 what if tty else FALLBACK, where_,
                                 f"{got!r}, not {expected!r}: {label}")
                    if tty:
                        judge_query(report, path, f"\x1b]{layer};?\x1b\\", where_, label)
                    else:
                        text, *_ = sent(path)
                        report.judge(None if text is None else text == "", SILENT, where_,
                                     f"{text!r}")


def layers(report):
    source = """
    from slate.terminal import Terminal
    def main(stream):
        term = Terminal(stream)
        return (*term.foreground_color.rgb, *term.background_color.rgb)
    """
    ip = machine(None, True, {"get_default_color": default})
    where_ = "Terminal.foreground_color, Terminal.background_color"
    for path in explore(report, ip, LAYER, where_, source):
        got = plain(path.value)
        report.judge(None if got is None else got == (1, 2, 3, 4, 5, 6), LAYER, where_, f"{got!r}")
        for note in path.notes:
            if isinstance(note, tuple) and note[0] == "asked":
                report.judge(True if note[2] == STREAM else False if isinstance(
                    note[2], (Const, Sym)) else None, QUERY, where_, f"{note[2]!r}")
