"""C32: a key read takes all the input that is ready, whole, and ends with it."""

import codecs

from .inputlab import *  # noqa: F403
from absint.models import _exc

TECHNIQUE = "abstract interpretation against a model of a terminal delivering bytes in bursts"
RULE = """reads are answered by a model terminal that holds scripted bursts of bytes, reports them as
ready, blocks in between and may end: a raw key read gives exactly the text of the burst that was
ready, and more only to complete a character; it reads neither when nothing is ready after that nor
again once the input has ended; the stream asked and polled is the one given"""
ASSUMPTIONS = ["select and os.read behave as POSIX says", "the incremental decoders are Python's",
               "the input is valid in the stream's encoding"]

WHOLE = "everything that is ready is returned, whole and in order"
ENOUGH = "nothing is waited for once the input that was ready is read"
ENDS = "a read ends when the input has ended"
SOURCE = "the stream given is the one that is read"

HEAD = """
    from slate.core import getch, getch_timeout
    class Stream:
        encoding = {encoding!r}
        def isatty(self):
            return True
        def fileno(self):
            return 7
    def main(x):
        stream = Stream()
        out = []
        for _ in range({count}):
            out.append({call})
        return out
"""
CALL = "getch(stream, raw=True)"


class Script:
    """What a terminal delivers; its state is kept in the notes of the path."""

    def __init__(self, bursts, ended):
        self.bursts, self.ended = bursts, ended

    def state(self, ip):
        for note in reversed(ip.notes):
            if isinstance(note, tuple) and note[0] == "io":
                return note[1:]
        return 0, 0, 0, 0

    def read(self, ip, args, kwargs, node):
        if args[0] != Const(7):
            ip.notes.append(("elsewhere", repr(args[0])))
        burst, pos, past, count = self.state(ip)
        want = args[1].val if len(args) > 1 and isinstance(args[1], Const) else None
        if not isinstance(want, int):
            return Sym(ip.fresh("read"), BYTES)
        if burst < len(self.bursts) and pos >= len(self.bursts[burst]):
            burst, pos = burst + 1, 0
        if burst >= len(self.bursts):
            ip.notes.append(("io", burst, pos, past + 1, count + 1))
            if not self.ended:
                ip.notes.append(("blocked",))
                raise _exc("SystemExit", (), node)
            if past > 6:
                ip.notes.append(("hang",))
                raise _exc("SystemExit", (), node)
            return Const(b"")
        data = self.bursts[burst][pos:pos + want]
        ip.notes.append(("io", burst, pos + len(data), past, count + 1))
        return Const(data)

    def select(self, ip, args, kwargs, node):
        burst, pos, past, count = self.state(ip)
        rlist = args[0] if args else None
        items = ip.seq_items(rlist, node) if rlist is not None else None
        if items is not None and not all(
                i == Const(7) or isinstance(i, Obj) and i.cls is not None
                and i.cls.name == "Stream" for i in items):
            ip.notes.append(("elsewhere", repr(items)))
        more = burst < len(self.bursts) and pos < len(self.bursts[burst])
        over = burst >= len(self.bursts) or burst == len(self.bursts) - 1 and not more
        ready = more or self.ended and over
        if not ready and count == 0 and self.bursts:
            ready = True  # the first burst is there already
        polls = next((n[1] for n in reversed(ip.notes) if isinstance(n, tuple)
                      and n[0] == "poll"), 0)
        ip.notes.append(("poll", polls + 1))
        if polls > 120 + 2 * sum(map(len, self.bursts)):
            ip.notes.append(("hang",))
            raise _exc("SystemExit", (), node)
        empty = ip.new_list([], node)
        return Tup((ip.new_list(list(items or []) if ready else [], node), empty,
                    ip.new_list([], node)))


def decoder(ip, recv, args, kwargs, node):
    """The decode method of an incremental decoder."""

    if not args or not isinstance(args[0], Const) or not isinstance(args[0].val, bytes):
        return NotImplemented
    key = repr(recv)
    encoding, state = "utf-8", None
    for note in reversed(ip.notes):
        if isinstance(note, tuple) and note[0] == "fed" and note[1] == key:
            encoding, state = note[2:]
            break
        if isinstance(note, tuple) and note[0] == "encoding":
            encoding = note[1]
            break
    real = codecs.getincrementaldecoder(encoding)()
    if state is not None:
        real.setstate(state)
    final = bool(len(args) > 1 and isinstance(args[1], Const) and args[1].val)
    try:
        text = real.decode(args[0].val, final)
    except UnicodeDecodeError:
        raise _exc("UnicodeDecodeError", (), node) from None
    ip.notes.append(("fed", key, encoding, real.getstate()))
    return Const(text)


def factory(ip, args, kwargs, node):
    enc = args[0].val if isinstance(args[0], Const) else "utf-8"
    ip.notes.append(("encoding", enc))
    return Sym(ip.fresh("decoder"), ("ext", "decoder"))


def machine(script):
    ip = input_interp(externals={
        "os.read": script.read, "select.select": script.select,
        "codecs.getincrementaldecoder": factory},
        ext_methods={"decode": decoder})
    ip.config.env = {}
    ip.config.unroll += sum(map(len, script.bursts))
    return ip


def read_at(bursts, start, encoding):
    """(text, next burst) a read gives that starts at a burst: characters are completed."""

    real = codecs.getincrementaldecoder(encoding)()
    text, pos = "", start
    while pos < len(bursts):
        text += real.decode(bursts[pos])
        pos += 1
        if text and not real.getstate()[0]:
            break
    return text, pos


TEXTS = [["a"], ["\x1b[A"], ["\x1b[1;5C"], ["\u00e9"], ["\u6f22\u5b57"], ["a\u00e9b\U0001f600c"],
         ["\x1b"], ["\x1b[<0;12;34M"], ["\r"], ["\x00"], ["x" * 60], ["Ab " + "".join(map(chr, range(32))) + "\x7f \u00a0"], ["a", "b"],
         ["\x1b[", "A"], ["\u00e9", "\x1b[B", "z"], ["\x7f", "\x03", "\x1bOP"]]


def run(report):
    for encoding in ("utf-8", "latin-1"):
        for text in TEXTS:
            try:
                bursts = [t.encode(encoding) for t in text]
            except UnicodeEncodeError:
                continue
            judge(report, bursts, False, encoding)
            judge(report, bursts, True, encoding)
    # more than a buffer holds
    judge(report, [b"paste" * 900], False, "utf-8")
    for bursts in ([b"\xc3", b"\xa9"], [b"\xe6", b"\xbc\xa2q"], [b"a\xe6\xbc", b"\xa2"],
                   [b"\xf0\x9f", b"\x98", b"\x80"], [b"\xc3", b"\xa9", b"b"]):
        judge(report, bursts, False, "utf-8")
    for bursts in ([], [b"\xc3"], [b"ab\xe6\xbc"]):
        ending(report, bursts)


def judge(report, bursts, ended, encoding):
    script = Script(bursts, ended)
    ip = machine(script)
    where_ = "_getch_posix"
    wanted, pos = [], 0
    while pos < len(bursts):
        text, pos = read_at(bursts, pos, encoding)
        wanted.append(text)
    label = f"{bursts!r}"[:300] + f" in {encoding}" + (", then the end" if ended else "")
    for path in attempt(report, ip, WHOLE, where_, HEAD.format(
            encoding=encoding, count=len(wanted), call=CALL), [Sym("x", STR)]):
        if path.status == "backedge":
            continue
        notes = {n[0] for n in path.notes if isinstance(n, tuple)}
        report.judge("elsewhere" not in notes, SOURCE, where_, label)
        if "hang" in notes:
            report.bad(ENDS, where_, label)
            continue
        if "blocked" in notes:
            report.bad(ENOUGH, where_, label)
            continue
        if path.status != "return" or not isinstance(path.value, LST) or path.value.items is None:
            report.undecided(WHOLE, where_, f"{path.status} {path.exc!r} {label}")
            continue
        report.ok(ENDS if ended else ENOUGH, where_)
        for want, got in zip(wanted, path.value.items):
            vals = got.fields.get("possible_values") if isinstance(got, Obj) else None
            if not isinstance(vals, Tup) or not all(isinstance(v, Const) for v in vals.items):
                report.undecided(WHOLE, where_, f"{vals!r} of {got!r} for {label}"[-600:])
                continue
            report.judge([v.val for v in vals.items] == [want], WHOLE, where_,
                         f"{[v.val for v in vals.items]!r}, not {want!r}: {label}")


def ending(report, bursts):
    """The input ends before a character is complete, or before anything came."""

    ip = machine(Script(bursts, True))
    label = f"{bursts!r}, then the end"
    for path in attempt(report, ip, ENDS, "_getch_posix", HEAD.format(
            encoding="utf-8", count=1, call=CALL), [Sym("x", STR)]):
        if path.status == "backedge":
            continue
        hang = any(n == ("hang",) for n in path.notes if isinstance(n, tuple))
        report.judge(False if hang else True if path.status in ("return", "raise") else None,
                     ENDS, "_getch_posix", label)
