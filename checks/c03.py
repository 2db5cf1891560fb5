"""C03: reading a key leaves the terminal's input settings as they were."""

from .common import *  # noqa: F403
from absint.repo import AnalysisBroken

RULE = """typestate over every path of a key read, with a fault injected at every input
operation (read, poll, decode): on each exit on which the line settings of a descriptor were
changed, the last operation on them must put back the unmodified value read from that same
descriptor before the first change; an interrupt of the read must come back as Ctrl-C"""
ASSUMPTIONS = ["termios calls themselves succeed",
               "an interrupt arrives while an input operation is in progress"]

DRIVER = """
from slate.core import getch
def main(stream, raw):
    return getch(stream, raw)
"""
STDIN = Sym("stdin", ("ext", "TextIO"))
RAW = Sym("raw", BOOL)
INPUTS = {"os.read": FAULTS, "select.select": FAULTS, "read": FAULTS, "sys.stdin.read": FAULTS,
          "decode": ("UnicodeDecodeError", "KeyboardInterrupt")}


def last_part(name):
    return name.rsplit(".", 1)[-1]


def arg(ev, idx, name):
    return ev.kwargs.get(name, ev.args[idx] if len(ev.args) > idx else None)


def run(report):
    ip = driver.interp(stubs={**NUMERIC, "parse_mouse_event": lambda *a: NONE_V},
                       may_raise=lambda ip, src: INPUTS.get(src, ()))
    driver.find(ip, "slate.core", "getch")
    results = driver.run(ip, DRIVER, lambda machine: [STDIN, RAW])
    report.saw(ip, results)
    changed_paths = faults = 0
    for path in results:
        if path.status == "backedge":
            continue
        raised = [e for e in path.trace if e.kind == "raised"]
        faults += bool(raised)
        detail = ", ".join(f"{e.exc} in {e.source}" for e in raised) or "input arrives"
        detail += f"; {path.describe()}"
        if path.status == "limit":
            report.undecided("path not followed to its end", "", detail)
            continue
        original, state, where_, changed, touched = {}, {}, {}, {}, set()
        for ev in path.trace:
            if ev.kind == "ext" and ev.name.startswith(("termios.", "tty.")):
                what = last_part(ev.name)
                fd = as_term(arg(ev, 0, "fd"))
                if what == "tcgetattr":
                    result = Sym(f"{ev.name}()", None)
                    original.setdefault(fd, ev)
                elif what in ("setcbreak", "setraw"):
                    state[fd], where_[fd] = ("changed", ev), ev.where
                    changed[fd] = True
                elif what == "tcsetattr":
                    state[fd] = ("set", arg(ev, 2, "attributes"))
                    where_[fd] = ev.where
                    changed[fd] = True
            elif ev.kind in ("mut", "setitem"):
                touched.add(id(ev.cont))
                touched.add(ev.cont)
        for fd in changed:
            changed_paths += 1
            kind, val = state[fd]
            report.judge(kind == "set", "the settings are put back on this exit",
                         where_[fd], detail)
            if kind != "set":
                continue
            good = original_value(path, fd, val)
            if good is True and val in touched:
                good = False
            report.judge(good, "what is put back is the value read before the change",
                         where_[fd], detail)
        if raised and raised[-1].exc == "KeyboardInterrupt":
            site = raised[-1].where
            if path.status == "raise" and raised_name(path) == "KeyboardInterrupt":
                report.bad("an interrupted read is reported as Ctrl-C", site, detail)
            elif path.status == "return":
                vals = key_values(path.value)
                good = None if vals is None else any(
                    v == Const("\x03") or v == Const("ctrl-c") for v in vals)
                report.judge(good, "an interrupted read is reported as Ctrl-C", site, detail)
    report.count("exits_with_changed_settings", changed_paths)
    report.count("faulting_exits", faults)
    if not faults:
        raise AnalysisBroken("no input operation was found in the key read")
    if not changed_paths:
        raise AnalysisBroken("the key read never changes the terminal settings")


def original_value(path, fd, val):
    """Is `val` the result of the tcgetattr made on `fd` before anything changed?"""

    first = None
    n = 0
    for ev in path.trace:
        if ev.kind != "ext" or not ev.name.startswith(("termios.", "tty.")):
            continue
        if last_part(ev.name) == "tcgetattr":
            name = f"{ev.name}()" + (f"#{n}" if n else "")
            n += 1
            if as_term(arg(ev, 0, "fd")) == fd and first is None:
                first = name
        elif as_term(arg(ev, 0, "fd")) == fd:
            break
    if isinstance(val, Sym):
        return val.name == first
    if isinstance(val, LST) and val.name:
        return True if val.name == first else None
    return None if not isinstance(val, Const) else False


def key_values(val):
    if isinstance(val, Obj):
        for field in val.fields.values():
            if isinstance(field, Tup):
                return list(field.items)
    return None
