"""C01: modes set by a context manager are undone on every exit."""

import re

from .common import *  # noqa: F403
from absint.repo import AnalysisBroken

RULE = """typestate over every path through each mode-changing context manager of the terminal
class, with the body leaving normally, by return and by Exception / KeyboardInterrupt /
SystemExit: the abstract sequence of stream writes and stty calls is run through the DEC
private mode automaton; each mode must be active in the body and back (and flushed) at every
exit, and the body's exception must leave the context manager"""
ASSUMPTIONS = ["writes to the stream and stty themselves succeed",
               "whether stdin is a tty does not change during the context"]

DRIVER = """
def main(term, body):
    with term.{call}:
        body()
def returning(term, body):
    with term.{call}:
        body()
        return 1
"""

# context manager -> (call, modes that must be active in the body)
CONTEXTS = [
    ("alt_buffer", "alt_buffer(hide_cursor=True)", {"1049": True, "25": False}),
    ("alt_buffer", "alt_buffer()", {"1049": True, "25": False}),
    ("alt_buffer", "alt_buffer(hide_cursor=False)", {"1049": True}),
    ("report_mouse", "report_mouse()", {"1006": True, "1002|1003": True}),
    ("batch", "batch()", {"2026": True}),
    ("no_echo", "no_echo()", {"echo": False}),
]
INITIAL = {"25": True, "echo": True}
MODE = re.compile(r"\x1b\[\?([0-9;]+)([hl])")


def steps(path, stream):
    """(kind, payload, event) of every effect on the terminal."""

    for ev in path.trace:
        if ev.kind in ("callback", "raised"):
            yield "body", None, ev
        elif ev.kind == "ext" and ev.name == "write" and same(ev.recv, stream):
            yield "write", ev.args[0], ev
        elif ev.kind == "ext" and ev.name == "flush" and same(ev.recv, stream):
            yield "flush", None, ev
        elif ev.kind == "ext" and ev.name in ("os.system", "subprocess.run",
                                              "subprocess.call", "subprocess.check_call"):
            yield "system", ev.args[0], ev
        elif ev.kind == "ext" and ev.name.startswith(("termios.tcset", "tty.")):
            yield "other", None, ev


def words(val):
    if isinstance(val, Const) and isinstance(val.val, str):
        return val.val.split()
    if isinstance(val, (LST, Tup)) and val.items is not None:  # noqa: F405
        return [i.val for i in val.items if isinstance(i, Const)]
    return []


def fixed(val):
    return isinstance(val, (LST, Tup)) and val.items is not None and all(  # noqa: F405
        isinstance(i, Const) for i in val.items)


def run(report):
    for name, call, wanted in CONTEXTS:
        for fn in ("main", "returning"):
            analyse(report, name, call, wanted, fn)
    report.count("context_managers", 4)


def analyse(report, name, call, wanted, fn):
    ip = driver.interp(may_raise=lambda ip, src: (
        FAULTS if src == "callback" else ()))
    driver.find(ip, "slate.terminal", f"Terminal.{name}")
    box = {}

    def args(machine):
        term = driver.symbolic(machine, "term", "Terminal")
        box["stream"] = machine.getattr(term, "stream", None)
        return [term, Sym("body", ("callable",))]

    results = driver.run(ip, DRIVER.format(call=call), args, fn)
    report.saw(ip, results)
    bodies = 0
    for path in results:
        if path.status in ("limit", "backedge"):
            if path.status == "limit":
                report.undecided(f"{name}: path not followed to its end", "", path.info)
            continue
        stream = box["stream"]
        state, dirty, in_body, last = dict(INITIAL), False, None, None
        body_exc, switched = None, {}
        unknown = False
        for kind, payload, ev in steps(path, stream):
            if kind == "body":
                in_body = dict(state)
                body_dirty = dirty
                bodies += 1
            elif kind == "write":
                if not isinstance(payload, Const):
                    if any(isinstance(p, Const) and "\x1b[?" in str(p.val)
                           for p in text_parts(payload)):
                        unknown = True
                    continue
                for modes, flag in MODE.findall(payload.val):
                    for mode in modes.split(";"):
                        state[mode] = flag == "h"
                        last = ev
                dirty = True
            elif kind == "flush":
                dirty = False
            elif kind == "other":
                unknown = True
            elif kind == "system":
                wds = words(payload)
                if not isinstance(payload, Const) and not fixed(payload):
                    unknown = True
                elif "stty" in wds:
                    last = ev
                    flags = [w for w in wds[wds.index("stty") + 1:] if w.isidentifier()
                             or w[:1] == "-" and w[1:].isidentifier()]
                    for flag in flags:
                        if flag == "sane":
                            state.update({m: m == "echo" for m in state
                                          if m == "echo" or m[:4] == "stty"})
                        elif flag.lstrip("-") == "echo":
                            state["echo"] = flag == "echo"
                        else:  # whether it differs from what was found there
                            bare = flag.lstrip("-")
                            first = switched.setdefault(bare, flag)
                            state[f"stty {bare}"] = flag == first
        for ev in path.events("raised"):
            body_exc = ev.exc
        detail = f"[{call}] body " + (f"raises {body_exc}" if body_exc else (
            "returns" if fn == "returning" else "ends normally")) + f"; {path.describe()}"
        if path.status == "raise" and body_exc is None:
            report.bad(f"{name} raises on its own", site(path, name), detail)
            continue
        if in_body is None:
            report.undecided(f"{name}: body never reached", "", detail)
            continue
        if unknown:
            report.undecided(f"{name}: a mode sequence is not a constant", "", detail)
            continue
        skip_echo = "echo" in wanted and _not_tty(path)
        for mode, val in wanted.items():
            if skip_echo:
                continue
            got = [in_body.get(m, INITIAL.get(m, False)) for m in mode.split("|")]
            report.judge(any(g == val for g in got), f"{name}: mode {mode} is "
                         f"{'set' if val else 'reset'} inside the context",
                         site(path, name), detail)
            if not skip_echo and "echo" not in wanted:
                report.judge(not body_dirty, f"{name}: the mode is flushed before the body",
                             site(path, name), detail)
        for mode, val in in_body.items() | state.items():
            initial = INITIAL.get(mode, False)
            report.judge(state.get(mode, initial) == initial,
                         f"{name}: mode {mode} is back to its initial value on exit",
                         last.where if last else site(path, name), detail)
        report.judge(not dirty, f"{name}: the undoing sequences are flushed",
                     last.where if last else site(path, name), detail)
        if body_exc:
            report.judge(path.status == "raise" and raised_name(path) == body_exc,
                         f"{name}: the body's exception leaves the context",
                         site(path, name), detail)
    if not bodies:
        raise AnalysisBroken(f"{name}: no path runs the body")


def _not_tty(path):
    """Whether the path assumes that stdin is no terminal (echo is then left alone)."""

    for atom, val in path.facts.order:
        text = repr(atom)
        if "isatty" in text and not val:
            return True
    return False


def site(path, name):
    for ev in path.trace:
        if ev.fn.endswith("." + name):
            return ev.where
    return f"slate/terminal.py (Terminal.{name})"
