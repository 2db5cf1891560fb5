"""C04: a timeout leaves no alarm and no handler behind."""

from .common import *  # noqa: F403
from absint.repo import AnalysisBroken

RULE = """typestate over every path of the timed block and of the timed key read, the block
ending normally, by return, by any exception, or by the installed alarm handler being called:
at each exit (a duration the system refuses included) no interval timer is armed, and it was
off before the handler changed back, the last handler installed is the value that was
replaced (or read) first, running out of time is swallowed and nothing else is"""
ASSUMPTIONS = ["the alarm is delivered while the timed block runs",
               "a previous handler of None (not set from Python) cannot be reinstalled"]

DRIVER = """
from slate.core import timeout, getch_timeout
def body():
    pass
def main(duration, default, stream):
    with timeout(duration):
        body()
def returning(duration, default, stream):
    with timeout(duration):
        body()
        return 1
    return default
def full_read(duration, default, stream):
    return getch_timeout(duration, default, stream)
def timed_read(duration, default, stream):
    return getch_timeout(duration, default, stream)
"""
DURATION = Sym("duration", FLOAT, lo=0)
DEFAULT = Sym("default", STR)
STDIN = Sym("stdin", ("ext", "TextIO"))
KEY = Sym("key", ("ext", "Key"))
BODY = ("done", "alarm", *FAULTS)


def is_alarm(val):
    return "SIGALRM" in repr(val) or val == Const(14)


def body_stub(ip, args, kwargs, node):
    pick = BODY[ip.choose(len(BODY))]
    if pick == "done":
        ip.event("body", node, how="done", ret=KEY)
        return KEY
    if pick != "alarm":
        ip.event("body", node, how=pick)
        raise Raised(pick, (), node, origin="body")
    return fire(ip, node)


def fire(ip, node):
    handler = None
    for ev in ip.trace:
        if ev.kind == "ext" and ev.name == "signal.signal" and is_alarm(ev.args[0]):
            handler = ev.args[1]
    ip.event("body", node, how="alarm", handler=handler)
    if handler is not None:
        ip.call(handler, [Const(14), NONE_V], {}, node)
    return KEY


def read_stub(ip, args, kwargs, node):
    how = ("done", "SystemExit", "alarm")[ip.choose(3)]
    for ev in ip.trace:
        if ev.kind == "body":
            how = "done"
    if how == "done":
        return Sym(ip.fresh("input"), BYTES if len(args) == 2 else (
            "tuple", (("list", ANY),) * 3))
    if how == "SystemExit":
        ip.event("body", node, how=how)
        raise Raised(how, (), node, origin="body")
    return fire(ip, node)


def timer_stub(ip, args, kwargs, node):
    """Arming a timer fails for a duration the system does not take."""

    amount = args[1] if len(args) > 1 else kwargs.get("seconds")
    if amount is None or zero(amount) or any(e.kind == "body" for e in ip.trace):
        return NotImplemented
    if ip.choose(2):
        ip.event("body", node, how="timer")
        raise Raised("OSError", (), node, origin="timer")
    return NotImplemented


def zero(val):
    return isinstance(val, Const) and val.val == 0


def run(report):
    for fn in ("main", "returning", "timed_read", "full_read"):
        stubs = {**NUMERIC, "body": body_stub, "getch": body_stub}
        externals = {}
        if fn == "full_read":
            # the alarm interrupts the system call deep inside the key read
            stubs = {**NUMERIC, "parse_mouse_event": lambda *a: NONE_V}
            externals = {"os.read": read_stub, "select.select": read_stub}
        externals["signal.setitimer"] = timer_stub
        ip = driver.interp(stubs=stubs, externals=externals)
        driver.find(ip, "slate.core", "timeout")
        driver.find(ip, "slate.core", "getch_timeout")
        results = driver.run(ip, DRIVER, lambda machine: [DURATION, DEFAULT, STDIN], fn)
        report.saw(ip, results)
        hows = set()
        for path in results:
            if path.status == "backedge":
                continue
            hows |= judge(report, fn, path)
        if "alarm" not in hows or "done" not in hows:
            raise AnalysisBroken(f"{fn}: the timed block is never run")


def judge(report, fn, path):
    armed = armed_in_body = None
    previous, current, replaced = None, None, False
    how = early = None
    site = "slate/core.py (timeout)"
    for ev in path.trace:
        if ev.kind == "body":
            how = ev.how
            armed_in_body = armed
            body_ev = ev
        if ev.kind != "ext":
            continue
        if ev.name in ("signal.setitimer", "signal.alarm"):
            if ev.name == "signal.setitimer" and not (
                    "ITIMER_REAL" in repr(ev.args[0]) or ev.args[0] == Const(0)):
                if isinstance(ev.args[0], Const) or "ITIMER" in repr(ev.args[0]):
                    continue  # another timer
            amount = ev.args[-1] if ev.name == "signal.alarm" else (
                ev.args[1] if len(ev.args) > 1 else None)
            armed = None if zero(amount) else ev
            site = ev.where
            if armed and ev.name == "signal.setitimer" and len(ev.args) > 2:
                report.judge(True if zero(ev.args[2]) else False if ev.args[2] == DURATION
                             or isinstance(ev.args[2], Const) else None,
                             "the alarm goes off once", site, f"again after {ev.args[2]!r} [{fn}]")
        elif ev.name == "signal.getsignal" and not replaced:
            previous = previous if previous is not None else ev.ret
        elif ev.name == "signal.signal" and is_alarm(ev.args[0]):
            if not replaced:
                previous = ev.ret if previous is None else previous
                olds = {previous, ev.ret}
            elif armed is not None and ev.args[1] in olds:
                early = ev
            replaced = True
            current = ev
            site = ev.where
    detail = f"[{fn}] the block ends by: {how}; {path.describe()}"
    if how is None and fn == "full_read" and path.status != "limit":
        how, body_ev = "done", None
        detail = f"[{fn}] input arrives; {path.describe()}"
    if path.status == "limit" or how is None:
        report.undecided("path not followed to its end", "", detail)
        return set()
    if body_ev is None:
        if replaced:
            report.judge(armed is None, "no alarm is pending at this exit", site, detail)
        return {how}
    report.judge(early is None, "the alarm is off before the previous handler is back",
                 early.where if early else site, detail)
    if how == "timer":
        report.judge(path.status == "raise", "a refused duration is an error", site, detail)
    else:
        report.judge(armed_in_body is not None, "an alarm is armed while the block runs",
                     body_ev.where, detail)
    if armed_in_body is not None:
        amount = armed_in_body.args[-1] if armed_in_body.name == "signal.alarm" else \
            armed_in_body.args[1]
        report.judge(True if amount == DURATION else None,
                     "the alarm is armed for the given duration", armed_in_body.where, detail)
    report.judge(armed is None, "no alarm is pending at this exit", site, detail)
    if replaced:
        val = current.args[1]
        good = val in olds
        if not good and path.facts.implied(("isnone", previous)) is True:
            good = True
        report.judge(good, "the previous alarm handler is installed again at this exit",
                     current.where, detail)
    if how == "alarm":
        report.judge(body_ev.handler is not None, "a handler is installed while the block runs",
                     body_ev.where, detail)
        report.judge(path.status != "raise", "running out of time ends the block silently",
                     site, detail)
        if path.status == "return" and fn != "main":
            report.judge(is_default(path.value),
                         "a timed read that ran out of time returns its default", site, detail)
    elif how == "timer":
        pass
    elif how == "done":
        report.judge(path.status == "return", "a block done in time ends normally", site,
                     detail)
        if fn == "timed_read" and path.status == "return":
            report.judge(path.value == KEY, "a timed read returns the key that was read",
                         site, detail)
    else:
        report.judge(path.status == "raise" and raised_name(path) == how,
                     "any other exception passes through", site, detail)
    return {how}


def is_default(val):
    if isinstance(val, Term):
        return val == DEFAULT
    if isinstance(val, Obj) and any(DEFAULT in list(subterms(as_term(f)))
                                    for f in val.fields.values()):
        return None
    return False
