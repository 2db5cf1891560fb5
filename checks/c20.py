"""C20: events reach every listener once, in order, with the data."""

from .common import *  # noqa: F403

TECHNIQUE = "abstract interpretation: inductive listener loop, and all result patterns"
RULE = """(a) for an arbitrary list of listeners, every iteration of the emitting loop makes exactly
one call, to the listener of that iteration with the emitted data, no path leaves the loop early,
the accumulated result is false before the loop and true after an iteration exactly when it was or
the listener's result is; (b) for 0 to 4 listeners and every combination of true, false and raising
results, the calls made and the result are exactly the specified ones; (c) registering appends the
callable to the end, everything else is refused by an exception that leaves the list alone;
clearing empties it; events do not share their list of listeners"""
ASSUMPTIONS = ["listeners do not register further listeners while being called"]

DATA = Sym("data", ANY)


def event(machine, listeners=None):
    obj = driver.symbolic(machine, "event", "Event")
    field = listeners_field(machine, obj)
    if listeners is not None:
        obj.fields[field] = machine.new_list(list(listeners))
    machine.notes.append(("event", obj, field))
    return obj


def listeners_field(machine, obj):
    """The field that holds the listeners (a list or another collection)."""

    cls = obj.cls
    for name in getattr(cls, "annotations", None) or {}:
        if "listen" in name:
            return name
    return "_listeners"


def interp():
    ip = driver.interp(max_paths=3000)
    driver.find(ip, "slate.event", "Event")
    return ip


def final_list(path):
    for note in path.notes:
        if isinstance(note, tuple) and note[0] == "event":
            return note[1].fields.get(note[2])
    return None


def inductive(report):
    ip, name = interp(), "Event.__call__"
    results = driver.run(ip, "def main(e, data):\n    return e(data)\n",
                         lambda m: [event(m), DATA])
    report.saw(ip, results)
    acc = None
    for path in results:
        if path.status == "return" and isinstance(path.value, Term):
            for log in path.loops.values():
                for var, phi in log["phi"].items():
                    if same(phi, path.value):
                        acc = var
    for path in results:
        visited(report, path, name)
        detail = path.describe()[:500]
        if path.status == "raise":
            report.judge(None if any(e.kind == "callback" for e in path.trace) else False,
                         "emitting does not fail", name, f"{raised_name(path)} when {detail}")
            continue
        if any(e.what == "break" for e in path.events("loop")):
            report.bad("emission is not cut short", name, detail)
        if path.status == "return":
            if path.loops:
                continue
            report.judge(True if "event" in detail else None, "emission visits the listeners",
                         name, detail)
            continue
        calls = path.events("callback")
        elem = path.backedge.get("elem")
        what = "every listener is called exactly once with the data"
        if not calls and not any("event._listeners" in repr(v.get("iter"))
                                 for v in path.loops.values()):
            continue
        good = len(calls) == 1 and of_iteration(path, calls[0].data["fn"], elem)
        report.judge(good, what, name, f"{len(calls)} calls when {detail}")
        if len(calls) != 1:
            continue
        args = calls[0].args
        report.judge(len(args) == 1 and not calls[0].kwargs and same(args[0], DATA), what, name,
                     f"called with {args!r} when {detail}")
        if acc is None or acc not in path.backedge["phi"]:
            continue
        phi, back = path.backedge["phi"][acc], path.backedge["back"].get(acc)
        init = path.backedge["init"].get(acc)
        what = "the result is true exactly if a listener returned something true"
        start = truth(path, init)
        report.judge(None if start is None else not start, what, name, f"starts as {init!r}")
        was, ret, now = truth(path, phi), truth(path, calls[0].ret), truth(path, back)
        if was is None or ret is None or now is None:
            # the new value may just be the other one when one of them is false
            if was is False and same(back, calls[0].ret) or ret is False and same(back, phi):
                report.ok(what, name)
            elif was is True and same(back, calls[0].ret) or was is None and ret is None and (
                    same(back, calls[0].ret) or same(back, phi)):
                report.bad(what, name, f"{phi!r} becomes {back!r} when {detail}")
            elif was is True or ret is True:
                report.judge(True if now else False if now is False else None, what, name,
                             f"{phi!r} becomes {back!r} when {detail}")
            else:
                report.undecided(what, name, f"{phi!r} becomes {back!r} when {detail}")
            continue
        report.judge(now == (was or ret), what, name, f"{phi!r} becomes {back!r} when {detail}")


def of_iteration(path, fn, elem):
    """Is this the listener the iteration is about?"""

    if elem is not None and same(fn, elem):
        return True
    index = path.backedge.get("index")
    if isinstance(fn, App) and fn.op == "item" and "_listeners" in repr(fn.args[0]):
        idx = fn.args[1]
        if index is not None and same(idx, index):
            return True
        for name, var in path.backedge["phi"].items():
            if same(var, idx):
                start, back = path.backedge["init"].get(name), path.backedge["back"].get(name)
                return True if same(start, Const(0)) and repr(back) in (
                    f"({var!r} + 1)", f"(1 + {var!r})") else None
    return None


def visited(report, path, name):
    """The listeners are visited in their own order and stay registered."""

    for log in path.loops.values():
        it = log.get("iter")
        while isinstance(it, Lazy) and it.kind in ("enumerate", "iter"):
            it = it.args[0]
        if isinstance(it, DCT) and it.kind == "set" or isinstance(it, App) and it.op in (
                "set", "frozenset") or isinstance(it, Lazy) and it.kind == "reversed":
            report.bad("listeners are visited in order of registration", name, f"{it!r}")
    lst = final_list(path)
    if isinstance(lst, LST) and path.status == "return":
        report.judge(True if lst.name == "event._listeners" and not lst.version and
                     lst.items is None else False if lst.items is not None else None,
                     "emitting leaves the listeners registered", name, f"{lst!r}")


def truth(path, val):
    if isinstance(val, Term):
        val = path.facts.resolve(val)
    if isinstance(val, Const):
        return bool(val.val)
    if isinstance(val, Cmp):
        known = path.facts.implied(val.atom)
        return None if known is None else known == val.pol
    if isinstance(val, Term):
        return path.facts.implied(("truthy", val))
    return None


def patterns(report):
    """All numbers of listeners up to a bound, all results."""

    name = "Event.__call__"
    top = 6 if THOROUGH else 4
    lists = [[Sym(f"f{i}", ("callable",)) for i in range(size)] for size in range(top + 1)]
    for fns in lists:
        ip = interp()
        size = len(fns)
        results = driver.run(ip, "def main(e, data):\n    return e(data)\n",
                             lambda m: [event(m, fns), DATA])
        report.saw(ip, results)
        seen = set()
        if any(path.status == "backedge" for path in results):
            report.undecided("all patterns of results are enumerated", name, f"{size} listeners")
            continue
        for path in results:
            lst = final_list(path)
            if isinstance(lst, LST) and lst.items is not None:
                report.judge([repr(i) for i in lst.items] == [repr(f) for f in fns],
                             "emitting leaves the listeners registered", name, f"{lst!r}")
            detail = f"{size} listeners when {path.describe()[:300]}"
            calls = path.events("callback")
            got = [next((i for i, f in enumerate(fns) if same(f, c.data["fn"])), -1)
                   for c in calls]
            what = "every listener is called exactly once, in order of registration"
            if path.status != "return":
                report.undecided(what, name, f"{path.status} {raised_name(path)}: {detail}")
                continue
            report.judge(got == list(range(size)), what, name, f"called {got}; {detail}")
            report.judge(all(len(c.args) == 1 and not c.kwargs and same(c.args[0], DATA)
                             for c in calls), "listeners get the data", name, detail)
            rets = [truth(path, c.ret) for c in calls]
            seen.add(tuple(rets))
            now = truth(path, path.value)
            want = True if True in rets else None if None in rets else False
            if now is None and want is None and any(same(path.value, c.ret) for c in calls):
                others = [r for c, r in zip(calls, rets) if not same(path.value, c.ret)]
                want = now = True if not any(o is not False for o in others) else None
                if now is None:
                    report.bad("the result tells whether a listener returned something true",
                               name, f"{path.value!r}; {detail}")
                    continue
            if want is None and now is not None:
                # the result does not depend on what some listener returned
                report.bad("the result tells whether a listener returned something true", name,
                           f"{path.value!r} whatever listener "
                           f"{rets.index(None)} returns; {detail}")
                continue
            report.judge(None if now is None or want is None else now == want,
                         "the result tells whether a listener returned something true", name,
                         f"{path.value!r}; {detail}")
        report.count("listener_patterns", len(seen))
    repeated(report)


def repeated(report):
    """A listener that was registered more than once."""

    what = "a listener is called once for each time it was registered"
    one, two = Sym("f0", ("callable",)), Sym("f1", ("callable",))
    for fns in ([one, one], [one, two, one], [two, two, one]):
        ip = interp()
        results = driver.run(ip, "def main(e, data):\n    return e(data)\n",
                             lambda m, fns=fns: [event(m, fns), DATA])
        report.saw(ip, results)
        for path in results:
            if path.status != "return":
                report.undecided(what, "Event.__call__", path.status)
                continue
            got = [repr(c.data["fn"]) for c in path.events("callback")]
            report.judge(got == [repr(f) for f in fns], what, "Event.__call__",
                         f"called {got} of {fns!r}")


def registration(report):
    for name, source in (("Event.__iadd__", "def main(e, fn):\n    e += fn\n    return e\n"),
                         ("Event.append", "def main(e, fn):\n    e.append(fn)\n    return e\n")):
        for fns in ([], [Sym("f0", ("callable",))], [Sym("f0", ("callable",)), Sym("fn", ANY)]):
            ip = interp()
            results = driver.run(ip, source, lambda m: [event(m, fns), Sym("fn", ANY)])
            report.saw(ip, results)
            for path in results:
                register(report, path, name, fns)


def register(report, path, name, fns):
    fn, detail = Sym("fn", ANY), path.describe()[:300]
    can = path.facts.implied(("callable", fn))
    lst = final_list(path)
    items = lst.items if isinstance(lst, LST) else None
    if path.status == "raise":
        report.judge(can is False, "a callable is accepted", name,
                     f"{raised_name(path)} when {detail}")
        if items is not None:
            report.judge(len(items) == len(fns) and all(same(a, b) for a, b in zip(items, fns)),
                         "a refused registration leaves the event as it was", name, f"{items!r}")
        return
    report.judge(can is True, "what cannot be called is refused", name, detail)
    if can is not True:
        return
    if items is None:
        report.undecided("a listener is added at the end", name, f"{lst!r}")
    else:
        want = [*fns, fn]
        report.judge(len(items) == len(want) and all(same(a, b) for a, b in zip(items, want)),
                     "a listener is added at the end", name, f"{items!r} when {detail}")
    if name == "Event.__iadd__":
        obj = next(n[1] for n in path.notes if isinstance(n, tuple) and n[0] == "event")
        report.judge(path.value is obj, "the event stays the same object", name,
                     f"{path.value!r}")


def clearing(report):
    ip = interp()
    fns = [Sym("f0", ("callable",)), Sym("f1", ("callable",))]
    results = driver.run(ip, "def main(e):\n    e.clear()\n", lambda m: [event(m, fns)])
    report.saw(ip, results)
    for path in results:
        lst = final_list(path)
        report.judge(isinstance(lst, LST) and lst.items == [] if path.status == "return"
                     else False, "clearing removes all listeners", "Event.clear", f"{lst!r}")
    ip = interp()
    results = driver.run(ip, "def main(e):\n    e.clear()\n", lambda m: [event(m)])
    for path in results:
        lst = final_list(path)
        report.judge(True if isinstance(lst, LST) and lst.items == [] else
                     False if isinstance(lst, LST) and lst.items is None else None,
                     "clearing removes all listeners", "Event.clear", f"{lst!r}")


def fresh(report):
    """Two events do not share listeners."""

    ip = interp()
    results = driver.run(ip, """
        from slate.event import Event
        def main(f):
            one, two = Event("one"), Event("two")
            one += f
            return [one, two]
        """, lambda m: [Sym("f", ("callable",))])
    report.saw(ip, results)
    for path in results:
        if path.status != "return":
            report.undecided("events start without listeners", "Event", path.describe()[:200])
            continue
        lists = [[v for v in obj.fields.values() if isinstance(v, LST)]
                 for obj in path.value.items]
        if not all(len(one) == 1 for one in lists):
            report.undecided("events start without listeners", "Event", f"{lists!r}")
            continue
        (one,), (two,) = lists
        report.judge(one is not two and two.items == [] and len(one.items or []) == 1,
                     "events start without listeners and do not share them", "Event",
                     f"{one!r} {two!r}")


def run(report):
    inductive(report)
    patterns(report)
    registration(report)
    clearing(report)
    fresh(report)
