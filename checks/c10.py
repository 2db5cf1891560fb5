"""C10: unchanged cells cost nothing; the change count is exact."""

import re

from .c08 import loop_ids
from .screenlab import *  # noqa: F403
from .screens import judge_screens, plain_writes

TECHNIQUE = "path-sensitive abstract interpretation, comparison coverage of stores and skips"
RULE = """a path that records a cell runs only with the overwrite forced or after a comparison with
the cell on the screen failed; a path that leaves a written cell alone has compared text,
foreground and background (channels and alpha) with the screen's own and found all equal, with the
overwrite not forced; the count is one more after every recorded cell, the same otherwise, starts
at zero and is what the write returns; cells nothing was written to are skipped; the flag and the
count pass unchanged through Screen.write, Terminal.write and Terminal.write_bulk; known programs,
propagated as constants, count and draw what changes in a plain model of a screen"""
ASSUMPTIONS = ["which text reaches which cell is judged by C08, the recorded text by C06"]

FORCE = Sym("force", BOOL)


def forced(path):
    return path.facts.implied(("truthy", FORCE))


def compared(commit, path):
    """True: a comparison with the screen failed; None: something was asked; False: nothing."""

    asked = False
    for atom, val in path.facts.order:
        if "screen" in commit.mentions(atom):
            asked = True
            if atom[0] in ("eq", "isnone", "isinst", "is") and not val:
                return True
            if atom[0] in ("isnone", "isinst") and val:
                return True  # one is a color, the other one is not
            if atom[0] in ("le", "lt") :
                return True
    return None if asked else False


def counting(report, results, commit):
    name = "Screen.write_bulk"
    final = [p for p in results if p.status == "return"]
    var = None
    for path in final:
        val = path.value
        for lid, log in path.loops.items():
            for key, phi in log["phi"].items():
                if same(phi, val):
                    var = key
    if var is None:
        for path in final:
            if re.search(r"(?<!/)\bscreen\.", repr(path.value)):
                report.bad("the number returned is the count", name,
                           f"{path.value!r} depends on what was on the screen before")
        report.undecided("the number returned is the count", name,
                         f"{[p.value for p in final]!r}"[:200])
        return
    report.ok("the number returned is the count", name)
    started = set()
    for path, found in commit.stored + commit.skipped:
        phi, back = path.backedge["phi"].get(var), path.backedge["back"].get(var)
        if phi is None or back is None:
            if phi is not None or found:
                report.undecided("a recorded cell is counted once", name, f"{var}")
            continue
        want = 1 if found else 0
        known = eq(path, back, add_one(phi, want))
        what = "a recorded cell is counted once" if want else "a cell left alone is not counted"
        report.judge(True if known is True else False if differs(
            path, back, add_one(phi, want)) else None, what, name,
            f"{phi!r} becomes {back!r} when {path.describe()[-400:]}")
        outer = None
        for lid, log in path.loops.items():
            if var not in log["phi"] or lid not in loop_ids(path):
                continue
            init, want = log["init"].get(var), Const(0) if outer is None else outer
            outer = log["phi"][var]
            if lid in started:
                continue
            started.add(lid)
            report.judge(True if same(init, want) else False if differs(path, init, want)
                         else None, "the count starts at zero and goes on from row to row", name,
                         f"{init!r}")
    # the loop around: what it carries on is what the inner one ended with
    for path in results:
        if path.status != "backedge" or path.info == commit.lid:
            continue
        inner = path.loops.get(commit.lid)
        if inner is None or var not in path.backedge["phi"] or var not in inner["phi"]:
            continue
        got = path.backedge["back"].get(var)
        report.judge(True if same(got, inner["phi"][var]) else False if differs(
            path, got, inner["phi"][var]) else None, "the count carries over to the next row",
            name, f"{got!r}")


def add_one(phi, num):
    return IP.add(as_term(phi), Const(num)) if num else phi


IP = None


def forwarding(report):
    names = {"Screen.write": ["self", "spans", "cursor", "terminal_background",
                              "force_overwrite"],
             "Screen.write_bulk": ["self", "data", "terminal_background", "force_overwrite"]}

    def stub(key):
        def call(ip, args, kwargs, node):
            got = dict(zip(names[key], args), **kwargs)
            ip.notes.append(("call", key, got))
            return Sym("count", INT)
        return call

    ip, results = explore(report, """
        def main(screen, spans, force):
            return screen.write(spans, force_overwrite=force)
        """, lambda m: [driver.symbolic(m, "spans", "list[Span]"), FORCE],
        stubs={"Screen.write_bulk": stub("Screen.write_bulk")})
    judge_calls(report, "Screen.write", results)
    for name, call in (("Terminal.write", "term.write(data, (x, y), force)"),
                       ("Terminal.write", "term.write(data, force_overwrite=force)"),
                       ("Terminal.write_bulk", "term.write_bulk(bulk, force)"),
                       ("Terminal.write_bulk", "term.write_bulk(bulk, force_overwrite=force)")):
        ip = driver.interp(stubs={**NUMERIC, **{k: stub(k) for k in names},
                                  "Color.as_background": color_result_stub("layer"),
                                  "Span.yield_from": spans_stub},
                           skip_post_init=("Color", "Span"), max_paths=500)
        driver.find(ip, "slate.terminal", "Terminal")
        results = driver.run(ip, f"""
            def main(term, data, bulk, x, y, force):
                return {call}
            """, lambda m: [driver.symbolic(m, "term", "Terminal"),
                            driver.symbolic(m, "data", "str"),
                            driver.symbolic(m, "bulk",
                                            "list[tuple[tuple[int, int], list[Span]]]"),
                            Sym("x", INT), Sym("y", INT), FORCE])
        report.saw(ip, results)
        judge_calls(report, name, results)


def spans_stub(ip, args, kwargs, node):
    return ip.sym_list(ip.fresh("spans"), elem=("cls", "Span"))


def judge_calls(report, name, results):
    for path in results:
        if path.status == "backedge":
            continue
        calls = [n for n in path.notes if isinstance(n, tuple) and n[0] == "call"]
        what = "the overwrite flag is passed on"
        if path.status == "raise":
            report.undecided(what, name, path.describe()[:300])
            continue
        if len(calls) != 1:
            report.judge(False, what, name, f"{len(calls)} writes when {path.describe()[:300]}")
            continue
        got = calls[0][2].get("force_overwrite")
        known = forced(path)
        if isinstance(got, Const):
            good = known is not None and bool(got.val) == known
        elif isinstance(got, Term) and (same(got, FORCE) or path.facts.eq_implied(
                got, FORCE) is True):
            good = True
        else:
            good = False if got is None else None
        report.judge(good, what, name, f"{got!r} when {path.describe()[:300]}")
        report.judge(True if same(path.value, Sym("count", INT)) else False,
                     "the count is passed on", name, f"{path.value!r}")


def writing(report):
    global IP
    ip, results = write_paths(report)
    IP, name = ip, "Screen.write_bulk"
    commit = Commit(results)
    if commit.lid is None:
        report.undecided("the loop committing cells is recognised", name)
    else:
        report.ok("the loop committing cells is recognised", name)
        from .c08 import Placement
        work = Placement(ip, results)
        placed = [f for p in work.paths for f in work.placed(p)]
        for path, found in commit.stored:
            ip.facts = path.facts
            flag, hit = forced(path), compared(commit, path)
            what = "a cell is recorded only if it changes or the overwrite is forced"
            good = True if flag is True or hit is True else None if hit is None or any(
                commit.other_facts(path)) else False
            report.judge(good, what, found[0].ev.where, path.describe()[-700:])
            what = "a cell nothing was written to is left alone"
            report.judge(False if commit.untouched(path, placed) else True, what,
                         found[0].ev.where, path.describe()[-500:])
        for path, _ in commit.skipped:
            ip.facts = path.facts
            if commit.untouched(path, placed):
                report.ok("a cell nothing was written to is left alone", name)
                continue
            what = "a written cell is left alone only if it is unchanged"
            good, part = commit.unchanged(path)
            if good is not True and list(commit.other_facts(path)):
                good = None
            report.judge(good, what, name, f"{part} may differ when {path.describe()[-700:]}")
            flag = forced(path)
            report.judge(True if flag is False else False,
                         "a forced overwrite records every written cell", name,
                         path.describe()[-500:])
        blanks(report, commit, placed)
        counting(report, results, commit)


def run(report):
    judge_screens(report, "Screen.write_bulk", counts="the number of changed cells is exact",
                  places="exactly the changed cells are drawn", only=plain_writes)
    writing(report)
    forwarding(report)


def blanks(report, commit, placed):
    """Some path must leave cells alone that nothing was written to."""

    what = "a cell nothing was written to is left alone"
    if not any(commit.untouched(p, placed) for p, _ in commit.skipped):
        other = any(list(commit.other_facts(p)) for p, _ in commit.skipped + commit.stored)
        # cells that are iterated because they are in the collection need no test
        matrix = any(isinstance(p.loops[commit.lid].get("trip"), (Sym, Lin)) and "screen.width"
                     in repr(p.loops[commit.lid].get("trip")) for p, _ in commit.stored)
        report.judge(None if other or not matrix else False, what, "Screen.write_bulk",
                     "no test tells written cells from the others")
