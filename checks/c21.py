"""C21: size changes are announced once and resize the screen."""

from .common import *  # noqa: F403

TECHNIQUE = "abstract interpretation of query histories"
RULE = """over histories of size queries on a terminal as its constructor leaves it, with arbitrary
sizes reported by the system before each query and an arbitrary extra listener (also one that
queries the size itself): a query makes the resize event call the listener exactly once, with the
new size, when the facts imply that the size differs from the one at the previous query, and not at
all when they imply it is the same; when they imply neither, the event does not depend on the size
and that is a violation; the terminal's screen is resized to the new size exactly as often; the
query returns what the system reported"""
ASSUMPTIONS = ["Screen.resize is judged by C06 and C07, Event by C20"]

TICK, MARK = Sym("tick", ("callable",)), Sym("mark", ("callable",))

HEAD = """
    from slate.terminal import Terminal
    def main(stream, tick, mark):
        term = Terminal(stream)
        {setup}
"""

PLAIN = "term.on_resize += mark"
NESTED = """seen = []
        def listener(size):
            mark(size)
            {nested}
            return False
        term.on_resize += listener"""


def epoch_of(trace):
    return sum(1 for e in trace if e.kind == "callback" and e.data["fn"] == TICK)


def size_at(epoch):
    return Tup((Sym(f"w{epoch}", INT, lo=0), Sym(f"h{epoch}", INT, lo=0)))


def system_size(ip, args, kwargs, node):
    ip.notes.append(("asked", epoch_of(ip.trace), len(ip.trace)))
    return size_at(epoch_of(ip.trace))


def resize_stub(ip, args, kwargs, node):
    got = dict(zip(["self", "size", "fillchar", "keep_original"], args), **kwargs)
    ip.notes.append(("resized", epoch_of(ip.trace), got["self"], got.get("size")))
    ip.notes.append(("kept", got.get("fillchar", Const(" ")), got.get("keep_original", TRUE)))
    size = got.get("size")
    if isinstance(size, Tup) and len(size.items) == 2:
        got["self"].fields["width"], got["self"].fields["height"] = size.items
    return Const(None)


def interp():
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              "set_echo": lambda *a: Const(None),
                              "Screen.resize": resize_stub},
                       externals={"shutil.get_terminal_size": system_size,
                                  "os.get_terminal_size": system_size},
                       skip_post_init=("Color", "Span"), max_paths=1500)
    driver.find(ip, "slate.terminal", "Terminal")
    return ip


def changed(path, epoch, before):
    """True/False/None: the sizes of two epochs differ on this path."""

    one, two = size_at(epoch), size_at(before)
    known = [path.facts.eq_implied(a, b) for a, b in zip(one.items, two.items)]
    for left, right in ((one, two), (two, one)):
        whole = path.facts.known.get(("eq", left, right))
        if whole is not None:
            return not whole
    if False in known:
        return True
    return False if known == [True, True] else None


def is_size(path, val, epoch):
    want = size_at(epoch)
    if isinstance(val, Tup):
        return len(val.items) == 2 and all(
            path.facts.eq_implied(a, b) is True for a, b in zip(val.items, want.items))
    return None


def most_calls(path):
    epoch, calls = 0, {}
    for ev in path.trace:
        if ev.kind == "callback" and ev.data["fn"] == TICK:
            epoch += 1
        elif ev.kind == "callback" and ev.data["fn"] == MARK:
            calls[epoch] = calls.get(epoch, 0) + 1
    return max(calls.values(), default=0)


def history(report, name, setup, steps, nested=False):
    ip = interp()
    body = HEAD.format(setup=setup)
    for step in steps:
        body += f"        tick()\n        {step}\n"
    body += "        return term\n"
    results = driver.run(ip, body, lambda m: [STREAM, TICK, MARK])
    report.saw(ip, results)
    done = 0
    for path in results:
        if path.status == "limit":
            most = most_calls(path)
            if most > 1:
                # the size stays as it is within an epoch
                report.bad("the resize event fires exactly once for a change", "Terminal.size",
                           f"{most} times for a single change in {name}")
                continue
            report.undecided(f"{name}: path not followed", "Terminal.size")
            continue
        if path.status == "backedge":
            continue
        if path.status == "raise":
            report.judge(None, f"{name}: a query does not fail", "Terminal.size",
                         f"{raised_name(path)} when {path.describe()[:300]}")
            continue
        done += 1
        judge(report, path, name, len(steps))
    if not done:
        report.undecided(f"{name}: a history is followed", "Terminal.size")


def judge(report, path, name, steps):
    where_, detail = "Terminal.size", path.describe()[:400]
    asked = {n[1] for n in path.notes if isinstance(n, tuple) and n[0] == "asked"}
    last = 0 if 0 in asked else None
    report.judge(True if last is not None else None, "a new terminal has asked for its size",
                 "Terminal.__post_init__")
    screen = path.value.fields.get("_screen") if isinstance(path.value, Obj) else None
    first = [n for n in path.notes if isinstance(n, tuple) and n[0] == "resized" and n[1] == 0]
    if screen is not None and first:
        report.judge(is_size(path, first[-1][3], 0), "a new terminal's screen has its size",
                     "Terminal.__post_init__", f"{first[-1][3]!r}")
    epoch, calls = 0, {}
    for ev in path.trace:
        if ev.kind != "callback":
            continue
        if ev.data["fn"] == TICK:
            epoch += 1
        elif ev.data["fn"] == MARK:
            calls.setdefault(epoch, []).append(ev)
    for step in range(1, steps + 1):
        got = calls.get(step, [])
        resized = [n for n in path.notes if isinstance(n, tuple) and n[0] == "resized"
                   and n[1] == step]
        if step not in asked:
            report.judge(False if got else None, f"{name}: the size is asked for", where_, detail)
            continue
        diff = True if last is None else changed(path, step, last)
        last = step
        what = "the resize event fires exactly once for a change"
        if diff is True:
            report.judge(len(got) == 1, what, where_, f"{len(got)} times in {name} when {detail}")
            report.judge(len(resized) == 1 and resized[0][2] is screen,
                         "a change resizes the terminal's screen", where_,
                         f"{len(resized)} times in {name} when {detail}")
        elif diff is False:
            report.judge(not got, "the resize event does not fire without a change", where_,
                         f"{len(got)} times in {name} when {detail}")
            report.judge(not resized, "the screen is not resized without a change", where_,
                         f"{name} when {detail}")
        else:
            report.bad(what, where_, f"{len(got)} times whatever the size in {name} when "
                       f"{detail}")
        for ev in got:
            good = len(ev.args) == 1 and is_size(path, ev.args[0], step)
            report.judge(good, "the resize event carries the new size", where_,
                         f"{ev.args!r} in {name}")
        for note in resized:
            report.judge(is_size(path, note[3], step),
                         "the screen is resized to the new size", where_, f"{note[3]!r}")


def values(report):
    """What the queries return."""

    for name, expr in (("size", "term.size"), ("width", "(term.width, 0)"),
                       ("height", "(0, term.height)")):
        ip = interp()
        results = driver.run(ip, HEAD.format(setup=PLAIN) + f"""
        tick()
        return {expr}
""", lambda m: [STREAM, TICK, MARK])
        report.saw(ip, results)
        for path in results:
            if path.status != "return":
                continue
            want = size_at(1)
            if name != "size":
                keep = 0 if name == "width" else 1
                want = Tup([w if i == keep else Const(0) for i, w in enumerate(want.items)])
            good = isinstance(path.value, Tup) and len(path.value.items) == 2 and all(
                path.facts.eq_implied(a, b) is True
                for a, b in zip(path.value.items, want.items))
            report.judge(True if good else False if isinstance(path.value, Tup) else None,
                         "a query returns what the system reports", f"Terminal.{name}",
                         f"{path.value!r} when {path.describe()[:300]}")


def run(report):
    queries = ["term.size", "term.size", "term.size"]
    history(report, "queries", PLAIN, queries + (["term.size"] if THOROUGH else []))
    history(report, "mixed queries", PLAIN, ["term.width", "term.height"])
    history(report, "a listener asking back", NESTED.format(nested="seen.append(term.size)"),
            ["term.size", "term.size"])
    history(report, "a listener asking for parts back",
            NESTED.format(nested="seen.append((term.width, term.height))"),
            ["term.size", "term.size"])
    history(report, "repeated queries", PLAIN, ["(term.size, term.size)", "term.size"])
    values(report)
