"""C02: the original title is saved and restored in balance."""

from .common import *  # noqa: F403

RULE = """typestate fixpoint over histories of title operations: starting from the state the
constructor leaves, every operation (set a title, reset it, leave the alternate buffer) is
analysed on every abstract state reached so far until no new state appears; the sequences
written are run through the save/restore automaton (save once before the first change, restore
once at the next reset, never without a save) and each change must carry exactly the title"""
ASSUMPTIONS = ["title strings are abstracted to arbitrary text plus whether it is empty",
               "other terminal operations do not touch the title state"]

OPS = """
def change(term, title):
    term.set_title(title)
    return term
def reset(term, title):
    term.set_title(None)
    return term
def leave(term, title):
    with term.alt_buffer():
        pass
    return term
"""
TOKEN = re.compile(r"\x1b\[(22|23)(?:;[02])?t|\x1b\][02];([^\x07\x1b]*)(?:\x07|\x1b\\)")
TITLE = Sym("title", STR)
LIMIT = 60


def tokens(path):
    out = []
    for val, ev in stream_writes(path):
        holes = Holes(val)
        for mtch in TOKEN.finditer(holes.text):
            if mtch[1] == "22":
                out.append(("save", None, ev))
            elif mtch[1] == "23":
                out.append(("restore", None, ev))
            else:
                out.append(("set", holes.back(mtch[2]), ev))
    return out


def run(report):
    ip, starts = fresh_terminal(report)
    driver.find(ip, "slate.terminal", "Terminal.set_title")
    names = set()
    todo, seen = [], set()
    # fields the operations may write, found on an arbitrary terminal first
    for op in ("change", "reset", "leave"):
        for path in explore(report, op, None):
            names |= {e.attr for e in path.events("setattr")
                      if isinstance(e.obj, Obj) and e.obj.cls is not None
                      and e.obj.cls.name == "Terminal"}
            for e in path.events("mut"):
                if isinstance(path.value, Obj):
                    names |= {n for n, v in path.value.fields.items() if v is e.cont}
    for path in starts:
        todo.append((State.of(path, path.value, names), False, "a new terminal"))
    while todo:
        state, saved, history = todo.pop(0)
        if (state.key, saved) in seen:
            continue
        seen.add((state.key, saved))
        if len(seen) > LIMIT:
            report.undecided("the title states form no finite set", "", history)
            break
        for op in ("change", "reset", "leave"):
            for path in explore(report, op, state):
                trail = f"{history}; {op}" + ("" if op != "change" else (
                    "(empty)" if path.facts.implied(("truthy", TITLE)) is False else "(text)"))
                if path.status != "return":
                    if path.status == "raise":
                        report.bad("title operation fails", "slate/terminal.py", trail)
                    else:
                        report.undecided("path not followed", "", trail)
                    continue
                after = judge(report, op, saved, path, trail)
                todo.append((State.of(path, path.value, names), after, trail))
    report.count("abstract_states", len(seen))


def explore(report, op, state):
    ip = driver.interp(stubs={**NUMERIC}, skip_post_init=("Color", "Span"))

    def args(machine):
        term = driver.symbolic(machine, "term", "Terminal")
        term.fields["stream"] = STREAM
        if state is not None:
            state.build(machine, term)
        return [term, TITLE]

    results = driver.run(ip, OPS, args, op)
    report.saw(ip, results)
    return [r for r in results if r.status != "backedge"]


def judge(report, op, saved, path, trail):
    found = tokens(path)
    site = found[0][2].where if found else f"slate/terminal.py (Terminal.set_title, {op})"
    kinds = [k for k, _, _ in found]
    if op == "change":
        want = ["set"] if saved else ["save", "set"]
        report.judge(kinds.count("save") == (0 if saved else 1) and (
            saved or kinds[:1] == ["save"]),
            "the original title is saved exactly once, before the first change", site, trail)
        report.judge("restore" not in kinds, "a change restores nothing", site, trail)
        sets = [v for k, v, _ in found if k == "set"]
        report.judge(len(sets) == 1, "a change sends the title exactly once", site, trail)
        if sets:
            report.judge(sets[-1] == TITLE or equal_under(path, sets[-1], TITLE),
                         "exactly the given title is sent", site, trail)
        return saved or "save" in kinds
    report.judge("set" not in kinds and "save" not in kinds,
                 "ending changes or saves no title", site, trail)
    report.judge(kinds.count("restore") == (1 if saved else 0),
                 "the title is restored exactly when one is saved" if saved else
                 "nothing is restored when no title is saved", site, trail)
    return False if "restore" in kinds else saved


def equal_under(path, one, two):
    if path.facts.implied(("truthy", two)) is False and one == Const(""):
        return True
    return path.facts.eq_implied(one, two) is True
