"""C05: output goes only to the terminal's own stream, and is flushed."""

import ast

from .common import *  # noqa: F403
from absint.repo import AnalysisBroken

RULE = """(a) effect analysis: every call in the package (command line tool excepted), with
imports resolved, must not be one that writes files, prints, or reaches another stream or
process, except for stty; (b) on every path of every terminal operation, writes go to the
terminal's stream only, in the order and with the text required (rendered screen when drawing,
the sequence itself for control sequences), nothing is left unflushed, and writing, clearing
and exporting write nothing"""
ASSUMPTIONS = ["callables passed in by the user are not part of the library",
               "attributes of user-provided streams behave as a text stream"]

# -- (a) effects -----------------------------------------------------------------------------

PURE_OS = {"getenv", "environ", "read", "name", "get_terminal_size", "isatty", "SEEK_END",
           "SEEK_SET", "SEEK_CUR", "linesep", "sep", "path", "getcwd", "getpid", "fspath",
           "get_blocking", "strerror", "error", "system"}
PURE_SHUTIL = {"get_terminal_size"}
EFFECT_MODULES = {"subprocess", "socket", "tempfile", "urllib", "http", "ftplib", "smtplib",
                  "multiprocessing", "pty", "webbrowser", "sqlite3", "shelve", "dbm", "mmap",
                  "fileinput"}
EFFECT_BUILTINS = {"print", "open", "input", "breakpoint", "exec", "eval",
                   "__import__"}
STREAMS = {"sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__"}
PATH_METHODS = {"write_text", "write_bytes", "mkdir", "unlink", "touch", "rmdir", "rename"}


class Imports(ast.NodeVisitor):
    """local name -> dotted origin (outside the package)."""

    def __init__(self):
        self.names = {}

    def visit_Import(self, node):
        for alias in node.names:
            self.names[alias.asname or alias.name.split(".")[0]] = (
                alias.name if alias.asname else alias.name.split(".")[0])

    def visit_ImportFrom(self, node):
        if node.level:
            return
        for alias in node.names:
            self.names[alias.asname or alias.name] = f"{node.module}.{alias.name}"


def dotted(node, names):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    base = names.get(node.id)
    if base is None:
        return None if parts else (node.id if node.id in EFFECT_BUILTINS else None)
    return ".".join([base] + parts[::-1])


def defaults_of(tree):
    """Nodes in default-value position (parameters and class level fields)."""

    out = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            for dflt in node.args.defaults + [d for d in node.args.kw_defaults if d]:
                out |= {id(n) for n in ast.walk(dflt)}
        elif isinstance(node, ast.ClassDef):
            for stmt in node.body:
                if isinstance(stmt, (ast.AnnAssign, ast.Assign)) and stmt.value is not None:
                    out |= {id(n) for n in ast.walk(stmt.value)}
    return out


def shadowed(tree, name):
    """Whether a builtin name is rebound in the module."""

    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name == name:
            return True
        if isinstance(node, ast.Name) and node.id == name and isinstance(node.ctx, ast.Store):
            return True
        if isinstance(node, ast.arg) and node.arg == name:
            return True
    return False


def is_stty(node):
    """An os.system call whose command is stty."""

    cmd = node.args[0] if node.args else None
    while isinstance(cmd, ast.BinOp):
        cmd = cmd.left
    if isinstance(cmd, ast.JoinedStr) and cmd.values:
        cmd = cmd.values[0]
    if isinstance(cmd, ast.IfExp):
        return all(is_stty(ast.Call(node.func, [side], [])) for side in (cmd.body, cmd.orelse))
    if isinstance(cmd, ast.Constant) and isinstance(cmd.value, str):
        return cmd.value.split()[:1] == ["stty"]
    return None


def effects(report):
    calls = 0
    for name, info in driver.repo().modules.items():
        if name.endswith("__main__"):
            continue
        imports = Imports()
        imports.visit(info.tree)
        dflts = defaults_of(info.tree)
        guard = {id(n) for node in ast.walk(info.tree) if isinstance(node, ast.If)
                 and "TYPE_CHECKING" in ast.dump(node.test) for n in ast.walk(node)}
        for node in ast.walk(info.tree):
            if id(node) in guard:
                continue
            where_ = f"{info.file}:{getattr(node, 'lineno', 0)}"
            if isinstance(node, ast.Call):
                calls += 1
                target = dotted(node.func, imports.names)
                if target is None:
                    if isinstance(node.func, ast.Attribute) and \
                            node.func.attr in PATH_METHODS and not shadowed(
                                info.tree, node.func.attr):
                        report.judge(False if any(
                            v.split(".")[0] == "pathlib" for v in imports.names.values())
                            else None, f"no file operation {node.func.attr}()", where_)
                    continue
                head, _, rest = target.partition(".")
                if target == "print" and any(k.arg == "file" and not (
                        isinstance(k.value, ast.Constant)) for k in node.keywords):
                    continue  # a write like others
                if target in EFFECT_BUILTINS:
                    report.judge(shadowed(info.tree, target),
                                 f"no call of {target}()", where_, "unconditionally effectful")
                elif target in ("os.system", "subprocess.run", "subprocess.call",
                                "subprocess.check_call"):
                    stty = is_stty(node)
                    report.judge(stty if stty is not False else False,
                                 "the only process started is stty", where_, target)
                elif head in EFFECT_MODULES:
                    report.bad(f"no use of {head}", where_, target)
                elif head == "os" and rest.split(".")[0] not in PURE_OS:
                    report.bad("only reading operations of os are used", where_, target)
                elif head == "shutil" and rest not in PURE_SHUTIL:
                    report.bad("only the size query of shutil is used", where_, target)
                elif head == "pathlib":
                    report.undecided("use of pathlib", where_, target)
                elif any(target == s or target.startswith(s + ".") for s in STREAMS):
                    report.bad("no call on a process-wide stream", where_, target)
            elif isinstance(node, ast.Attribute) and id(node) not in dflts:
                target = dotted(node, imports.names)
                if target in STREAMS:
                    report.undecided("a process-wide stream is referred to outside of default "
                                     "values", where_, target)
    report.count("calls_resolved", calls)
    report.ok("no forbidden effect among the calls of the package",
              detail=f"{calls} calls")


# -- (b) paths -------------------------------------------------------------------------------

HEAD = """
from slate.terminal import Terminal
from slate.span import Span
def main(stream, a, b, mark):
    term = Terminal(stream, (7, 4))
    mark(term)
    {op}
"""
A, B = Sym("a", STR), Sym("b", BOOL)
MARK = Sym("mark", ("callable",))
# operation -> (source, kind)
OPS = [
    ("term.write_control(a)", "control"),
    ("term.write_control(a, flush=b)", "optional"),
    ("term.draw()", "draw"),
    ("term.draw(redraw=b)", "draw"),
    ("term.write(a, cursor=(1, 2))", "silent"),
    ("term.write([Span('x')], force_overwrite=b)", "silent"),
    ("term.write_bulk([((1, 2), a)])", "silent"),
    ("term.clear()", "silent"),
    ("term.clear(a)", "silent"),
    ("term.export_svg()", "silent"),
    ("term.cursor", "silent"),
    ("term.size", "silent"),
    ("term.color_space", "silent"),
    ("term.bell()", "stream"),
    ("term.set_title(a)", "stream"),
    ("term.set_title(None)", "stream"),
    ("term.show_cursor(b)", "stream"),
    ("term.set_report_mouse(b)", "stream"),
    ("term.supports_synchronized_update", "stream"),
    ("term.resolution", "stream"),
    ("term.foreground_color", "silent"),
    ("term.background_color", "silent"),
]
QUERY = """
from slate.core import get_default_color
def main(term, a, b, mark):
    mark(term)
    {op}
"""
OUT_CALLS = ("write", "writelines", "print", "print_")


def query_stub(ip, args, kwargs, node):
    """The query for a default colour: talks to the stream it is given."""

    target = kwargs.get("stream", args[1] if len(args) > 1 else Bi("sys.stdout"))
    ip.event("ext", node, name="write", recv=target, args=(Const("<query>"),), kwargs={},
             ret=NONE_V)
    ip.event("ext", node, name="flush", recv=target, args=(), kwargs={}, ret=NONE_V)
    return ip.make_sym("default_color", ("cls", "Color"))


def render_stub(ip, args, kwargs, node):
    names = ("screen", "origin", "redraw")
    vals = dict(zip(names, args))
    vals.update(kwargs)
    return App("render", tuple(as_term(vals.get(n, d)) for n, d in (
        ("screen", NONE_V), ("origin", Tup([Const(0), Const(0)])), ("redraw", FALSE))), STR)


STUBS = {
    **NUMERIC, "Color.ansi": ansi_stub,
    "get_default_color": query_stub, "Screen.render": render_stub,
    "Screen.write_bulk": lambda ip, a, k, n: Sym("changes", INT, lo=0),
    "Screen.write": lambda ip, a, k, n: Sym("changes", INT, lo=0),
    "Screen.export_svg_with_styles": lambda ip, a, k, n: Tup(
        [Sym("svg", STR), Sym("styles", STR)]),
    "getch_timeout": lambda ip, a, k, n: Sym("reply", STR),
    "getch": lambda ip, a, k, n: Sym("reply", STR),
    "Span.yield_from": lambda ip, a, k, n: ip.sym_list("spans", elem=("cls", "Span")),
}


def run(report):
    effects(report)
    for op, kind in OPS:
        operation(report, op, kind)
    default_query(report)


def operation(report, op, kind):
    ip = driver.interp(stubs=STUBS, skip_post_init=("Color", "Span"))
    driver.find(ip, "slate.terminal", "Terminal")
    results = driver.run(ip, HEAD.format(op=op), lambda machine: [STREAM, A, B, MARK])
    report.saw(ip, results)
    ends = 0
    for path in results:
        marks = [e for e in path.trace if e.kind == "callback" and e.fn is None or (
            e.kind == "callback" and e.data["fn"] == MARK)]
        if path.status in ("backedge", "limit"):
            if path.status == "limit":
                report.undecided(f"{op}: path not followed", "", path.describe())
            continue
        if not marks:
            continue
        ends += 1
        judge(report, op, kind, path, marks[0])
    if not ends:
        raise AnalysisBroken(f"{op} never completes")


def judge(report, op, kind, path, mark):
    detail = f"[{op}] {path.describe()}"
    if path.status == "raise" and kind != "silent":
        report.undecided(f"{op} raises {raised_name(path)}", "", detail)
        return
    after = [e for e in path.trace if e.time > mark.time and e.kind == "ext"]
    texts, dirty, last, flushed = [], None, None, None
    for ev in after:
        if ev.name in OUT_CALLS or ev.name.startswith(("sys.stdout.", "sys.stderr.")):
            mine = same(ev.recv, STREAM)
            report.judge(mine or (None if kind_of(ev.recv) or isinstance(ev.recv, Obj)
                                  else False),
                         "writes go to the terminal's own stream", ev.where, detail)
            if mine:
                texts.append(ev.args[0])
                dirty = last = ev
        elif ev.name == "flush" and same(ev.recv, STREAM):
            dirty = None
            last = last or ev
            flushed = ev
        elif ev.name in ("open", "print"):
            report.bad("no file is written and nothing printed", ev.where, detail)
    site = last.where if last else "slate/terminal.py"
    if kind == "silent":
        report.judge(not texts and flushed is None, f"writing, clearing and exporting do not touch the stream",
                     site, detail)
        return
    if kind != "optional" or path.facts.implied(("truthy", B)) is not False:
        report.judge(dirty is None, "what was written is flushed", site, detail)
    if kind in ("control", "optional"):
        report.judge(Holes(texts).back(Holes(texts).text) == A,
                     "control sequences are written unchanged", site, detail)
    elif kind == "draw":
        term = mark.args[0]
        vals = [t for t in texts]
        got = Holes(vals).back(Holes(vals).text)
        good = isinstance(got, App) and got.op == "render"
        if not texts and any(val and atom[0] == "eq" and Const("") in atom[1:]
                             and any(isinstance(a, App) and a.op == "render" for a in atom[1:])
                             for atom, val in path.facts.order):
            return  # there was nothing to write
        report.judge(good, "drawing writes exactly the rendered screen", site, detail)
        if good:
            origin = term.fields.get("origin")
            want = B if "=b" in op else FALSE
            report.judge(path.facts.eq_implied(got.args[1], origin) is True
                         or got.args[1] == origin,
                         "the screen is rendered at the terminal's origin", site, detail)
            report.judge(got.args[2] == want or path.facts.eq_implied(got.args[2], want) is True
                         or _same_truth(path, got.args[2], want),
                         "a redraw is rendered exactly when asked for", site, detail)


def _same_truth(path, got, want):
    if isinstance(got, Const) and want == B:
        return path.facts.implied(("truthy", B)) is bool(got.val)
    return False


def default_query(report):
    """The default colour query writes to the stream it is given, and flushes."""

    for op in ("term.foreground_color", "term.background_color"):
        stubs = {k: v for k, v in STUBS.items() if k != "get_default_color"}
        ip = driver.interp(stubs=stubs, skip_post_init=("Color", "Span"))

        def args(machine):
            term = driver.symbolic(machine, "term", "Terminal")
            term.fields["stream"] = STREAM
            return [term, A, B, MARK]

        results = driver.run(ip, QUERY.format(op=op), args)
        report.saw(ip, results)
        for path in results:
            marks = [e for e in path.trace if e.kind == "callback" and e.data["fn"] == MARK]
            if path.status == "return" and marks:
                judge(report, op, "stream", path, marks[0])
