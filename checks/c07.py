"""C07: any coordinates and sizes are safe."""

from .screenlab import *  # noqa: F403

TECHNIQUE = "interval/linear-inequality abstract interpretation of indices"
RULE = """for an arbitrary screen (height rows of width cells, sizes >= 0), arbitrary positions,
spans and new sizes: on every path of writing, resizing, clearing and creating, each index into a
list is shown to be at least 0 (or a negative constant within the length) and below the length; no
path ends in an exception; and after each operation the matrix again has height rows of width
cells, for the height and width it was asked for"""
ASSUMPTIONS = ["sizes are not negative", "text has the length its type gives it; spans and colors "
               "are valid objects"]


def indices(report, name, results):
    for path in results:
        for ev in path.events("index"):
            what = f"{name}: an index stays inside its list"
            detail = f"index {ev.idx!r} of {ev.length!r} when {path.describe()}"[-800:]
            if ev.lo is True and ev.hi is True:
                report.ok(what, ev.where)
            elif not _tracked(path, ev.lst) or _from_keys(ev.idx):
                # a list whose content the analysis does not know
                report.undecided(what, ev.where, detail)
            else:
                report.bad(what, ev.where, detail)
        if path.status == "raise" and any(_from_keys(e.idx) for e in path.events("index")
                                          if not (e.lo is True and e.hi is True)):
            report.undecided(f"{name}: never raises", _source(path), path.describe()[-800:])
        elif path.status == "raise":
            exc = raised_name(path)
            report.bad(f"{name}: never raises", _source(path), f"{exc} when "
                       f"{path.describe()}"[-800:])
        elif path.status == "limit":
            report.undecided(f"{name}: never raises", name, "analysis limit")
        else:
            report.ok(f"{name}: never raises", name)


def _from_keys(idx):
    """Is the index taken from the keys of a table the code keeps, which are not followed?"""

    return isinstance(idx, Term) and any(
        isinstance(s, Sym) and s.name.endswith(".key") for s in subterms(idx))


def _tracked(path, lst):
    return isinstance(lst, LST)


def _source(path):
    last = [e for e in path.trace if e.kind in ("raised", "index")]
    return last[-1].where if last else "?"


def matrix(report, ip, name, results, width, height, negative_ok=False):
    for path in results:
        if path.status != "return":
            continue
        screen = path.value if isinstance(path.value, Obj) else screen_of(path)
        ip.facts = path.facts
        good = matrix_ok(ip, screen)
        report.judge(good, f"{name}: the matrix has height rows of width cells", name,
                     f"{path.describe()}"[:500])
        for attr, val in (("width", width), ("height", height)):
            if val is None:
                continue
            got = screen.fields.get(attr)
            known = eq(path, got, val) if isinstance(got, Term) else None
            what = f"{name}: the {attr} is the one asked for"
            if known is True:
                report.ok(what, name)
            elif isinstance(got, Term) and differs(path, got, val):
                report.bad(what, name, f"{got!r} when {path.describe()}"[:500])
            else:
                report.undecided(what, name, f"{got!r}")


def row_shapes(report, ip, name, results):
    """Rows put into the matrix in place have its width; as many leave as come."""

    for path in results:
        balance, where_ = 0, name
        for ev in path.events("mut"):
            if not is_cells(path, ev.cont) or root_of(ev.cont)[0] is not None:
                continue
            if ev.op in ("append", "insert"):
                balance, where_ = balance + 1, ev.where
                row = ev.args[-1]
                if isinstance(row, LST):
                    ip.facts = path.facts
                    good = path.facts.eq_implied(ip.length(row),
                                                 screen_of(path).fields["width"])
                    report.judge(True if good else False if good is False or isinstance(
                        ip.length(row), (Const, Lin, Sym)) else None,
                        f"{name}: a row put in has the screen's width", ev.where,
                        f"{ip.length(row)!r}")
                else:
                    report.undecided(f"{name}: a row put in has the screen's width", ev.where)
            elif ev.op in ("pop", "delitem", "remove"):
                balance, where_ = balance - 1, ev.where
            elif ev.op != "setitem":
                balance = None
                break
        if balance is None:
            report.undecided(f"{name}: as many rows are added as removed", name)
        else:
            report.judge(balance == 0, f"{name}: as many rows are added as removed", where_,
                         path.describe()[-400:])


def writing(report):
    ip, results = write_paths(report)
    indices(report, "write", results)
    row_shapes(report, ip, "write", results)
    matrix(report, ip, "write", results, Sym("screen.width", INT, lo=0),
           Sym("screen.height", INT, lo=0))


def run(report):
    writing(report)
    for name, fn in (("resize", resize_paths), ("clear", clear_paths), ("create", init_paths)):
        ip, results = fn(report)
        indices(report, name, results)
        prefix = "screen" if name == "clear" else "new"
        matrix(report, ip, name, results, Sym(f"{prefix}.width", INT, lo=0),
               Sym(f"{prefix}.height", INT, lo=0))
