"""C14: spans and colours are never modified after creation."""

import ast

from .spanlab import *  # noqa: F403

TECHNIQUE = "abstract interpretation for attribute effects, and a scan for raw attribute writes"
RULE = """assigning any attribute of a span or colour ends in an exception on every path; every
operation of both classes is followed from an object with unknown attributes and leaves each of them
the same term; changing a dictionary handed out leaves the object and the next dictionary as they
were; and every raw attribute write in the package (object.__setattr__, __dict__, vars) is found and
belongs to construction, or is on something else"""
ASSUMPTIONS = ["nobody outside the library bypasses the classes with object.__setattr__"]

SPAN = ("Span(text, fore, back, link, bold=b1, dim=b2, italic=b3, underline=b4, blink=b5, "
        "fast_blink=b6, invert=b7, conceal=b8, strike=b9, opaque=b10, reset_after=b11)")
# attributes an operation may branch on: unknown, but not all at once
SPANS = [f"Span(text, {colors}, link, bold=b1, invert=b7, reset_after=b11, "
         + ", ".join(f"{name}={flag}" for name in (
             "dim", "italic", "underline", "blink", "fast_blink", "conceal", "strike", "opaque"))
         + ")" for colors in ("fore, None", "None, back") for flag in (True, False)]
COLOR = "Color((r, g, b), is_background=b1, alpha=al)"

MAKE = """
    from slate.span import Span
    from slate.color import Color
    def main(text, other, link, fore, back, r, g, b, al, x, n, {flags}):
        it = {make}
        before = ({reads},)
        {body}
        after = ({reads},)
        return (before, after)
"""
# an operation that fails leaves the object as it was, too
TRYING = "try: _ = {call}\n        except Exception: pass"
FLAGS = [f"b{i}" for i in range(1, 12)]

# operations with arguments worth following; everything else is called with made-up ones
KNOWN_CALLS = {
    "Span": {
        "__getitem__": ["it[n]", "it[1:n]"], "__len__": ["len(it)"], "__str__": ["str(it)"],
        "__repr__": ["repr(it)"], "__contains__": ["other in it"],
        "mutate": ["it.mutate(bold=b1)", "it.mutate(text=other, foreground=None)",
                   "it.mutate(bold=b2, text=other, no_such_attribute=b1)"],
        "split": ["it.split()", "it.split(other)"],
        "as_color": ["it.as_color(fore)", "it.as_color('48;5;200')"],
        "get_characters": ["it.get_characters()",
                           "it.get_characters(exclude_color=True, always_include_sequence=True)"],
        "as_svg": ["it.as_svg()", "it.as_svg(inline_styles=True, cls=other)"],
        "group": ["list(Span.group([('a', fore, None), ('b', fore, back)]))"],
        "yield_from": [r"list(Span.yield_from('a\x1b[1;31mb'))"],
        "first_from": [r"Span.first_from('\x1b[1ma')"],
        "_generate_sequences": ["it._generate_sequences()"],
        "get_svg_styles": ["it.get_svg_styles()"],
        "attrs": ["it.attrs"],
    },
    "Color": {
        "__eq__": ["it == fore", "it == other"], "__repr__": ["repr(it)"],
        "from_ansi": ["Color.from_ansi('38;5;200')"], "from_hex": ["Color.from_hex('#010203')"],
        "black": ["Color.black(b1)"], "white": ["Color.white(b1)"],
        "lighten": ["it.lighten(n)", "it.lighten(n, x)"],
        "darken": ["it.darken(n)", "it.darken(n, x)"],
        "as_alpha": ["it.as_alpha(x)"], "as_background": ["it.as_background()",
                                                         "it.as_background(b2, x)"],
        "hue_shift": ["it.hue_shift(x)"], "blend": ["it.blend(fore, x)",
                                                    "Color((1, 2, 3)).blend(it, x, b2)"],
        "blend_complement": ["it.blend_complement(x)"],
    },
}
CONSTRUCTION = {"__init__", "__post_init__", "__new__", "__setstate__", "__copy__"}


def inputs(ip):
    return [Sym("text", STR), Sym("other", STR), Sym("link", STR),
            driver.symbolic(ip, "fore", "Color"), driver.symbolic(ip, "back", "Color"),
            *ints("r", "g", "b", lo=0, hi=255), Sym("al", FLOAT), Sym("x", FLOAT), Sym("n", INT),
            *[Sym(f, BOOL) for f in FLAGS]]


def follow(report, ip, make, reads, body, where_, what):
    results = attempt(report, ip, f"{where_} is followed", where_, MAKE.format(
        flags=", ".join(FLAGS), make=make, reads=", ".join(reads), body=body), inputs(ip))
    for path in results:
        if path.status in ("backedge", "raise"):
            continue
        if path.status != "return" or not isinstance(path.value, Tup):
            report.undecided(what, where_, f"{path.status} for {body}")
            continue
        before, after = path.value.items
        for name, old, new in zip(reads, before.items, after.items):
            same_ = same_field(path, new, old)
            if same_ is not True and isinstance(old, Heap) and old is new:
                same_ = True
            if same_ is None and syms(new) - syms(old) and len(syms(new)) < 8 and any(
                    e.data.get("attr") == name[3:] for e in path.events("setattr")[1:]):
                same_ = firm(path, False)  # overwritten with what something else decides
            if name.startswith("it._") and same_ is False:
                same_ = None  # something kept for later is no change anyone can see
            report.judge(same_, what, where_,
                         f"{name} was {old!r}, is {new!r} after {body} when "
                         f"{path.describe()[:200]}")
    return results


def syms(term):
    return {sub.name for sub in subterms(term) if isinstance(sub, Sym)}


def rejected(report, ip, cls, make, names):
    """Assignment from outside ends in an exception."""

    for name in (*names, "something_else"):
        for body in (f"it.{name} = other", f"setattr(it, {name!r}, other)"):
            results = driver.run(ip, MAKE.format(flags=", ".join(FLAGS), make=make, reads="0",
                                                 body=body), inputs(ip))
            report.saw(ip, results)
            for path in results:
                if path.status == "backedge":
                    continue
                report.judge(True if path.status == "raise" else
                             False if path.status == "return" and name in names else None,
                             "assigning an attribute is rejected", f"{cls}.{name}", body)


def call_made_up(member, name):
    """A call of a method this check does not know, with arguments by annotation."""

    node = member.node
    args = node.args
    vals = []
    params = args.posonlyargs + args.args
    first = 0 if "staticmethod" in member.decorators else 1
    required = len(params) - len(args.defaults)
    for pos, arg in enumerate(params[first:], first):
        if pos >= required:
            break
        text = ast.unparse(arg.annotation) if arg.annotation is not None else ""
        vals.append({"str": "other", "int": "n", "float": "x", "bool": "b1", "Color": "fore",
                     "Span": "Span(other)"}.get(text, "other"))
    return f"it.{name}({', '.join(vals)})"


def operations(report, ip, name, make, reads):
    cls = ip.classes[name]
    known = KNOWN_CALLS[name]
    count = 0
    for member_name, member in sorted(cls.ns.items()):
        if isinstance(member, Prop):
            calls = known.get(member_name, [f"it.{member_name}"])
        elif isinstance(member, Fn):
            if member_name in CONSTRUCTION or member_name in ("__hash__", "__setattr__"):
                continue
            calls = known.get(member_name)
            if calls is None:
                if member_name.startswith("__"):
                    continue
                calls = [call_made_up(member, member_name)]
        elif member_name in known:
            calls = known[member_name]
        else:
            continue
        for call in calls:
            count += 1
            for variant in SPANS if name == "Span" else [make]:
                follow(report, ip, variant, reads, TRYING.format(call=call), f"{name}.{member_name}",
                       "an operation leaves the object as it was")
    report.count(f"operations of {name}", count)


def copies(report, ip, reads):
    """What happens to a dictionary handed out stays with it."""

    for change in ("d['text'] = other", "d.clear()", "d.update(bold=b2)", "d.pop('italic')",
                   "d['extra'] = n"):
        results = attempt(report, ip, "copies are followed", "Span.attrs", MAKE.format(
            flags=", ".join(FLAGS), make=SPAN, reads=", ".join(reads),
            body=f"first = it.attrs.copy(); d = it.attrs; {change}; e = it.attrs").replace(
                "return (before, after)", "return (before, after, first, e)"), inputs(ip))
        for path in results:
            if path.status != "return" or not isinstance(path.value, Tup):
                report.undecided("a dictionary handed out is a copy", "Span.attrs", path.status)
                continue
            before, after, first, again = path.value.items
            for name, old, new in zip(reads, before.items, after.items):
                report.judge(same_field(path, new, old), "a dictionary handed out is a copy",
                             "Span.attrs", f"{name} was {old!r}, is {new!r} after {change}")
            if isinstance(first, DCT) and isinstance(again, DCT) and not first.sym:
                one, two = first.items, again.items
                alike = not again.sym and list(one) == list(two) and all(
                    same_field(path, two[k], one[k]) is True for k in one)
                report.judge(firm(path, alike) if not again.sym else None,
                             "a dictionary handed out is a copy",
                             "Span.attrs", f"{two!r} after {change}"[:300])
            else:
                report.undecided("a dictionary handed out is a copy", "Span.attrs", repr(again))


def raw_writes(report, ip, followed):
    """Every attribute write that gets around the frozen classes."""

    fields_ = {name: {f[0] for f in ip.classes[name].fields} for name in ("Span", "Color")}
    every = fields_["Span"] | fields_["Color"]
    sites = 0
    for info in ip.repo.modules.values():
        owners = {}
        for top in ast.walk(info.tree):
            for child in ast.iter_child_nodes(top):
                owners[child] = top
        for node in ast.walk(info.tree):
            target = name = None
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
                    and node.func.attr in ("__setattr__", "__delattr__"):
                full = len(node.args) > (2 if node.func.attr == "__setattr__" else 1)
                target = node.args[0] if full else node.func.value
                key = node.args[1 if full else 0] if node.args else None
                name = key.value if isinstance(key, ast.Constant) else None
            elif isinstance(node, ast.Subscript) and isinstance(
                    node.ctx, (ast.Store, ast.Del)) and dict_of(node.value) is not None:
                target = dict_of(node.value)
                name = node.slice.value if isinstance(node.slice, ast.Constant) else None
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
                    and dict_of(node.func.value) is not None and node.func.attr in (
                        "update", "pop", "clear", "setdefault", "popitem"):
                target = dict_of(node.func.value)
            if target is None:
                continue
            sites += 1
            chain, cls, cur = [], None, node
            while cur in owners:
                cur = owners[cur]
                if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    chain.append(cur.name)
                if isinstance(cur, ast.ClassDef):
                    cls = cur.name
                    break
            where_ = f"{info.file}:{node.lineno}"
            what = "a raw attribute write belongs to construction"
            own = isinstance(target, ast.Name) and target.id in ("self", "cls")
            if own and cls in fields_ and chain and chain[-1] in CONSTRUCTION:
                report.ok(what, where_)
            elif own and cls not in fields_:
                report.ok("a raw attribute write is on something else", where_)
            elif own and cls in fields_ and chain and (cls, chain[-1]) in followed:
                report.ok("a raw attribute write is followed with its operation", where_)
            else:
                report.judge(False if name in every and not name.startswith("_") else None, what,
                             where_, f"{ast.unparse(node)} in {'.'.join(reversed(chain))}")
    report.count("raw attribute writes", sites)


def dict_of(node):
    if isinstance(node, ast.Attribute) and node.attr == "__dict__":
        return node.value
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "vars" \
            and node.args:
        return node.args[0]
    return None


def run(report):
    stubs = {"Color.ansi": ansi_stub}
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              **stubs}, max_paths=6000 if THOROUGH else 600)
    driver.find(ip, "slate.span", "Span")
    driver.find(ip, "slate.color", "Color")
    followed = set()
    for name, make in (("Span", SPAN), ("Color", COLOR)):
        cls = ip.classes[name]
        names = [f[0] for f in cls.fields]
        if not names:
            report.undecided("the attributes are known", name, "no fields")
            continue
        reads = [f"it.{n}" for n in names]
        rejected(report, ip, name, make, names)
        operations(report, ip, name, make, reads)
        followed |= {(name, n) for n in cls.ns}
    copies(report, ip, [f"it.{f[0]}" for f in ip.classes["Span"].fields])
    raw_writes(report, ip, followed)
