"""Symbolic spans, shared by the span checks."""

from .colorlab import *  # noqa: F403

STYLES = ("bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal",
          "strike", "opaque")
FIELDS = ("text", "foreground", "background", "hyperlink", *STYLES, "reset_after")
DEFAULTS = {"foreground": NONE_V, "background": NONE_V, "hyperlink": Const(""),
            "reset_after": TRUE, **dict.fromkeys(STYLES, FALSE)}

# operations that change some text
CHANGING = {"str.strip", "str.lstrip", "str.rstrip", "str.lower", "str.upper", "str.title",
            "str.slice", "str.replace", "item", "str.repeat", "str.expandtabs", "str.swapcase",
            "str.capitalize", "html.escape", "repr", "blend", "not"}


def span_interp(stubs=(), **config):
    config.setdefault("max_paths", 600)
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              **dict(stubs)}, skip_post_init=("Color",), **config)
    driver.find(ip, "slate.span", "Span")
    return ip


def same_field(path, got, want):
    """True/False/None: a field holds the value wanted, whatever the inputs."""

    if got is want:
        return True
    if not isinstance(got, Term) or not isinstance(want, Term):
        if isinstance(got, Cmp) or isinstance(want, Cmp):
            one, two = known_bool(path, got), known_bool(path, want)
            return one == two if one is not None and two is not None else None
        if isinstance(got, Obj) and isinstance(want, Const) or isinstance(
                want, Obj) and isinstance(got, Const):
            return firm(path, False)
        return None
    if got == want:
        return True
    known = path.facts.eq_implied(got, want)
    if known is not None:
        return known if known else firm(path, False)
    if ty_of(want) == BOOL or ty_of(got) == BOOL:
        one, two = known_bool(path, got), known_bool(path, want)
        if one is not None and two is not None:
            return one == two
    if firm(path, False) is None:
        return None
    if free(want) and free(got):
        return False  # two independent inputs, or an input and a constant
    if isinstance(got, App) and got.op in CHANGING and free(want):
        return False
    if isinstance(got, Cat) and free(want) and any(
            isinstance(p, Const) and p.val for p in got.parts):
        return False
    return None


# names of what the analysis did not follow, as opposed to inputs
MADE_UP = re.compile(r"^\*|[#@(|]|^(dictcomp|setcomp|asdict|fields|rest|concat)")


def free(term):
    if isinstance(term, Sym) and MADE_UP.search(term.name):
        return False
    return isinstance(term, (Const, Sym)) or (
        isinstance(term, App) and term.op == "attr" and free(term.args[0]))


def judge_fields(report, path, obj, wants, where_, label):
    """Every attribute of a span is the one wanted."""

    detail = f"{label} when {path.describe()[:200]}"
    if not isinstance(obj, Obj) or obj.cls is None or obj.cls.name != "Span":
        if isinstance(obj, Term) and all(
                same_field(path, App("attr", (obj, Const(f)), ty_of(w)), w) is True
                for f, w in wants.items() if isinstance(w, Term)):
            report.ok("every attribute of the span is right", where_)
            return
        report.undecided("every attribute of the span is right", where_, f"{obj!r} {detail}")
        return
    for name, want in wants.items():
        got = obj.fields.get(name)
        report.judge(None if got is None else same_field(path, got, want),
                     f"the {name} of the span is right", where_,
                     f"{got!r} instead of {want!r} for {detail}")
