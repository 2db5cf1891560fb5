"""C24: the color space is chosen by the documented precedence."""

from .common import *  # noqa: F403

TECHNIQUE = "abstract interpretation over enumerated and unknown environments"
RULE = """the color space is evaluated for every combination of values of the four environment
variables out of a selection (unset, empty, every value with a meaning, also in other case and with
spaces, values without one), and for unknown values where any value means the same; it has to be
the one the documented precedence gives; a color space forced on the terminal is what the terminal
has whatever the environment, until it is forced again or released with None, and each time the
listeners are called once with it, when it is already in effect; color spaces are ordered and
compared as documented, by name too"""
ASSUMPTIONS = ["invalid values of the library's own variable are not judged",
               "terminal types other than xterm's are not judged"]

OWN = [None, "no_color", "standard", "eight_bit", "true_color", "TRUE_COLOR", "Standard"]
DISABLE = [None, "", "1", "0"]
COLORTERM = [None, "", "truecolor", "24bit", "TrueColor", " truecolor ", "  ", "256color", "yes"]
TERM = [None, "", "xterm", "xterm-256color", "xterm-truecolor", "xterm-24bit", "linux", "dumb",
        "vt100"]

ORDER = ["standard", "no_color", "eight_bit", "true_color"]

HEAD = """
    from slate.core import get_color_space, ColorSpace
    def main(stream, mark):
        {body}
"""


def expected(own, disable, colorterm, term):
    if own is not None:
        return own.lower()
    if disable is not None:
        return "no_color"
    name = (colorterm or "").strip().lower()
    if not name:
        name = (term or "").removeprefix("xterm-")
    return {"24bit": "true_color", "truecolor": "true_color", "256color": "eight_bit"}.get(
        name, "standard")


def member(val):
    """The name of a color space's member, or None."""

    if isinstance(val, EnumM):
        value = val.value if hasattr(val, "value") else None
        if isinstance(value, Const):
            return value.val
        return val.name.lower() if isinstance(val.name, str) else None
    return None


def run(report):
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              "set_echo": lambda *a: Const(None)},
                       skip_post_init=("Color", "Span"), max_paths=500)
    driver.find(ip, "slate.core", "get_color_space")
    ip.config.env = {}
    enumerated(report, ip)
    unknown(report, ip)
    ordering(report, ip)
    forced(report, ip)


def environment(ip, own, disable, colorterm, term):
    ip.config.env = {"SLATE_COLORSYS": own, "NO_COLOR": disable, "COLORTERM": colorterm,
                     "TERM": term}


def judge(report, path, want, where_, label):
    if path.status == "raise":
        report.bad("the color space is known", where_, f"{raised_name(path)} for {label}")
        return
    got = member(path.value) if path.status == "return" else None
    report.judge(None if got is None else got == want,
                 "the color space is chosen by the precedence of the variables", where_,
                 f"{path.value!r} instead of {want} for {label} when {path.describe()[:80]}")


def enumerated(report, ip):
    where_ = "get_color_space"
    for own in OWN:
        for disable in DISABLE:
            for colorterm in COLORTERM:
                for term in TERM:
                    environment(ip, own, disable, colorterm, term)
                    for path in attempt(report, ip, "the variables are followed", where_,
                                        HEAD.format(body="return get_color_space()"),
                                        [STREAM, Sym("mark", ("callable",))]):
                        judge(report, path, expected(own, disable, colorterm, term), where_,
                              f"{ip.config.env!r}")


def unknown(report, ip):
    """Variables with any value at all."""

    where_ = "get_color_space"
    any_ = {n: Sym(f"env[{n}]", ("union", (STR, NONE))) for n in ("NO_COLOR", "COLORTERM", "TERM")}
    text = Sym("env[NO_COLOR]", STR)
    for own in OWN[1:]:
        environment(ip, own, *any_.values())
        for path in attempt(report, ip, "unknown variables are followed", where_,
                            HEAD.format(body="return get_color_space()"),
                            [STREAM, Sym("mark", ("callable",))]):
            judge(report, path, own.lower(), where_, f"SLATE_COLORSYS={own}")
    environment(ip, None, text, any_["COLORTERM"], any_["TERM"])
    for path in attempt(report, ip, "unknown variables are followed", where_,
                        HEAD.format(body="return get_color_space()"),
                        [STREAM, Sym("mark", ("callable",))]):
        judge(report, path, "no_color", where_, "NO_COLOR set to anything")
    for colorterm, want in (("truecolor", "true_color"), ("24BIT", "true_color"),
                            ("256color", "eight_bit")):
        environment(ip, None, None, colorterm, any_["TERM"])
        for path in attempt(report, ip, "unknown variables are followed", where_,
                            HEAD.format(body="return get_color_space()"),
                            [STREAM, Sym("mark", ("callable",))]):
            judge(report, path, want, where_, f"COLORTERM={colorterm}")


def ordering(report, ip):
    where_ = "ColorSpace"
    for i, one in enumerate(ORDER):
        for j, two in enumerate(ORDER):
            for other in (f"ColorSpace({two!r})", repr(two)):
                for sign, want in (("==", i == j), (">", i > j), (">=", i >= j), ("!=", i != j)):
                    for path in attempt(report, ip, "color spaces are compared", where_,
                                        HEAD.format(body="return True if ColorSpace("
                                                    f"{one!r}) {sign} {other} else False"),
                                        [STREAM, Sym("mark", ("callable",))]):
                        got = path.value.val if path.status == "return" and isinstance(
                            path.value, Const) else None
                        report.judge(False if path.status == "raise" else None if got is None
                                     else got == want, "color spaces are compared by what they "
                                     "can show", where_, f"{one} {sign} {other} is {path.value!r}")


def forced(report, ip):
    where_ = "Terminal.color_space"
    mark = Sym("mark", ("callable",))
    head = """
    from slate.core import get_color_space, ColorSpace
    from slate.terminal import Terminal
    def main(stream, mark):
        term = Terminal(stream)
        def listener(space):
            mark(space, term.color_space)
            return True
        term.on_color_space_set += listener
        {body}
    """
    values = {n: f"ColorSpace({n!r})" for n in ORDER}
    envs = [(None, None, None, None), ("true_color", "1", "24bit", "xterm"),
            (None, "", "truecolor", None), (None, None, "truecolor", "xterm"),
            ("standard", None, None, "xterm-256color")]
    for env in envs:
        plain = expected(*env)
        histories = [[a] for a in ORDER] + [[a, None] for a in ORDER] \
            + [[a, b] for a in ORDER for b in ORDER] + [[None], ["standard", None, "no_color"]]
        for history in histories:
            body = "; ".join(f"term.color_space = {values.get(s)}" for s in history) \
                + "; return term.color_space"
            environment(ip, *env)
            for path in attempt(report, ip, "forcing is followed", where_,
                                head.format(body=body), [STREAM, mark]):
                if path.status == "backedge":
                    continue
                label = f"{body} with {env!r}"
                if path.status != "return":
                    report.judge(False if path.status == "raise" else None,
                                 "a color space can be forced", where_, f"{path.status} {label}")
                    continue
                want = history[-1] or plain
                report.judge(None if member(path.value) is None else member(path.value) == want,
                             "a forced color space is the terminal's", where_,
                             f"{path.value!r} instead of {want} after {label}")
                calls = [e.data["args"] for e in path.trace if e.kind == "callback"
                         and e.data["fn"] == mark]
                what = "listeners hear of the color space once, when it is in effect"
                if len(calls) != len(history):
                    report.judge(False, what, where_, f"{len(calls)} calls for {label}")
                    continue
                for args, space in zip(calls, history):
                    right = args[0] == NONE_V if space is None else (
                        None if member(args[0]) is None else member(args[0]) == space)
                    now = None if member(args[1]) is None else member(args[1]) == (
                        space or plain)
                    report.judge(right, what, where_, f"{args[0]!r} for {label}")
                    report.judge(now, what, where_, f"{args[1]!r} in effect for {label}")
