"""Colour descriptions as templates with unknown numbers, shared by the colour checks."""

from .common import *  # noqa: F403
from absint.strings import DIGITS, HEX, Shape

MARK = Sym("mark", ("callable",))
ALPHA = Sym("alpha_text", STR, meta=Shape(DIGITS | {"."}, 3, 8, frozenset(".")))

# the colour a palette index stands for: the 16 VGA colours, the 6x6x6 cube, the grey ramp
VGA = [(0, 0, 0), (170, 0, 0), (0, 170, 0), (170, 85, 0), (0, 0, 170), (170, 0, 170),
       (0, 170, 170), (170, 170, 170), (85, 85, 85), (255, 85, 85), (85, 255, 85),
       (255, 255, 85), (85, 85, 255), (255, 85, 255), (85, 255, 255), (255, 255, 255)]
STEPS = (0, 95, 135, 175, 215, 255)
PALETTE = VGA + [(r, g, b) for r in STEPS for g in STEPS for b in STEPS] + [
    (v, v, v) for v in range(8, 239, 10)]


def ints(*names, lo=None, hi=None):
    return [Sym(n, INT, lo=lo, hi=hi) for n in names]


def assume_alpha(machine):
    machine.facts.assume(("p", "isfloat", ALPHA, NONE_V), True)


def make_interp(stubs=(), **config):
    ip = driver.interp(stubs={**NUMERIC, "get_default_color": color_result_stub("default"),
                              **dict(stubs)}, **config)
    driver.find(ip, "slate.color", "Color")
    driver.find(ip, "slate.color", "color")
    return ip


def marks(path):
    """Constants the driver passed to `mark`, in order."""

    return [ev.args for ev in path.trace if ev.kind == "callback" and ev.data["fn"] == MARK]


def field(obj, name):
    return obj.fields.get(name) if isinstance(obj, Obj) else None


def known_bool(path, val):
    """A bool value as the path's facts decide it."""

    if isinstance(val, Cmp):
        got = path.facts.implied(val.atom)
        return None if got is None else got == val.pol
    val = path.facts.resolve(val) if isinstance(val, Term) else val
    if isinstance(val, Const):
        return bool(val.val)
    if isinstance(val, Term):
        return path.facts.implied(("truthy", val))
    return None


def same_value(path, one, two):
    """True/False/None: two values are the same number, text or tuple."""

    if isinstance(one, Tup) and isinstance(two, Tup):
        if len(one.items) != len(two.items):
            return False
        got = [same_value(path, a, b) for a, b in zip(one.items, two.items)]
        return False if False in got else True if all(g is True for g in got) else None
    if not isinstance(one, Term) or not isinstance(two, Term):
        return True if one is two else None
    if one == two:
        return True
    known = path.facts.eq_implied(one, two)
    if known is not None:
        return known
    return differ(path, one, two)


def differ(path, one, two):
    """False when two numeric expressions over free inputs cannot agree on the whole path."""

    from absint.facts import lin_of
    left, right = lin_of(one), lin_of(two)
    if left is None or right is None or ty_of(one) not in (INT, FLOAT) or ty_of(two) not in (
            INT, FLOAT):
        return None
    terms = set(left[1]) | set(right[1])
    if all(isinstance(t, Sym) or (isinstance(t, App) and t.op in (
            "float", "int", "item", "len")) for t in terms):
        return False
    return None


PLAIN_OPS = {"item", "len", "float", "min", "max", "floordiv", "mod", "int", "trunc", "round",
             "floor", "ceil", "abs", "str.count", "argmin", "str", "fmt"}


COMPUTED = ("luminance", "brightness", "hls", "hex", "ansi", "contrast", "complement")


def trusted(path):
    """Does the path rest only on conditions the solver understands?"""

    for atom, _ in path.facts.order:
        for part in atom[1:]:
            if not isinstance(part, Term):
                continue
            for sub in subterms(part):
                if isinstance(sub, App) and sub.op == "attr" and isinstance(
                        sub.args[1], Const) and sub.args[1].val not in COMPUTED:
                    continue  # an attribute of an input
                if isinstance(sub, App) and sub.op not in PLAIN_OPS:
                    return False
    return True


def firm(path, cond):
    """A refutation is only kept on paths that are surely possible."""

    return None if cond is False and not trusted(path) else cond
