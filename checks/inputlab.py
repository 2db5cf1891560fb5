"""Reading keys and mouse events, for the checks of input."""

from .common import *  # noqa: F403
from absint.strings import Shape

HEAD = """
    from slate.core import feed, getch, parse_mouse_event, Key
    def main(stream, x, y, z, t):
        {body}
"""

DIGITS = frozenset("0123456789")
PLAIN = frozenset(map(chr, range(32, 127))) | {"\n", "\t", "\u00e9", "\u6f22"}
X, Y, Z = (Sym(n, STR, meta=Shape(DIGITS, 1, 12)) for n in "xyz")
TEXT = Sym("t", STR, meta=Shape(PLAIN, 1, 40))
ARGS = [STREAM, X, Y, Z, TEXT]

MODIFIERS = ((4, "shift"), (16, "ctrl"), (8, "option"))


def input_interp(**more):
    ip = driver.interp(stubs=NUMERIC, skip_post_init=("Color", "Span"), max_paths=1500, **more)
    driver.find(ip, "slate.core", "getch")
    return ip


def on_tty(path):
    return path.facts.implied(("truthy", App("isatty", (STREAM,), BOOL)))


def names_of(path):
    """The names of the key a path returns: a tuple of terms, or None."""

    vals = path.value.fields.get("possible_values") if path.status == "return" and isinstance(
        path.value, Obj) else None
    if isinstance(vals, Tup):
        return tuple(vals.items)
    if isinstance(vals, LST) and vals.items is not None:
        return tuple(vals.items)
    return None


def mouse_name(code, pressed=True):
    """What a button code of an SGR mouse report stands for (xterm's bits), None for nothing
    covered, and whether the table has to have it."""

    if code >= 128:
        return None, False
    mods = "".join(f"{name}_" for bit, name in MODIFIERS if code & bit)
    button = code & 3
    if code & 64:
        if code & 32:
            return None, False
        return mods + ("scroll_up", "scroll_down", "scroll_left", "scroll_right")[button], True
    if code & 32:
        name = ("left_drag", "middle_drag", "right_drag", "hover")[button]
        return mods + name, button != 1
    if button == 3:
        return None, False
    name = ("left_", "middle_", "right_")[button] + ("click" if pressed else "release")
    return mods + name, button != 1
