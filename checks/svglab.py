"""Reading exported SVG, shared by the SVG checks."""

import html
import re
import xml.etree.ElementTree as ET

from .spanlab import *  # noqa: F403

SPECIAL = "<>&\"'"
# characters whose handling might differ from that of all the others
OTHERS = "a;#x0 \u00e9\u2588\u00a0%{}\\/[mH"

ESCAPES = {"html.escape": lambda t: html.escape(t),
           "html.escape-noquote": lambda t: html.escape(t, False),
           "xml.escape": lambda t: html.escape(t, False)}

CSS_OF = {"bold": ("font-weight", "bold"), "italic": ("font-style", "italic"),
          "dim": ("opacity", "0.7"), "underline": ("text-decoration", "underline"),
          "strike": ("text-decoration", "line-through")}


class Svg:
    """The elements of exported markup; unknown parts are placeholders (see Holes)."""

    def __init__(self, val, stylesheet=None):
        self.holes = Holes([val] if stylesheet is None else [val, Const("\ufffe"), stylesheet])
        text = self.holes.text
        if stylesheet is None:
            self.css_text = ""
        else:
            text, _, self.css_text = text.partition("\ufffe")
        self.error = None
        self.rects, self.texts, self.order = [], [], []
        try:
            root = ET.fromstring("<export>" + text + "</export>")
        except ET.ParseError as exc:
            self.error = f"{exc} in {text[:200]!r}"
            return
        for node in root.iter():
            tag = node.tag.split("}")[-1]
            if tag == "style":
                self.css_text += node.text or ""
            elif tag in ("rect", "text"):
                item = {"tag": tag, "content": "".join(node.itertext()), **node.attrib}
                (self.rects if tag == "rect" else self.texts).append(item)
                self.order.append(item)
        self.root = root
        sheet = re.sub(r"/\*.*?\*/", "", self.css_text, flags=re.S)
        self.rules = {}
        for name, body in re.findall(r"\.([\w-]+)\s*\{([^}]*)\}", sheet):
            self.rules.setdefault(name, {}).update(declarations(body))

    def styles(self, text):
        """The declarations in effect for a text element."""

        out = {}
        for name in text.get("class", "").split():
            out.update(self.rules.get(name, {}))
        out.update(declarations(text.get("style", "")))
        out.setdefault("fill", text.get("fill"))
        return out

    def back(self, text):
        return self.holes.back(text)


def declarations(body):
    out = {}
    for part in body.split(";"):
        name, colon, val = part.partition(":")
        if colon:
            out[name.strip()] = val.strip()
    return out


def expected_css(flags):
    out = {}
    for name, (key, val) in CSS_OF.items():
        if flags.get(name):
            out.setdefault(key, set()).add(val)
    return out


def wrong_css(styles, flags):
    """What is wrong about declarations for a text with the styles given (or None)."""

    wanted = expected_css(flags)
    for key in sorted({k for k, _ in CSS_OF.values()}):
        got = set(styles.get(key, "").split())
        want = wanted.get(key, set())
        if key == "opacity" and want and got:
            try:
                if 0 < float(next(iter(got))) < 1 and len(got) == 1:
                    continue
            except ValueError:
                pass
        if not want:
            got -= {"normal", "none", "inherit", "1", "400"}
        if got != want:
            return f"{key} is {styles.get(key)!r} instead of {' '.join(sorted(want)) or 'unset'!r}"
    return None


def image(term, text, char):
    """What one character of `text` becomes within term (None: not known)."""

    if term == text:
        return char
    if isinstance(term, App) and term.op in ESCAPES:
        inner = image(term.args[0], text, char)
        return None if inner is None else ESCAPES[term.op](inner)
    if isinstance(term, App) and term.op == "str.replace" and len(term.args) == 3 and all(
            isinstance(a, Const) and isinstance(a.val, str) for a in term.args[1:]):
        old, new = term.args[1].val, term.args[2].val
        inner = image(term.args[0], text, char)
        return None if inner is None or len(old) != 1 else inner.replace(old, new)
    if isinstance(term, App) and term.op == "str.translate" and isinstance(term.args[1], Const):
        inner = image(term.args[0], text, char)
        return None if inner is None else inner.translate(dict(term.args[1].val))
    return None


def replaced(term):
    """The characters that are treated in some way."""

    if isinstance(term, App) and term.op == "str.replace":
        return {c for a in term.args[1:] if isinstance(a, Const) for c in str(a.val)} | replaced(
            term.args[0])
    if isinstance(term, App) and term.op == "str.translate" and isinstance(term.args[1], Const):
        return {chr(k) for k, _ in term.args[1].val} | replaced(term.args[0])
    return replaced(term.args[0]) if isinstance(term, App) and term.args else set()


def escaping_fault(term, text):
    """(True, None) when every character is escaped rightly, (False, why), (None, why)."""

    for char in sorted(set(SPECIAL) | set(OTHERS) | replaced(term)):
        got = image(term, text, char)
        if got is None:
            return None, f"{term!r} is not understood"
        if char in SPECIAL:
            fine = re.fullmatch(r"&(#\d+|#x[0-9a-fA-F]+|\w+);", got) and html.unescape(got) == char
        else:
            fine = same_text(html.unescape(got), char) and not set(got) & set("<>\"'")
        if not fine:
            return False, f"{char!r} comes out as {got!r}"
    return True, None


def same_text(one, two):
    return one.replace("\u00a0", " ") == two.replace("\u00a0", " ")


def mentions(term, sym):
    if term == sym:
        return True
    if isinstance(term, App):
        return any(mentions(a, sym) for a in term.args if isinstance(a, Term))
    if isinstance(term, Cat):
        return any(mentions(a, sym) for a in term.parts)
    return False


def constant_interp(size=(6, 3)):
    """For programs of which everything is known."""

    def default(machine, args, kwargs, node):
        return machine.call(machine.classes["Color"], [
            Tup(map(Const, (11, 12, 13) if args[:1] == [Const("11")] else (14, 15, 16)))], {}, node)

    ip = driver.interp(stubs={"get_default_color": default, "set_echo": lambda *a: NONE_V,
                              "Event.__call__": lambda *a: FALSE,
                              "get_terminal_size": lambda *a: Tup(Const(s) for s in size)},
                       externals={name: lambda *a: Tup(Const(s) for s in size) for name in (
                           "os.get_terminal_size", "shutil.get_terminal_size")},
                       max_paths=300)
    driver.find(ip, "slate.terminal", "Terminal")
    ip.config.env = {}
    return ip
