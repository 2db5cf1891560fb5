"""C22: key and mouse tables match the terminal protocols."""

from .inputlab import *  # noqa: F403

TECHNIQUE = "constant propagation through the tables and the code that reads them"
RULE = """every key sequence of the tables, and every one that has to be there, is fed and read: all
names of the key have to be names xterm's encoding of that sequence gives (modifier bits, final
letters, numbers), the name of the key, and of the letter for control characters, has to be among
them, and no name belongs to two keys; every mouse code from 0 to 255, pressed and released, is
decoded: its name has to be that of the button or wheel and of exactly the modifiers in its bits"""
ASSUMPTIONS = ["xterm's encoding of keys (CSI 1;m letter, CSI n~, SS3) and of SGR mouse reports"]

LETTERS = {"A": "up", "B": "down", "C": "right", "D": "left", "H": "home", "F": "end",
           "P": "F1", "Q": "F2", "R": "F3", "S": "F4"}
NUMBERS = {1: "home", 2: "insert", 3: "delete", 4: "end", 5: "page-up", 6: "page-down", 7: "home",
           8: "end", 11: "F1", 12: "F2", 13: "F3", 14: "F4", 15: "F5", 17: "F6", 18: "F7",
           19: "F8", 20: "F9", 21: "F10", 23: "F11", 24: "F12"}
SAME = {"escape": "esc", "enter": "return", "pgup": "page-up", "pageup": "page-up",
        "page_up": "page-up", "pgdown": "page-down", "pagedown": "page-down", "del": "delete",
        "pgdn": "page-down", "ins": "insert", "page_down": "page-down"}
MODS = {"shift": 1, "alt": 2, "option": 2, "meta": 2, "ctrl": 4, "control": 4}

REQUIRED = ["\x1b", "\x7f", "\x1b\x7f", "\x1b[H", "\x1b[F", "\x1b[2~", "\x1b[3~", "\x1b[Z"] \
    + [chr(i) for i in range(1, 27)] + [f"\x1b[{c}" for c in "ABCD"] \
    + [f"\x1b[1;{m}{c}" for m in (2, 3, 4, 5) for c in "ABCD"] + ["\x1b[1;6A", "\x1b[1;6B"] \
    + [f"\x1bO{c}" for c in "PQRS"] + [f"\x1b[{n}~" for n in NUMBERS if n > 10]


def meaning(seq):
    """{(modifier bits, key)} a sequence stands for, the first one being what it is called for;
    None if it is not known."""

    if seq == "\x1b":
        return [(0, "esc"), (4, "[")]
    if seq == "\x7f":
        return [(0, "backspace")]
    if seq == " ":
        return [(0, "space")]
    if seq == "\0":
        return [(4, "space"), (4, "@"), (4, "2")]
    if len(seq) == 1 and 1 <= ord(seq) <= 26:
        letter = (4, chr(ord(seq) + 96))
        extra = {"\x08": [(4, "backspace")], "\t": [(0, "tab")], "\n": [(0, "return")],
                 "\r": [(0, "return")]}
        return [letter] + extra.get(seq, [])
    if seq == "\x1b[Z":
        return [(1, "tab")]
    mtch = re.fullmatch(r"\x1b(?:O|\[)([A-Z])|\x1b\[1;([2-8])([A-Z])", seq)
    if mtch and (mtch[1] or mtch[3]) in LETTERS:
        return [(int(mtch[2] or 1) - 1, LETTERS[mtch[1] or mtch[3]])]
    mtch = re.fullmatch(r"\x1b\[([0-9]+)(?:;([2-8]))?~", seq)
    if mtch and int(mtch[1]) in NUMBERS:
        return [(int(mtch[2] or 1) - 1, NUMBERS[int(mtch[1])])]
    if seq[0] == "\x1b" and len(seq) > 1 and meaning(seq[1:]):
        return [(bits | 2, key) for bits, key in meaning(seq[1:])]
    return None


def spelled(name):
    """(modifier bits, key) of a name."""

    bits, rest = 0, name
    while "-" in rest and rest.split("-")[0] in MODS:
        bits |= MODS[rest.split("-")[0]]
        rest = rest.split("-", 1)[1]
    if rest.startswith("arrow-"):
        rest = rest[6:]
    if re.fullmatch("f[0-9]+", rest):
        rest = rest.upper()
    return bits, SAME.get(rest, rest)


def table(report, ip):
    """The sequences of the key table, as far as it is known."""

    for path in attempt(report, ip, "the table is known", "POSIX_KEY_NAMES", """
            from slate.key_names import POSIX_KEY_NAMES
            def main():
                return POSIX_KEY_NAMES
            """, []):
        if path.status == "return" and isinstance(path.value, DCT):
            return [k.val for k in path.value.items if isinstance(k, Const)
                    and isinstance(k.val, str)]
    return []


SCAN = {"H": "up", "P": "down", "K": "left", "M": "right", "G": "home", "O": "end",
        "I": "page-up", "Q": "page-down", "R": "insert", "S": "delete", "\x85": "F11",
        "\x86": "F12", **{chr(58 + n): f"F{n}" for n in range(1, 11)}}


def windows(report, ip):
    """The table of scan codes (after a zero or 0xe0, which is read as an escape character)."""

    where_ = "NT_KEY_NAMES"
    for path in attempt(report, ip, "the table is known", where_, """
            from slate.key_names import NT_KEY_NAMES
            def main():
                return NT_KEY_NAMES
            """, []):
        if path.status != "return" or not isinstance(path.value, DCT):
            continue
        for seq, names in path.value.items.items():
            names = [getattr(n, "val", None) for n in getattr(names, "items", ())]
            if not isinstance(seq, Const) or not all(isinstance(n, str) for n in names):
                continue
            seq = seq.val
            means = {"\r": [(0, "return"), (4, "m")], "\x08": [(0, "backspace"), (4, "h")]}.get(
                seq) or (meaning(seq) if len(seq) == 1 else None)
            if len(seq) == 2 and seq[0] in "\0\x1b\xe0" and seq[1] in SCAN:
                means = [(0, SCAN[seq[1]])]
            for name in names:
                report.judge(None if means is None else spelled(name) in means,
                             "a key has the name of what is pressed", where_,
                             f"{name!r} for {seq!r} instead of {means!r}")


def run(report):
    ip = input_interp()
    windows(report, ip)
    keys(report, ip)
    mouse(report, ip)


def keys(report, ip):
    where_ = "POSIX_KEY_NAMES"
    seqs = list(dict.fromkeys(REQUIRED + table(report, ip)))
    owners = {}
    for seq in seqs:
        must = seq in REQUIRED
        for path in attempt(report, ip, "keys are read", where_, HEAD.format(
                body=f"feed({seq!r})\n        return getch(stream)"), ARGS):
            if path.status == "backedge" or on_tty(path) is False:
                continue
            got = names_of(path)
            if got is None or not all(isinstance(n, Const) for n in got):
                report.judge(False if path.status == "raise" else None, "a key is named", where_,
                             f"{path.status} {raised_name(path)} {got!r} for {seq!r}")
                continue
            names = [n.val for n in got]
            means = meaning(seq)
            if names == [seq]:
                report.judge(not must, "every standard key has a name", where_,
                             f"{seq!r} has none")
                continue
            if means is None:
                report.undecided("a sequence is known", where_, f"{seq!r}: {names!r}")
                continue
            for name in names:
                report.judge(spelled(name) in means, "a key has the name of what is pressed",
                             where_, f"{name!r} for {seq!r} instead of {means!r}")
                owners.setdefault(name, []).append((seq, means))
            if must:
                report.judge(means[0] in [spelled(n) for n in names],
                             "every standard key has a name", where_,
                             f"{names!r} for {seq!r} without {means[0]!r}")
            if seq in ("\t", "\n"):
                report.judge(means[1] in [spelled(n) for n in names],
                             "every standard key has a name", where_,
                             f"{names!r} for {seq!r} without {means[1]!r}")
    for name, held in owners.items():
        common = set.intersection(*[set(m) for _, m in held])
        report.judge(bool(common), "no two keys have the same name", where_,
                     f"{name!r} is the name of {[s for s, _ in held]!r}")


def mouse(report, ip):
    where_ = "MOUSE_EVENTS"
    for code in range(256):
        for pressed in (True, False):
            seq = f"\x1b[<{code};12;34{'M' if pressed else 'm'}"
            want, must = mouse_name(code, pressed)
            for path in attempt(report, ip, "mouse reports are decoded", where_, HEAD.format(
                    body=f"return parse_mouse_event({seq!r})"), ARGS):
                got = path.value.val if path.status == "return" and isinstance(
                    path.value, Const) else Ellipsis
                if got is Ellipsis:
                    report.judge(False if path.status == "raise" else None,
                                 "a mouse code is decoded", where_,
                                 f"{path.status} {raised_name(path)} for {seq!r}")
                    continue
                what = "a mouse code is named by its button and modifiers"
                if got is None:
                    report.judge(not must, what, where_, f"nothing for {seq!r}: {want}")
                elif want is None:
                    report.judge(False, what, where_, f"{got!r} for {seq!r}")
                else:
                    report.judge(got == f"mouse:{want}@12;34", what, where_,
                                 f"{got!r} instead of {want!r} for {seq!r}")
