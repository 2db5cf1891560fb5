"""Regular expressions over partly known strings.

The matches of a pattern in a template (constants and unknown pieces over known characters) are
found on the template with its unknown pieces filled in; they are taken only if they fall at the
same places whatever lengths and characters the pieces are filled with."""

from __future__ import annotations

import re

from . import strings
from .terms import App, Const

SPECIAL = "\x1b[]mMH;<>0159 \n.-+#aAzZ\u00e9\u4e2d"


def compiled(pattern):
    if not (isinstance(pattern, App) and pattern.op == "re.compile") or len(pattern.args) != 1:
        return None
    text = pattern.args[0]
    if not isinstance(text, Const) or not isinstance(text.val, str):
        return None
    try:
        return re.compile(text.val)
    except re.error:
        return None


def fillings(parts, facts, regex):
    """Texts for the parts: every unknown piece short and long, of each kind of character."""

    infos = []
    for part in parts:
        if isinstance(part, Const):
            infos.append(None)
            continue
        info = strings.shape(part, facts)
        if info.chars is None or not info.chars:
            return None
        infos.append(info)
    literal = set(regex.pattern) | set(SPECIAL)

    def texts(info):
        chars = sorted(info.chars & literal) + sorted(info.chars - literal)[:2]
        most = 40 if info.hi is None else info.hi
        longest = min(most, max(info.lo, 1) + 2)
        must = "".join(sorted(info.has))

        def fit(text):
            if any(c not in text for c in must):
                text = (must + text)[:max(len(must), len(text))]
            return text
        first = chars[-1]
        out = [fit((first * max(longest, 1)))[:most]]
        out.append(fit(first * info.lo))
        for char in chars:
            for size in {max(info.lo, 1), longest}:
                if info.lo <= size <= most:
                    out.append(fit(char * size))
        mixed = "".join(chars)
        if info.lo <= len(mixed) <= most:
            out.append(mixed)
            out.append(mixed[::-1])
        return [t for t in out if info.lo <= len(t) <= most]

    options = [[p.val] if i is None else texts(i) for p, i in zip(parts, infos)]
    if not all(options):
        return None
    base = [o[0] for o in options]
    out = [base, [o[min(1, len(o) - 1)] for o in options]]
    for pos, option in enumerate(options):
        for text in option[1:]:
            out.append(base[:pos] + [text] + base[pos + 1:])
    for num in range(1, 12):
        out.append([o[(num * (pos + 3)) % len(o)] for pos, o in enumerate(options)])
    return out


def locate(regex, kind, val, facts, after=(0, 0)):
    """[[(place, place) or None per group] per match], or None when that is not known."""

    parts = strings.pieces(val)
    fills = fillings(parts, facts, regex)
    if fills is None:
        return None

    def find(texts):
        text = "".join(texts)
        begin = sum(map(len, texts[:after[0]])) + after[1]
        if kind == "finditer":
            found = list(regex.finditer(text, begin))
        else:
            found = [m for m in [getattr(regex, kind)(text, begin)] if m]
        return [[m.span(g) for g in range(regex.groups + 1)] for m in found]

    first = fills[0]
    starts = [0]
    for text in first:
        starts.append(starts[-1] + len(text))

    def place(pos, last):
        """(part, offset) of a position: at the end of a part for ends, at its start else."""

        for idx, part in enumerate(parts):
            low, high = starts[idx], starts[idx + 1]
            if low < pos < high:
                return (idx, pos - low) if isinstance(part, Const) else None
            if pos == low:
                return (idx, 0)
        return (len(parts), 0)

    out = []
    for groups in find(first):
        spots = []
        for low, high in groups:
            if low < 0:
                spots.append(None)
                continue
            one, two = place(low, False), place(high, True)
            if one is None or two is None:
                return None
            spots.append((one, two))
        out.append(spots)
    for texts in fills[1:]:
        begin = [0]
        for text in texts:
            begin.append(begin[-1] + len(text))
        want = [[(-1, -1) if s is None else (begin[s[0][0]] + s[0][1], begin[s[1][0]] + s[1][1])
                 for s in spots] for spots in out]
        if find(texts) != want:
            return None
    return out


def between(val, low, high):
    """Parts from one place to another."""

    parts = strings.pieces(val)
    (one, off), (two, end) = low, high
    out = []
    for idx in range(one, min(two + 1, len(parts))):
        part = parts[idx]
        begin = off if idx == one else 0
        if idx == two:
            if not end:
                break
            out.append(Const(part.val[begin:end]))
        elif begin:
            out.append(Const(part.val[begin:]))
        else:
            out.append(part)
    return out


def position(ip, val, spot):
    total = Const(0)
    for part in strings.pieces(val)[:spot[0]]:
        total = ip.add(total, ip.length(part))
    return ip.add(total, Const(spot[1]))


def spot_of(ip, val, pos):
    """The place a position stands for, or None."""

    parts = strings.pieces(val)
    total = Const(0)
    for idx in range(len(parts) + 1):
        gap = ip.sub(pos, total)
        if isinstance(gap, Const):
            if gap.val == 0:
                return (idx, 0)
            if idx < len(parts) and isinstance(parts[idx], Const) \
                    and 0 < gap.val <= len(parts[idx].val):
                if gap.val == len(parts[idx].val):
                    return (idx + 1, 0)
                return (idx, gap.val)
        if idx < len(parts):
            total = ip.add(total, ip.length(parts[idx]))
    return None
