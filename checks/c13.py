"""C13: colour descriptions decode to the channels, layer and alpha they spell."""

from .colorlab import *  # noqa: F403
from .css import NAMES
from .known import constant_interp, table

TECHNIQUE = "abstract interpretation of the decoders over description templates"
RULE = """every kind of description, with unknown numbers in it, is decoded abstractly: on every
path that returns, the facts imply that the channels, the layer and the alpha are the spelled ones
and that they are in range; on every path that fails, that it fails with a value error and that the
facts imply something out of range. Palette indices, standard codes and names are propagated as
constants through the decoder and compared with the standard palette and the CSS names"""
ASSUMPTIONS = ["numbers are spelled in plain decimal, hexadecimal digits in pairs",
               "luminance and brightness of a colour do not decide whether it is accepted"]

PRELUDE = """
    from slate.color import Color, color
    def main({params}):
        {mark}
        return {expr}
"""
IN_RANGE = "mark({cond})"


def symbolic(report, ip, name, expr, params, legal, rgb, layer, alpha=Const(1.0)):
    """One template: `legal` is the condition under which it is a colour at all."""

    source = PRELUDE.format(params=", ".join(["mark", "a"] + params), expr=expr,
                            mark=f"mark('legal' if {legal} else 'illegal')")

    def args(machine):
        assume_alpha(machine)
        return [MARK, ALPHA] + ints(*params)

    results = driver.run(ip, source, args)
    report.saw(ip, results)
    seen = set()
    for path in results:
        if path.status not in ("return", "raise"):
            report.undecided(f"{name} is followed", "color", path.status)
            continue
        got = marks(path)
        if not got:
            report.undecided(f"{name} is followed", "color", path.describe()[:300])
            continue
        kind = got[0][0].val
        seen.add((kind, path.status))
        where_, detail = "color", f"{name} when {path.describe()[:400]}"
        if path.status == "raise":
            report.judge(firm(path, raised_name(path) == "ValueError"), f"{name}: only value errors", where_,
                         f"{raised_name(path)} for {detail}")
            report.judge(firm(path, kind == "illegal"), f"{name}: every valid one is accepted", where_,
                         detail)
            continue
        report.judge(firm(path, kind == "legal"), f"{name}: invalid ones are rejected", where_, detail)
        if kind != "legal":
            continue
        value = path.value
        if not isinstance(value, Obj):
            report.undecided(f"{name} gives a colour", where_, detail)
            continue
        values = {p: Sym(p, INT) for p in params}
        if rgb is not None:
            report.judge(same_value(path, field(value, "rgb"), rgb(values)),
                         f"{name}: the channels are the spelled ones", where_,
                         f"{field(value, 'rgb')!r} for {detail}")
        bg = known_bool(path, field(value, "is_background"))
        report.judge(None if bg is None else bg == layer, f"{name}: the layer is the spelled one",
                     where_, f"{field(value, 'is_background')!r} for {detail}")
        report.judge(same_value(path, field(value, "alpha"), alpha),
                     f"{name}: the alpha is the spelled one", where_,
                     f"{field(value, 'alpha')!r} for {detail}")
    if ("legal", "return") not in seen:
        report.undecided(f"{name}: an accepted path is followed", "color")


def triple(*names):
    return lambda env: Tup(env[n] for n in names)


def constants(report, ip, cases):
    """(description, rgb, layer) with nothing unknown in it."""

    wrong = 0
    for text, rgb, layer in cases:
        results = driver.run(ip, f"""
            from slate.color import color
            def main():
                return color({text!r})
            """, [])
        report.paths += len(results)
        path = results[0]
        good = len(results) == 1 and path.status == "return"
        want = Tup(Const(v) for v in rgb)
        if good:
            got = same_value(path, field(path.value, "rgb"), want)
            layer_ = known_bool(path, field(path.value, "is_background"))
            if got is None or layer_ is None:
                report.undecided("a constant description is decoded", "color", text)
                continue
            if not (got and layer_ == layer):
                wrong += 1
                report.bad("a description decodes to what it stands for", "color",
                           f"{text!r} gives {field(path.value, 'rgb')!r}, background "
                           f"{layer_}; expected {want!r}, background {layer}",
                           key=f"constant:{text}")
                continue
            report.ok("a description decodes to what it stands for", "color", text)
            continue
        status = [p.status for p in results]
        report.judge(False if status == ["raise"] else None,
                     "a description decodes to what it stands for", "color",
                     f"{text!r} fails", key=f"constant:{text}")
    report.count("constant_descriptions", len(cases))


def run(report):
    ip = make_interp(max_paths=600)
    byte = "0 <= {0} < 256"

    def all_bytes(*names):
        return " and ".join(byte.format(n) for n in names)

    rgb = ["r", "g", "b"]
    float_alpha = App("float", (ALPHA,), FLOAT)
    # tuples
    symbolic(report, ip, "a channel tuple", "color((r, g, b))", rgb, all_bytes(*rgb),
             triple(*rgb), False)
    symbolic(report, ip, "a channel tuple with alpha", "color((r, g, b, q))", rgb + ["q"],
             all_bytes(*rgb), triple(*rgb), False, Sym("q", INT))
    symbolic(report, ip, "a constructed background", "Color((r, g, b), is_background=True)", rgb,
             all_bytes(*rgb), triple(*rgb), True)
    # sequences
    for lead, layer in (("38", False), ("48", True)):
        for via in ("color", "Color.from_ansi"):
            for tail, alpha in (("", Const(1.0)), (" + ';' + a", float_alpha)):
                given = f"{via}{' with alpha' if tail else ''}"
                symbolic(report, ip, f"{lead};2;r;g;b through {given}",
                         f"{via}(f'{lead};2;{{r}};{{g}};{{b}}'{tail})", rgb, all_bytes(*rgb),
                         triple(*rgb), layer, alpha)
                symbolic(report, ip, f"{lead};5;n through {given}",
                         f"{via}(f'{lead};5;{{n}}'{tail})", ["n"], byte.format("n"),
                         None, layer, alpha)
    for text, rgb_, layer in (("tomato", (255, 99, 71), False), ("31", PALETTE[1], False),
                              ("44", PALETTE[4], True), ("97", PALETTE[15], False),
                              ("103", PALETTE[11], True), ("200", PALETTE[200], False)):
        symbolic(report, ip, f"{text!r} with alpha", f"color('{text};' + a)", [], "True",
                 lambda env, v=rgb_: Tup(Const(c) for c in v), layer, float_alpha)
    unknown_prefixes(report, ip)
    rejects(report, ip)
    hexadecimal(report, ip)
    table(report, constant_interp(), "\n    from slate.color import Color, color\n", [
        ("hexadecimal: a channel out of range is rejected", "Color.from_hex", expr,
         ("raised", "ValueError"))
        for text in ("1020300", "1020fff", "a0b0c00d", "102030405", "0000100000", "ffffff100")
        for expr in (f"Color.from_hex('#{text}')", f"Color.from_hex({text!r}, 0.5)",
                     f"color('#{text}')") if len(text) != 8 or not expr.startswith("color")])
    constants(report, ip, [(f"{lead};5;{n}", PALETTE[n], lead == 48)
                           for lead in (38, 48) for n in range(256)]
              + [(str(n), *standard(n)) for n in range(256)]
              + [(name, spelled(text), False) for name, text in NAMES.items()])


def standard(code):
    if 30 <= code < 38:
        return PALETTE[code - 30], False
    if 40 <= code < 48:
        return PALETTE[code - 40], True
    if 90 <= code < 98:
        return PALETTE[code - 82], False
    if 100 <= code < 108:
        return PALETTE[code - 92], True
    return PALETTE[code], False


def spelled(text):
    return tuple(int(text[i:i + 2], 16) for i in (1, 3, 5))


def unknown_prefixes(report, ip):
    """Any other prefix is refused."""

    for name, expr, params, legal in (
            ("p;q;n", "color(f'{p};{q};{n}')", ["p", "q", "n"],
             "(p == 38 or p == 48) and q == 5"),
            ("p;q;r;g;b", "color(f'{p};{q};{r};{g};{b}')", ["p", "q", "r", "g", "b"],
             "(p == 38 or p == 48) and q == 2"),
            ("p;n", "color(f'{p};{n}')", ["p", "n"], "False"),
            ("p;q;n;m", "color(f'{p};{q};{n};{m}')", ["p", "q", "n", "m"], "False"),
            ("p;q;r;g;b;n", "color(f'{p};{q};{r};{g};{b};{n}')",
             ["p", "q", "r", "g", "b", "n"], "False"),
            ("n", "color(f'{n}')", ["n"], "0 <= n < 256")):
        results = driver.run(ip, PRELUDE.format(
            params=", ".join(["mark"] + params), expr=expr,
            mark=f"mark('legal' if {legal} else 'illegal')"),
            lambda m, p=params: [MARK] + ints(*p))
        report.saw(ip, results)
        for path in results:
            got = marks(path)
            if path.status not in ("return", "raise") or not got:
                report.undecided(f"{name} is followed", "color", path.describe()[:200])
                continue
            kind, detail = got[0][0].val, f"{name} when {path.describe()[:400]}"
            if path.status == "raise":
                report.judge(firm(path, raised_name(path) == "ValueError"), f"{name}: only value errors",
                             "Color.from_ansi", f"{raised_name(path)} for {detail}")
                if name == "n":
                    report.judge(firm(path, kind == "illegal"), f"{name}: every valid one is accepted",
                                 "Color.from_ansi", detail)
            else:
                report.judge(firm(path, kind == "legal"), f"{name}: unknown forms are rejected",
                             "Color.from_ansi", detail)


def rejects(report, ip):
    """Text that is no description, and things that are none."""

    blob = Sym("blob", STR, meta=Shape(frozenset("ghijklmnopqrstuvwxyz"), 20, 40))
    for name, expr in (("other text", "color(blob)"), ("an empty description", "color('')"),
                       ("a non-colour", "color(None)"), ("a number", "color(5)"),
                       ("a hash alone", "color('#')"), ("bad digits", "color('#gg0000')"),
                       ("an out of range tuple", "color((256, 0, 0))"),
                       ("a negative tuple", "color((0, 0, -1))"),
                       ("an index too large", "color('38;5;256')"),
                       ("a channel too large", "color('38;2;0;256;0')"),
                       ("text for an index", "color('38;5;x')")):
        results = driver.run(ip, f"""
            from slate.color import Color, color
            def main(blob):
                return {expr}
            """, [blob])
        report.saw(ip, results)
        for path in results:
            good = path.status == "raise" and raised_name(path) == "ValueError"
            definite = path.status == "return" or raised_name(path) is not None
            report.judge(True if good else False if definite and len(results) == 1 else None,
                         f"{name} is rejected with a value error", "color",
                         f"{path.status} {raised_name(path)} when {path.describe()[:200]}")


def hexadecimal(report, ip):
    for style in ("02x", "02X"):
        for name, expr, alpha in (
                ("hexadecimal", "color('#' + x)", Const(1.0)),
                ("hexadecimal through from_hex", "Color.from_hex('#' + x)", Const(1.0)),
                ("bare hexadecimal through from_hex", "Color.from_hex(x)", Const(1.0)),
                ("hexadecimal with alpha", f"color('#' + x + f'{{q:{style}}}')", "q")):
            source = f"""
                from slate.color import Color, color
                def main(r, g, b, q):
                    x = f'{{r:{style}}}{{g:{style}}}{{b:{style}}}'
                    return {expr}
                """
            results = driver.run(ip, source, ints("r", "g", "b", "q", lo=0, hi=255))
            report.saw(ip, results)
            for path in results:
                detail = f"{name} ({style}) when {path.describe()[:300]}"
                if path.status != "return" or not isinstance(path.value, Obj):
                    report.judge(False if path.status == "raise" and len(results) == 1 else None,
                                 f"{name}: every valid one is accepted", "Color.from_hex",
                                 f"{raised_name(path)} for {detail}")
                    continue
                want = Tup(ints("r", "g", "b"))
                report.judge(same_value(path, field(path.value, "rgb"), want),
                             f"{name}: the channels are the spelled ones", "Color.from_hex",
                             f"{field(path.value, 'rgb')!r} for {detail}")
                report.judge(known_bool(path, field(path.value, "is_background")) is False,
                             f"{name}: the layer is the foreground", "Color.from_hex", detail)
                got = field(path.value, "alpha")
                if alpha == "q":
                    report.judge(is_ratio(got), f"{name}: the alpha is the spelled one", "color",
                                 f"{got!r} for {detail}")
                else:
                    report.judge(same_value(path, got, alpha),
                                 f"{name}: the alpha is the spelled one", "Color.from_hex",
                                 f"{got!r} for {detail}")


def is_ratio(val):
    """True/False/None: the value is q / 255."""

    from absint.facts import lin_of
    if isinstance(val, App) and val.op == "div" and val.args[1] == Const(255):
        return val.args[0] == Sym("q", INT)
    lin = lin_of(val) if isinstance(val, Term) else None
    if lin is None or any(not isinstance(t, Sym) for t in lin[1]):
        return None
    return not lin[0] and list(lin[1]) == [Sym("q", INT)] and abs(
        float(lin[1][Sym("q", INT)]) * 255 - 1) < 1e-9
