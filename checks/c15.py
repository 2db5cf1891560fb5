"""C15: deriving a span changes only what was asked for."""

from .spanlab import *  # noqa: F403
from .known import constant_interp, table

TECHNIQUE = "abstract interpretation over a span with unknown attributes"
RULE = """every derivation is followed from a span whose fifteen attributes are all unknown: on every
path each attribute of the result is the very term of the original, except those asked for, which
are the term given; slices and pieces are compared with the same slice or split of the text"""
ASSUMPTIONS = ["attributes hold values of their declared types"]

DRIVER = """
    from slate.span import Span
    from slate.color import Color, color
    def main(s, c, v, h, i, j, t):
        return ({expr}, {other})
"""


def original(span):
    types = {"foreground": union(("cls", "Color"), ("none",)),
             "background": union(("cls", "Color"), ("none",)),
             "text": STR, "hyperlink": STR}
    return {f: App("attr", (span, Const(f)), types.get(f, BOOL)) for f in FIELDS}


def union(*types):
    return ("union", tuple(types))


SLICES = ("i", "i:j", "i:", ":j", ":", "-1", "0", "::2", "::-1", "i:j:2", "1:-1")


def run(report):
    ip = span_interp()
    span = driver.symbolic(ip, "s", "Span")
    given = {"c": driver.symbolic(ip, "c", "Color"), "v": Sym("v", BOOL), "h": Sym("h", STR),
             "i": Sym("i", INT), "j": Sym("j", INT), "t": Sym("t", STR)}
    args = [span, *given.values()]
    base = original(span)

    def follow(expr, changed, where_, other="None", text=None):
        results = attempt(report, ip, "derivations are followed", where_,
                          DRIVER.format(expr=expr, other=other), args)
        for path in results:
            if path.status == "backedge":
                continue
            if path.status != "return" or not isinstance(path.value, Tup):
                report.judge(firm(path, False) if path.status == "raise" and raised_name(
                    path) != "IndexError" else None, "a derivation succeeds", where_,
                    f"{path.status} {raised_name(path)} for {expr}")
                continue
            out, extra = path.value.items
            wants = {**base, **(changed(path, extra) if callable(changed) else changed)}
            judge_fields(report, path, out, wants, where_, expr)
            if isinstance(out, Obj) or not isinstance(out, Term):
                report.ok("a derivation succeeds", where_)

    # styles, one at a time and as methods
    for name in FIELDS:
        value = {"text": "t", "hyperlink": "h", "foreground": "c", "background": "c"}.get(name, "v")
        follow(f"s.mutate({name}={value})", {name: given[value]}, "Span.mutate")
    follow("s.mutate()", {}, "Span.mutate")
    follow("s.mutate(foreground=None)", {"foreground": NONE_V}, "Span.mutate")
    follow("s.mutate(background=None, bold=v, text=t)",
           {"background": NONE_V, "bold": given["v"], "text": given["t"]}, "Span.mutate")
    for style in STYLES[:-1]:
        follow(f"s.as_{style}()", {style: TRUE}, f"Span.as_{style}")
        follow(f"s.as_{style}(v)", {style: given["v"]}, f"Span.as_{style}")
        follow(f"s.as_{style}(value=False)", {style: FALSE}, f"Span.as_{style}")
    follow("s.as_hyperlink(h)", {"hyperlink": given["h"]}, "Span.as_hyperlink")
    follow("s.as_hyperlink('')", {"hyperlink": Const("")}, "Span.as_hyperlink")
    follow("s.as_hyperlink()", {"hyperlink": Const("")}, "Span.as_hyperlink")

    # colours
    layer = App("attr", (given["c"], Const("is_background")), BOOL)

    def colored(path, _):
        back = known_bool(path, layer)
        if back is None:
            return {"foreground": Sym("?", ANY), "background": Sym("?", ANY)}
        return {"background" if back else "foreground": given["c"]}
    follow("s.as_color(c)", colored, "Span.as_color")
    for text, back, rgb in (("'48;5;200'", True, None), ("'38;5;200'", False, None),
                            ("(1, 2, 3)", False, (1, 2, 3)), ("'#010203'", False, (1, 2, 3)),
                            ("'tomato'", False, None), ("'41'", True, None),
                            ("'101'", True, None), ("'48;2;1;2;3'", True, (1, 2, 3)),
                            ("'#01020380'", False, (1, 2, 3)), ("'38;5;200;0.5'", False, None),
                            ("'tomato;0.25'", False, None), ("(1, 2, 3, 0.5)", False, None),
                            ("'48;2;1;2;3;0.5'", True, (1, 2, 3)), ("'41;0.0'", True, None)):
        key = "background" if back else "foreground"
        results = attempt(report, ip, "derivations are followed", "Span.as_color",
                          DRIVER.format(expr=f"s.as_color({text})", other=f"color({text})"), args)
        for path in results:
            if path.status != "return" or not isinstance(path.value, Tup):
                report.judge(firm(path, False) if path.status == "raise" else None,
                             "a derivation succeeds", "Span.as_color", text)
                continue
            out, want = path.value.items
            got = field(out, key)
            wants = {k: w for k, w in base.items() if k != key}
            judge_fields(report, path, out, wants, "Span.as_color", f"as_color({text})")
            alike = None
            if isinstance(got, Obj) and isinstance(want, Obj):
                alike = all(same_value(path, field(got, f), field(want, f)) is True
                            for f in ("rgb", "is_background", "alpha"))
            elif isinstance(got, Term):
                alike = firm(path, False)
            report.judge(alike, "the color described is set on its layer", "Span.as_color",
                         f"{got!r} for {text}")

    # text
    for part in SLICES:
        follow(f"s[{part}]", lambda path, extra: {"text": extra}, "Span.__getitem__",
               other=f"s.text[{part}]")
    follow("Span(s.text)", {**DEFAULTS}, "Span")
    split(report, ip, given)
    known_spans(report)


NAMES = ("text", "foreground", "background", "hyperlink", *STYLES, "reset_after")
HEAD = """
    from slate.color import Color
    from slate.span import Span
    def fields(span):
        return tuple(getattr(span, name) for name in {names!r})
    def many(spans):
        return tuple(fields(span) for span in spans)
"""
FORE, BACK = ((9, 8, 7), False, 1.0), ((1, 2, 3), True, 0.5)
FIRST = {"foreground": "Color((9, 8, 7))", "background": "Color((1, 2, 3), True, 0.5)",
         "hyperlink": "'u v'", "reset_after": "False", **dict.fromkeys(STYLES, "True")}
VALUE = {"foreground": FORE, "background": BACK, "hyperlink": "u v", "reset_after": False,
         **dict.fromkeys(STYLES, True)}


def known_spans(report):
    """Spans with one attribute or all of them set, propagated as constants."""

    plain_ = {"foreground": None, "background": None, "hyperlink": "", "reset_after": True,
              **dict.fromkeys(STYLES, False)}
    rows = []
    for chosen in [(), *((n,) for n in FIRST), tuple(FIRST)]:
        for text in ("ab cd", "", " x"):
            made = f"Span({text!r}" + "".join(f", {n}={FIRST[n]}" for n in chosen) + ")"
            now = {**plain_, **{n: VALUE[n] for n in chosen}, "text": text}

            def want(now=now, **new):
                return tuple({**now, **new}[n] for n in NAMES)
            what = "a derived span differs only in what was asked for"
            for part in ("1:", ":-1", "::-1", "5:", ":", "0:1"):
                sli = slice(*(int(p) if p else None for p in part.split(":")))
                rows.append((what, "Span.__getitem__", f"fields({made}[{part}])",
                             want(text=text[sli])))
            if text:
                rows.append((what, "Span.__getitem__", f"fields({made}[-1])", want(text=text[-1])))
            rows.append((what, "Span.split", f"many({made}.split())", tuple(
                want(text=part) for part in text.split(" "))))
            if text == "ab cd":
                rows.append((what, "Span.split", f"many({made}.split('cd'))", tuple(
                    want(text=part) for part in text.split("cd"))))
                rows.append((what, "Span.mutate", f"fields({made}.mutate())", want()))
                rows += [(what, f"Span.as_{n}", f"fields({made}.as_{n}({val}))",
                          want(**{n: val})) for n in STYLES if n != "opaque"
                         for val in (True, False)]
                rows += [(what, "Span.mutate", f"fields({made}.mutate({n}={FIRST[n]}))",
                          want(**{n: VALUE[n]})) for n in FIRST]
                rows += [(what, "Span.as_hyperlink", f"fields({made}.as_hyperlink({link!r}))",
                          want(hyperlink=link)) for link in ("", "w")]
                rows += [(what, "Span.as_color", f"fields({made}.as_color({FIRST[n]}))",
                          want(**{n: VALUE[n]})) for n in ("foreground", "background")]
    table(report, constant_interp(), HEAD.format(names=NAMES), rows)


def split(report, ip, given):
    """Pieces of texts with known separators and unknown pieces."""

    letters = frozenset("abcdefghijklmnopqrstuvwxyz")
    flags = {f: Sym(f"flag_{f}", BOOL) for f in (*STYLES, "reset_after")}
    fore, back = driver.symbolic(ip, "fore", "Color"), driver.symbolic(ip, "back", "Color")
    for sep, call in ((" ", "split()"), (" ", "split(' ')"), (",", "split(',')"),
                      ("--", "split('--')"), (" ", "split(char=' ')")):
        least = 0 if len(sep) == 1 else 1
        pieces = [Sym(f"piece{i}from{least}", STR, meta=Shape(letters, least, 30))
                  for i in range(3)]
        for count in (1, 2, 3):
            joined = f" + {sep!r} + ".join(f"p{i}" for i in range(count))
            source = f"""
                from slate.span import Span
                def main(p0, p1, p2, f, b, h, {', '.join(flags)}):
                    s = Span({joined}, foreground=f, background=b, hyperlink=h,
                             {', '.join(f'{n}={n}' for n in flags)})
                    return s.{call}
                """
            results = attempt(report, ip, "splits are followed", "Span.split", source,
                              [*pieces, fore, back, given["h"], *flags.values()])
            for path in results:
                if path.status == "backedge":
                    continue
                items = getattr(path.value, "items", None) if path.status == "return" else None
                if items is None:
                    report.judge(firm(path, False) if path.status == "raise" else None,
                                 "a split is followed", "Span.split",
                                 f"{path.status} {path.value!r} for {call}")
                    continue
                report.judge(firm(path, len(items) == count), "every piece of the text is kept",
                             "Span.split", f"{len(items)} pieces of {count} by {call}")
                for got, want in zip(items, pieces):
                    judge_fields(report, path, got, {
                        "text": want, "foreground": fore, "background": back,
                        "hyperlink": given["h"], **flags}, "Span.split", call)
    for text in ("", " ", "a", "a b", "a  b ", " a", "ab,c", "\n a\n"):
        for call, parts in (("split()", text.split(" ")), ("split(',')", text.split(",")),
                            ("split('a')", text.split("a"))):
            results = attempt(report, ip, "splits are followed", "Span.split", f"""
                from slate.span import Span
                def main(v):
                    return [(p.text, p.bold, p.dim) for p in Span({text!r}, bold=v).{call}]
                """, [given["v"]])
            for path in results:
                items = getattr(path.value, "items", None) if path.status == "return" else None
                want = [Tup((Const(p), given["v"], FALSE)) for p in parts]
                report.judge(None if items is None else firm(path, list(items) == want),
                             "constant texts are split at every separator", "Span.split",
                             f"{path.value!r} {items!r} for {text!r}.{call}")
