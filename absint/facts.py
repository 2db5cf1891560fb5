"""Path facts: decided atoms, plus a linear-inequality domain and intervals.

No external solver: entailment is decided by canonical lookup, interval evaluation and a
bounded Fourier-Motzkin closure over the (few) linear facts of one path.
"""

from __future__ import annotations

from fractions import Fraction
import math

from . import strings
from .terms import (ANY, App, Bi, BOOL, Cat, Cmp, Const, EnumM, FLOAT, INT, Lin, Obj, STR,
                    Sym, Term, Tup, ty_of, ty_parts)

INF = float("inf")


def frac(val):
    if isinstance(val, bool):
        return Fraction(int(val))
    if isinstance(val, (int, Fraction)):
        return Fraction(val)
    return Fraction(val)  # exact value of the float


def lin_of(val):
    """(const, {term: coef}) view of a numeric value."""

    if isinstance(val, Const) and isinstance(val.val, (int, float, bool)):
        if isinstance(val.val, float) and not math.isfinite(val.val):
            return None
        return frac(val.val), {}
    if isinstance(val, Lin):
        return val.const, dict(val.coefs)
    if isinstance(val, (Sym, App, Bi)):
        return Fraction(0), {val: Fraction(1)}
    return None


def is_int_term(term):
    return ty_of(term) in (INT, BOOL)


def mk_lin(const, coefs, ty=None):
    coefs = {t: c for t, c in coefs.items() if c != 0}
    if not coefs:
        if ty == FLOAT:
            return Const(float(const))
        return Const(const.numerator if const.denominator == 1 else float(const))
    if const == 0 and len(coefs) == 1:
        (term, coef), = coefs.items()
        if coef == 1 and (ty is None or ty_of(term) == ty):
            return term
    if ty is None:
        ty = INT if (all(is_int_term(t) for t in coefs)
                     and all(c.denominator == 1 for c in coefs.values())
                     and const.denominator == 1) else FLOAT
    return Lin(const, coefs, ty)


_SIGS = {}  # (state, what was added) -> state number
_MEMO = {}  # (state, atom) -> entailed?


# operations whose result is tied to their argument by linear bounds
DEFINED = ("floordiv", "mod", "int", "trunc", "round", "floor", "ceil", "abs")


def linked(term):
    view = lin_of(term.args[0]) if term.args and isinstance(term.args[0], Term) else None
    return set(view[1]) if view is not None else set()


class Ranges(dict):
    """Interval facts; adding one changes the state of the facts they belong to."""

    def __init__(self, facts, *args):
        super().__init__(*args)
        self.facts = facts

    def __setitem__(self, key, val):
        if self.get(key) != val:
            self.facts.bump(("range", key, val))
        super().__setitem__(key, val)


class Facts:
    def __init__(self, epoch=0):
        self.sig = ("start", epoch)  # names this state: equal for equal histories
        self.known = {}  # atom -> bool
        self.order = []  # (atom, bool) in the order assumed
        self.lin = []  # list of (const, coefs, strict): const + sum <=/< 0
        self.diseq = []  # list of (const, coefs) != 0
        self.eqconst = {}  # term -> Const
        self.edged = set()  # terms of which a prefix or suffix was tested
        self.ranges = Ranges(self)  # term -> (lo, hi) extra interval facts

    def bump(self, what):
        key = (self.sig, what)
        if key not in _SIGS:
            _SIGS[key] = len(_SIGS)
        self.sig = _SIGS[key]

    # -- canonical atoms -----------------------------------------------------------------

    @staticmethod
    def lin_atom(left, right, strict):
        """left <= right (or <) as ('le'/'lt', Lin) with Lin = left - right."""

        one, two = lin_of(left), lin_of(right)
        if one is None or two is None:
            return ("p", "lt" if strict else "le", left, right)
        const = one[0] - two[0]
        coefs = dict(one[1])
        for term, coef in two[1].items():
            coefs[term] = coefs.get(term, Fraction(0)) - coef
        coefs = {t: c for t, c in coefs.items() if c != 0}
        if not coefs:
            return bool(const < 0 if strict else const <= 0)
        # scale so that the first coefficient (by repr) is +-1
        ints = all(is_int_term(t) for t in coefs)
        if ints and all(c.denominator == 1 for c in coefs.values()):
            if const.denominator == 1:
                if strict:
                    const, strict = const + 1, False
            else:  # integers compared with a fraction
                const, strict = Fraction(math.ceil(const)), False
        return ("lt" if strict else "le", mk_lin(const, coefs))

    @staticmethod
    def neg_lin(atom):
        kind, lin = atom
        const, coefs = lin_of(lin)
        neg = {t: -c for t, c in coefs.items()}
        if kind == "lt":
            return ("le", mk_lin(-const, neg))
        if all(is_int_term(t) for t in coefs) and const.denominator == 1 and all(
            c.denominator == 1 for c in coefs.values()
        ):
            return ("le", mk_lin(-const + 1, neg))
        return ("lt", mk_lin(-const, neg))

    # -- intervals -----------------------------------------------------------------------

    def interval(self, val, depth=0):
        """A sound (lo, hi) for a numeric value."""

        if isinstance(val, Const):
            if isinstance(val.val, (int, float, bool)):
                return float(val.val), float(val.val)
            return -INF, INF
        if isinstance(val, Cmp):
            return 0.0, 1.0
        lo, hi = -INF, INF
        if isinstance(val, Sym):
            lo = -INF if val.lo is None else val.lo
            hi = INF if val.hi is None else val.hi
            if val.ty == BOOL:
                lo, hi = max(lo, 0.0), min(hi, 1.0)
        elif isinstance(val, Lin):
            lo = hi = float(val.const)
            for term, coef in val.coefs.items():
                tlo, thi = self.interval(term, depth + 1)
                coef = float(coef)
                if coef > 0:
                    lo, hi = lo + coef * tlo, hi + coef * thi
                else:
                    lo, hi = lo + coef * thi, hi + coef * tlo
        elif isinstance(val, App):
            lo, hi = self.app_interval(val, depth)
        if val in self.ranges:
            lo, hi = max(lo, self.ranges[val][0]), min(hi, self.ranges[val][1])
        if depth < 6:
            lo, hi = self.refine(val, lo, hi)
        return lo, hi

    def refine(self, val, lo, hi):
        """Tighten with single-variable linear facts about `val`."""

        view = lin_of(val)
        if view is None:
            return lo, hi
        vconst, vcoefs = view
        for const, coefs, _ in self.lin:
            if len(coefs) != len(vcoefs) or not coefs:
                continue
            term = next(iter(vcoefs))
            if term not in coefs:
                continue
            ratio = coefs[term] / vcoefs[term]
            if any(coefs.get(t) != c * ratio for t, c in vcoefs.items()):
                continue
            # ratio*(val - vconst) + const <= 0
            bound = float(vconst - const / ratio)
            if ratio > 0:
                hi = min(hi, bound)
            else:
                lo = max(lo, bound)
        return lo, hi

    def app_interval(self, val, depth):
        args = val.args
        if val.op in ("len", "str.count", "str.find+1", "trip"):
            return 0.0, INF
        if val.op == "clamp0":
            lo, hi = self.interval(args[0], depth + 1)
            return max(lo, 0.0), max(hi, 0.0)
        ivs = [self.interval(a, depth + 1) if not isinstance(a, (str,)) else None
               for a in args]
        if val.op == "min" and ivs:
            return min(i[0] for i in ivs), min(i[1] for i in ivs)
        if val.op == "max" and ivs:
            return max(i[0] for i in ivs), max(i[1] for i in ivs)
        if val.op in ("int", "trunc"):
            lo, hi = ivs[0]
            if len(ivs) == 1:
                return _trunc(lo), _trunc(hi)
            return -INF, INF
        if val.op == "round":
            lo, hi = ivs[0]
            if len(args) == 1:
                return _round(lo), _round(hi)
            return lo - 0.5, hi + 0.5
        if val.op == "floor":
            lo, hi = ivs[0]
            return (math.floor(lo) if math.isfinite(lo) else lo,
                    math.floor(hi) if math.isfinite(hi) else hi)
        if val.op == "ceil":
            lo, hi = ivs[0]
            return (math.ceil(lo) if math.isfinite(lo) else lo,
                    math.ceil(hi) if math.isfinite(hi) else hi)
        if val.op == "abs":
            lo, hi = ivs[0]
            if lo >= 0:
                return lo, hi
            return 0.0, max(-lo, hi)
        if val.op == "float":
            return ivs[0]
        if val.op == "mul":
            return _mul(ivs[0], ivs[1])
        if val.op == "div":
            if ivs[1][0] > 0 or ivs[1][1] < 0:
                return _mul(ivs[0], (1 / ivs[1][1], 1 / ivs[1][0]))
            return -INF, INF
        if val.op == "floordiv":
            if ivs[1][0] > 0:
                lo, hi = _mul(ivs[0], (1 / ivs[1][1], 1 / ivs[1][0]))
                return (math.floor(lo) if math.isfinite(lo) else lo,
                        math.floor(hi) if math.isfinite(hi) else hi)
            return -INF, INF
        if val.op == "mod":
            if ivs[1][0] > 0:
                whole = ty_of(val) == INT and ivs[1][1] < INF
                return 0.0, ivs[1][1] - 1 if whole else ivs[1][1]
            return -INF, INF
        if val.op == "pow":
            (lo, hi), (elo, ehi) = ivs
            if elo == ehi and lo >= 0:
                try:
                    ends = [lo ** elo if lo or elo > 0 else INF,
                            hi ** elo if math.isfinite(hi) else INF]
                    return min(ends), max(ends)
                except OverflowError:
                    return 0.0, INF
            if elo == ehi and elo == 2:
                ends = [lo * lo, hi * hi]
                return (0.0 if lo <= 0 <= hi else min(ends)), max(ends)
            return -INF, INF
        if val.op == "sqrt":
            lo, hi = ivs[0]
            return math.sqrt(max(lo, 0)), math.sqrt(hi) if math.isfinite(hi) else INF
        if val.op == "int16" and isinstance(args[0], Term):
            # int(text, base=16)
            width = fixed_len_max(args[0])
            if width is not None:
                return float(-(16 ** max(width - 1, 0) - 1)), float(16 ** width - 1)
            return -INF, INF
        if val.op == "hls_to_rgb_channel":
            return -1e-9, 1.0 + 1e-9
        if val.op == "argmin":
            lo, hi = ivs[0][0], ivs[-1][1]
            return lo, hi
        return -INF, INF

    # -- linear entailment ---------------------------------------------------------------

    def lin_implied(self, atom):
        """True if the facts entail the ('le'|'lt', Lin) atom."""

        memo = (self.sig, atom)
        if memo not in _MEMO:
            _MEMO[memo] = self._lin_implied(atom)
        return _MEMO[memo]

    def _lin_implied(self, atom):
        kind, lin = atom
        _, hi = self.interval(lin)
        if hi < 0 or (hi <= 0 and kind == "le"):
            return True
        neg = self.neg_lin(atom)
        const, coefs = lin_of(neg[1])
        return self._unsat([(const, coefs, neg[0] == "lt")])

    def definition(self, var):
        """What rounding operations say about their argument."""

        view = lin_of(var.args[0]) if isinstance(var.args[0], Term) else None
        if view is None:
            return []
        const, coefs = view

        def between(scale, low, high, strict_low=False, strict_high=False, target=var):
            # low <= arg - scale * target <= high
            diff = dict(coefs)
            diff[target] = diff.get(target, Fraction(0)) - scale
            neg = {t: -c for t, c in diff.items()}
            return [(low - const, neg, strict_low), (const - high, diff, strict_high)]

        if var.op in ("floordiv", "mod"):
            div = var.args[1]
            if len(var.args) != 2 or not isinstance(div, Const) or type(
                    div.val) not in (int, float) or div.val <= 0:
                return []
            size = frac(div.val)
            ints = type(div.val) is int and is_int_term(var.args[0])
            top = size - 1 if ints else size
            if var.op == "floordiv":
                return between(size, Fraction(0), top, strict_high=not ints)
            quot = App("floordiv", var.args, var.ty)
            out = []
            diff = dict(coefs)
            diff[quot] = diff.get(quot, Fraction(0)) - size
            diff[var] = diff.get(var, Fraction(0)) - 1
            out.append((const, diff, False))
            out.append((-const, {t: -c for t, c in diff.items()}, False))
            out.append((Fraction(0), {var: Fraction(-1)}, False))
            out.append((-top, {var: Fraction(1)}, not ints))
            return out
        if len(var.args) != 1:
            return []
        if var.op in ("int", "trunc"):
            if ty_of(var.args[0]) not in (INT, FLOAT):
                return []
            lo, hi = self.interval(var.args[0], depth=7)
            low = Fraction(0) if lo >= 0 else Fraction(-1)
            high = Fraction(0) if hi <= 0 else Fraction(1)
            return between(Fraction(1), low, high, lo < 0, hi > 0)
        if var.op == "round":
            return between(Fraction(1), Fraction(-1, 2), Fraction(1, 2))
        if var.op == "floor":
            return between(Fraction(1), Fraction(0), Fraction(1), strict_high=True)
        if var.op == "ceil":
            return between(Fraction(1), Fraction(-1), Fraction(0), strict_low=True)
        if var.op == "abs":
            return [(const, {**coefs, var: coefs.get(var, Fraction(0)) - 1}, False),
                    (-const, {**{t: -c for t, c in coefs.items()}, var: Fraction(-1)}, False)]
        return []

    def _unsat(self, extra, split=True):
        cons = list(extra)
        # relevant facts only (connected variables)
        vars_ = set()
        for _, coefs, _ in cons:
            vars_ |= set(coefs)
        pool = list(self.lin)
        changed = True
        expanded = set()
        while changed:
            changed = False
            for var in [v for v in vars_ if isinstance(v, App) and v.op in DEFINED
                        and v not in expanded]:
                expanded.add(var)
                for item in self.definition(var):
                    cons.append(item)
                    vars_ |= set(item[1])
                changed = True
            for var in [v for v in vars_ if isinstance(v, App) and v.op in ("min", "max")
                        and v not in expanded]:
                # min(a, b) is at most a and b, max(a, b) at least
                expanded.add(var)
                for arg in var.args:
                    view = lin_of(arg) if isinstance(arg, Term) else None
                    if view is None:
                        continue
                    sign = Fraction(1) if var.op == "min" else Fraction(-1)
                    coefs = {t: -sign * c for t, c in view[1].items()}
                    coefs[var] = coefs.get(var, Fraction(0)) + sign
                    cons.append((-sign * view[0], coefs, False))
                    vars_ |= set(coefs)
                changed = True
            for item in list(pool):
                if set(item[1]) & vars_ or any(
                        isinstance(t, App) and t.op in DEFINED and linked(t) & vars_
                        for t in item[1]):
                    cons.append(item)
                    pool.remove(item)
                    vars_ |= set(item[1])
                    changed = True
        for var in vars_:
            lo, hi = self.interval(var, depth=7)
            if lo > -INF:
                cons.append((frac(lo), {var: Fraction(-1)}, False))
            if hi < INF:
                cons.append((-frac(hi), {var: Fraction(1)}, False))
        if _fm_unsat(cons):
            return True
        if split:
            for const, coefs in self.diseq:
                if not set(coefs) <= vars_:
                    continue
                ints = all(is_int_term(t) for t in coefs)
                step = Fraction(1) if ints else Fraction(0)
                low = (const + step, coefs, not ints)  # L <= -1 / L < 0
                high = (-const + step, {t: -c for t, c in coefs.items()}, not ints)
                if _fm_unsat(cons + [low]) and _fm_unsat(cons + [high]):
                    return True
        return False

    # -- general entailment --------------------------------------------------------------

    def resolve(self, val):
        return self.eqconst.get(val, val) if isinstance(val, Term) else val

    def implied(self, atom):
        """True / False / None."""

        if isinstance(atom, bool):
            return atom
        if atom in self.known:
            return self.known[atom]
        kind = atom[0]
        if kind in ("le", "lt"):
            if self.lin_implied(atom):
                return True
            if self.lin_implied(self.neg_lin(atom)):
                return False
            return None
        if kind == "isnone":
            val = atom[1]
            if val in self.eqconst:
                return self.eqconst[val].val is None
            typ = ty_of(val)
            parts = ty_parts(typ)
            if ("none",) not in parts and ("any",) not in parts:
                return False
            if parts == (("none",),):
                return True
            if self.known.get(("truthy", val)) is True:
                return False
            for known, pol in self.known.items():
                if known[0] == "isinst" and known[1] == val and pol:
                    return False
            return None
        if kind == "eq":
            return self.eq_implied(atom[1], atom[2])
        if kind == "truthy":
            val = atom[1]
            if val in self.eqconst:
                return bool(self.eqconst[val].val)
            if self.known.get(("isnone", val)) is True:
                return False
            return None
        if kind == "isinst":
            val = atom[1]
            if self.known.get(("isnone", val)) is True:
                return False
            return None
        return None

    def eq_implied(self, left, right):
        if left is right:
            return True
        if isinstance(left, Term) and isinstance(right, Term) and left == right:
            return True
        for atom in (("eq", left, right), ("eq", right, left)):
            if self.known.get(atom) is not None:
                return self.known[atom]
        left, right = self.resolve(left), self.resolve(right)
        if isinstance(left, Const) and isinstance(right, Const):
            return left.val == right.val
        if isinstance(left, EnumM) and isinstance(right, EnumM):
            return left == right
        for one, two in ((left, right), (right, left)):
            if isinstance(one, Const) and isinstance(one.val, str):
                if isinstance(two, Cat) and not cat_may_equal(two, one.val):
                    return False
                if isinstance(two, Term) and strings.structured(two) \
                        and not strings.may_equal(two, one.val, self):
                    return False
                if isinstance(two, Term) and two in self.edged:
                    for atom, known in self.known.items():
                        if atom[0] == "p" and atom[1] in ("startswith", "endswith") \
                                and atom[2] == two and isinstance(atom[3], Const) \
                                and getattr(one.val, atom[1])(atom[3].val) != known:
                            return False
                if isinstance(two, (Lin,)):
                    return False
                if ty_of(two) in (INT, FLOAT, BOOL):
                    return False
            if isinstance(one, Const) and one.val is None:
                typ = ty_parts(ty_of(two))
                if ("none",) not in typ and ("any",) not in typ:
                    return False
                if self.known.get(("isnone", two)) is not None:
                    return self.known[("isnone", two)]
        lv, rv = lin_of(left), lin_of(right)
        if lv is not None and rv is not None and _numericish(left) and _numericish(right):
            atom = self.lin_atom(left, right, False)
            back = self.lin_atom(right, left, False)
            one = atom if isinstance(atom, bool) else self.lin_implied(atom)
            two = back if isinstance(back, bool) else self.lin_implied(back)
            if one is True and two is True:
                return True
            for strict_l, strict_r in ((left, right), (right, left)):
                satom = self.lin_atom(strict_l, strict_r, True)
                if satom is True or (not isinstance(satom, bool)
                                     and self.lin_implied(satom)):
                    return False
            const = lv[0] - rv[0]
            coefs = dict(lv[1])
            for term, coef in rv[1].items():
                coefs[term] = coefs.get(term, Fraction(0)) - coef
            coefs = {t: c for t, c in coefs.items() if c}
            for dconst, dcoefs in self.diseq:
                if (dconst, dcoefs) == (const, coefs) or (
                    dconst == -const and dcoefs == {t: -c for t, c in coefs.items()}
                ):
                    return False
        if isinstance(left, Cat) and isinstance(right, Cat):
            common = strip_common(left, right)
            if common is False:
                return False
        return None

    def assume(self, atom, val):
        if isinstance(atom, bool):
            return
        self.known[atom] = val
        self.order.append((atom, val))
        self.bump((atom, val))
        kind = atom[0]
        if kind == "p" and atom[1] in ("startswith", "endswith"):
            self.edged.add(atom[2])
        if kind in ("le", "lt"):
            use = atom if val else self.neg_lin(atom)
            const, coefs = lin_of(use[1])
            self.lin.append((const, coefs, use[0] == "lt"))
        elif kind == "eq":
            left, right = atom[1], atom[2]
            for one, two in ((left, right), (right, left)):
                if val and isinstance(two, Const) and isinstance(one, Term) \
                        and not isinstance(one, Const):
                    self.eqconst[one] = two
                    if two == Const("") and isinstance(one, Cat):
                        for part in one.parts:
                            if isinstance(part, Term) and self.eq_implied(part, two) is None:
                                self.assume(("eq",) + tuple(sorted((part, two), key=repr)), True)
            lv, rv = lin_of(left), lin_of(right)
            if lv is not None and rv is not None and _numericish(left) \
                    and _numericish(right):
                const = lv[0] - rv[0]
                coefs = dict(lv[1])
                for term, coef in rv[1].items():
                    coefs[term] = coefs.get(term, Fraction(0)) - coef
                coefs = {t: c for t, c in coefs.items() if c}
                if coefs:
                    if val:
                        self.lin.append((const, coefs, False))
                        self.lin.append(
                            (-const, {t: -c for t, c in coefs.items()}, False))
                    else:
                        self.diseq.append((const, coefs))


def _numericish(val):
    typ = ty_of(val)
    return typ in (INT, FLOAT, BOOL, ANY) or typ[0] == "union"


def _trunc(val):
    return float(math.trunc(val)) if math.isfinite(val) else val


def _round(val):
    return float(round(val)) if math.isfinite(val) else val


def _mul(one, two):
    prods = []
    for a in one:
        for b in two:
            if (a == 0 and not math.isfinite(b)) or (b == 0 and not math.isfinite(a)):
                prods.append(0.0)
            else:
                prods.append(a * b)
    return min(prods), max(prods)


def _fm_unsat(cons, limit=400):
    """Fourier-Motzkin: True if the conjunction of const+sum(coef*t) <=/< 0 is empty."""

    work = []
    for const, coefs, strict in cons:
        coefs = {t: c for t, c in coefs.items() if c}
        if not coefs:
            if const > 0 or (strict and const >= 0):
                return True
            continue
        work.append((const, coefs, strict))
    while True:
        vars_ = {}
        for _, coefs, _ in work:
            for term, coef in coefs.items():
                pos, neg = vars_.get(term, (0, 0))
                vars_[term] = (pos + (coef > 0), neg + (coef < 0))
        if not vars_:
            return False
        var = min(vars_, key=lambda t: vars_[t][0] * vars_[t][1])
        pos = [c for c in work if c[1].get(var, 0) > 0]
        neg = [c for c in work if c[1].get(var, 0) < 0]
        rest = [c for c in work if var not in c[1]]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        seen = set()
        for pc, pcoefs, pstrict in pos:
            for nc, ncoefs, nstrict in neg:
                pa, na = pcoefs[var], -ncoefs[var]
                const = pc * na + nc * pa
                coefs = {}
                for term, coef in pcoefs.items():
                    coefs[term] = coefs.get(term, 0) + coef * na
                for term, coef in ncoefs.items():
                    coefs[term] = coefs.get(term, 0) + coef * pa
                coefs = {t: c for t, c in coefs.items() if c and t is not var and t != var}
                strict = pstrict or nstrict
                if not coefs:
                    if const > 0 or (strict and const >= 0):
                        return True
                    continue
                scale = max(abs(c) for c in coefs.values())
                const, coefs = const / scale, {t: c / scale for t, c in coefs.items()}
                key = (const, frozenset(coefs.items()), strict)
                if key not in seen:
                    seen.add(key)
                    rest.append((const, coefs, strict))
        work = rest


def fixed_len(term):
    """Exact length of a string value, if it is known."""

    if isinstance(term, Const) and isinstance(term.val, str):
        return len(term.val)
    if isinstance(term, Cat):
        total = 0
        for part in term.parts:
            length = fixed_len(part)
            if length is None:
                return None
            total += length
        return total
    if isinstance(term, App) and term.op == "fmt" and term.args[1] in (
            Const("02X"), Const("02x")):
        return 2  # only claimed for values in 0..255 (checked where it matters)
    if isinstance(term, App) and term.op == "str.slice":
        _, lo, hi = term.args[:3]
        if isinstance(lo, Const) and isinstance(hi, Const) and isinstance(hi.val, int):
            low = lo.val or 0
            if isinstance(low, int) and low >= 0 and hi.val >= low:
                return None  # may be shorter than requested
    return None


def fixed_len_max(term):
    length = fixed_len(term)
    if length is not None:
        return length
    if isinstance(term, App) and term.op == "str.slice":
        _, lo, hi = term.args[:3]
        if isinstance(lo, Const) and isinstance(hi, Const) and isinstance(hi.val, int):
            low = lo.val or 0
            if isinstance(low, int) and low >= 0 and hi.val >= low:
                return hi.val - low
    return None


def cat_may_equal(cat, text):
    """Could the concatenation equal the literal?"""

    parts = cat.parts
    if isinstance(parts[0], Const) and not text.startswith(parts[0].val):
        return False
    if isinstance(parts[-1], Const) and not text.endswith(parts[-1].val):
        return False
    pos = 0
    total = 0
    for part in parts:
        if isinstance(part, Const):
            total += len(part.val)
            found = text.find(part.val, pos)
            if found < 0:
                return False
            pos = found + len(part.val)
    return total <= len(text)


def strip_common(left, right):
    """False when two concatenations differ in a leading or trailing literal."""

    one, two = left.parts, right.parts
    if isinstance(one[0], Const) and isinstance(two[0], Const):
        a, b = one[0].val, two[0].val
        if not (a.startswith(b) or b.startswith(a)):
            return False
    if isinstance(one[-1], Const) and isinstance(two[-1], Const):
        a, b = one[-1].val, two[-1].val
        if not (a.endswith(b) or b.endswith(a)):
            return False
    return None
