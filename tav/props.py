"""Which analysis decides which property, on which units, under which assumptions."""
import json
import os
import spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for _l in open(os.path.join(VERIF, "properties.jsonl")):
    _p = json.loads(_l)
    TITLES[_p["id"]] = _p["title"]

BASE = [
    "numpy, pandas and math operations behave as modelled in tav/lib.py (pandas 2.x semantics, exact real arithmetic: "
    "rounding, overflow and the order of floating-point additions are not modelled)",
    "inputs are series of finite numbers of one length with one unique index; low <= close <= high on every bar, prices and "
    "volumes are not negative",
    "window parameters are integers >= 1 (offsets >= 0), multipliers and factors are positive",
]
REFA = ["the reference definitions in tav/ref/refdefs.py state the documented formulas"]


class Prop:
    def __init__(self, pid, fn, units, explain, minimum=1, modes=("short", "long"), assumptions=(), level="other"):
        self.pid, self.fn, self._units, self.explain = pid, fn, units, explain
        self.minimum, self.modes, self.level = minimum, modes, level
        self.assumptions = BASE + list(assumptions)
        self.title = TITLES[pid]

    def units(self, tier):
        return self._units(tier)


def classes(groups=None, pred=None):
    def f(tier):
        out = []
        for c in ORDERED:
            rs = [r for r in spec.RESULTS if r.cls == c]
            if groups is not None:
                rs = [r for r in rs if r.group in groups]
            if pred is not None:
                rs = [r for r in rs if pred(r)]
            if rs:
                out.append(c)
        return out
    return f


# slow classes first
_SLOW = ["PSARIndicator", "ADXIndicator", "KAMAIndicator", "KeltnerChannel", "StochRSIIndicator", "STCIndicator",
         "UltimateOscillator", "KSTIndicator", "IchimokuIndicator", "MFIIndicator", "TSIIndicator"]
ORDERED = _SLOW + [c for c in spec.CLASSES if c not in _SLOW]


def _core(prop):
    def f(unit):
        import check_core
        return check_core.by_core(prop, unit)
    return f


def _c13(unit):
    import check_core
    return check_core.c13(unit)


def _rel(name):
    def f(unit):
        import check_rel
        return getattr(check_rel, name)(unit)
    return f


def _flow(name, prop):
    """classes, functions (fn:NAME), feature functions (add_...) and the cleaning helper (dropna:TABLE)."""
    def f(unit):
        if unit.startswith("fn:"):
            import check_flow
            return check_flow.fn_units(prop, unit[3:])
        if unit.startswith("dropna:"):
            import check_wrap
            return (check_wrap.clean_effects if prop == "C02" else check_wrap.c23)(unit[7:])
        if unit.startswith("add_"):
            import check_wrap
            return getattr(check_wrap, name)(unit)
        import check_flow
        return getattr(check_flow, name)(unit)
    return f


def everything(fns=True, adds=True, clean=False):
    def f(tier):
        out = list(ORDERED)
        if adds:
            out = ADDS + out
        if fns:
            out += ["fn:" + r.fn for r in spec.RESULTS if r.fn]
        if clean:
            out += CLEAN
        return out
    return f


ADDS = ["add_all_ta_features", "add_trend_ta", "add_momentum_ta", "add_volume_ta", "add_volatility_ta", "add_others_ta"]
CLEAN = ["dropna:" + t for t in ("numeric, text and flag columns", "one numeric column", "integer and fractional columns",
                                 "text only")]


VG = ("Abstract interpretation of the current source lowers each result to a value graph: a decision diagram over input "
      "cells, windows, recurrences and symbolic parameters, for a symbolic history length and row. ")
EQV = VG + ("The graph is compared with that of the reference definition under all feasible guards (row arithmetic and linear "
            "inequalities); a difference is reported only when it is confirmed by random interpretation of both graphs. ")

PROPS = {}


def prop(pid, fn, units, explain, **kw):
    PROPS[pid] = Prop(pid, fn, units, explain, **kw)


prop("C01", _rel("c01"), classes(),
     VG + "Self-composition: the graph for N rows is compared with the graph for N+M rows on every row below N, for all pairs of "
     "regions of the parameter space, so nothing published changes when bars are appended.", minimum=180)
EFF = ("Effect analysis: abstract interpretation of the current source keeps storage ownership, labels, shared objects and every "
       "event (write, raise, label access, loop) with the condition under which it is reached. ")
prop("C02", _flow("c02", "C02"), everything(clean=True),
     EFF + "Every write must go to storage that the call itself created; inputs and their labels and names must be the same objects "
     "afterwards; no result may share storage with an input.", minimum=370)
prop("C03", _flow("c03", "C03"), everything(),
     EFF + "The value graph of each result must be the same when read first, again, and after every other result; sources of "
     "nondeterminism must not reach it; if anything shared between objects is written, a second object is analysed after a first one "
     "with other data or parameters and must give the same graph.", minimum=560)
prop("C05", _flow("c05", "C05"), everything(),
     EFF + "Labels are an opaque token: any access, alignment, ordering or result that depends on it is reported.", minimum=370)
prop("C06", _flow("c06", "C06"), lambda tier: [r.fn for r in spec.RESULTS if r.fn],
     VG + "The function's graph is compared with the graph of the class method for the same symbolic arguments, and with all arguments "
     "left out.", minimum=390)
prop("C07", _flow("c07", "C07"), lambda tier: ADDS,
     VG + "The feature functions are lowered on a table with marker column names and a symbolic prefix; every column's graph must be "
     "the graph of the documented class and parameters over the caller's columns.", minimum=1300)
prop("C08", _flow("c08", "C08"), lambda tier: ADDS,
     EFF + "The column set after the call is compared with the documented one for a symbolic prefix.", minimum=140)
prop("C09", _flow("c09", "C09"), lambda tier: ADDS,
     EFF + "Every row loop and every Python callback per row or window in the call graph below the vectorized mode is an event that "
     "must not be reached.", minimum=20)
prop("C16", _flow("c16", "C16"), everything(),
     EFF + "Every operation that can raise leaves an obligation over the history length, the windows and the guards, which must hold.",
     minimum=370)
prop("C23", _flow("c23", "C23"), lambda tier: CLEAN,
     VG + "The condition under which a row is kept is compared with the documented one, and kept rows with the original ones.",
     minimum=8)
prop("C25", _flow("c25", "C25"), everything(),
     EFF + "Loops over rows are detected with their nesting; no pass over rows may lie inside another.", minimum=370)
prop("C04", _core("C04"), classes(),
     EQV + "Here the rows that the unfilled definition leaves missing or infinite are compared with the documented filling.",
     minimum=196, assumptions=REFA)
prop("C10", _rel("c10"), classes(),
     VG + "Unit inference assigns price and volume exponents to every term; sums, comparisons, windows and running values must "
     "be homogeneous and the result must have its documented unit.", minimum=84)
prop("C11", _rel("c11"), classes(pred=lambda r: r.shift is not None),
     VG + "Offset analysis expands every term in powers of an offset added to all prices; comparisons must be free of it and the "
     "result must move by exactly its documented multiple.", minimum=60)
prop("C12", _rel("c12"), classes(pred=lambda r: r.rng != (None, None) or any(r.cls == o[0] for o in spec.ORDER) or
                                 r.cls == "VolumeWeightedAveragePrice"),
     EQV + "Ranges of the definitions follow from guards and bar order by linear arithmetic, or from a stated lemma.",
     minimum=60, assumptions=REFA)
prop("C13", _c13, classes(),
     EQV + "Equality gives the same inputs and parameters; differing graphs are examined for parameters or columns that lost, "
     "gained or exchanged their influence.", minimum=196, assumptions=REFA)
prop("C14", _core("C14"), classes(),
     EQV + "Here the set of defined rows and the documented warm-up values are compared.", minimum=84, assumptions=REFA)
prop("C15", _core("C15"), classes(),
     EQV + "Here the branches taken when a denominator or range vanishes are compared.", minimum=196, assumptions=REFA)
for _g, _n in (("C17", 36), ("C18", 62), ("C19", 56), ("C20", 26), ("C21", 6), ("C22", 10)):
    prop(_g, _core(_g), classes(groups=(_g,)), EQV + "Here every row with a defined value is compared.", minimum=_n,
         assumptions=REFA)


def analyse(pid, unit):
    return PROPS[pid].fn(unit)
