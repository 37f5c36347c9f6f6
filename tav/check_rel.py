"""Relational properties of value graphs: prefix invariance (C01), unit scaling (C10), translation (C11), ranges (C12)."""
import itertools
import core
import lower
import spec
import oracle as O
import expr as X
import evalg as G
import domain as D
from fractions import Fraction as F
from poly import Poly, Rat, ATOMS, ZERO
from expr import NAN, INF, NotUnderstood
from core import SOFT
from report import rec, OK, VIOLATION, UNDECIDED
from check_core import results, configs, label


# ------------------------------------------------------------------ C01
M = X.sym("M", "int", 0)
LONGER = {X.N.id: Poly.atom(X.N) + Poly.atom(M)}


def has_atom(e, pred, seen=None):
    seen = set() if seen is None else seen

    def expr(x):
        if ("e", x.id) in seen:
            return False
        seen.add(("e", x.id))
        if x.leaf:
            return rat(x.v)
        p = x.pred
        r = poly(p.p) if p.kind in ("row", "sign") else (atom(p.p) if p.kind == "bool" else rat(p.p))
        return r or any(expr(k) for k in x.kids)

    def rat(v):
        return isinstance(v, Rat) and (poly(v.n) or poly(v.d))

    def poly(p):
        return any(atom(ATOMS[i]) for i in p.atoms())

    def atom(a):
        if ("a", a.id) in seen:
            return False
        seen.add(("a", a.id))
        if pred(a):
            return True
        k = a.kind
        if k == "in":
            return poly(a.a[1])
        if k == "agg":
            return expr(a.a[1]) or poly(a.a[2]) or poly(a.a[3])
        if k == "rec":
            s = a.a[0]
            return poly(s.start) or poly(a.a[2]) or any(expr(x) for x in s.inits + s.updates)
        if k == "fill":
            return expr(a.a[1]) or poly(a.a[2])
        if k == "fn":
            return any(rat(x) for x in a.a[1:])
        return False
    return expr(e)


def backward(a):
    """mentions rows after the current one without naming them."""
    return a.kind == "fill" and a.a[0] == "bfill"


def impossible(facts):
    return any(D.decide_rows(p, tuple(q for q in facts if q is not p)) is False for p in facts)


def prefix_proof(cases, which="value"):
    """(number of obligations, first failure or None): value on N rows = value on N+M rows, for every row below N."""
    n = 0
    for a in cases:
        if a.error:
            return n, a.error
    for a in cases:
        ea = getattr(a, which)
        if has_atom(ea, lambda x: x.kind == "opq"):
            return n, "unknown value"
        if has_atom(ea, backward):
            return n, "filled from later rows"
        for b in cases:
            eb = getattr(b, which)
            f = tuple(a.facts) + tuple(X.subst_poly_scalar(p, LONGER) for p in b.facts)
            if impossible(f):
                continue
            n += 1
            rows = f + (a.res.length - 1 - X.TP,)
            if impossible(rows):
                continue
            ds = D.diffs(ea, X.subst(eb, LONGER), rows, limit=1)
            if ds:
                return n, "differs where " + ds[0].where()[:300]
    return n, None


def prefix_witness(r, o, fill, cases, tries=36):
    """a history and a row whose value changes when bars are appended."""
    near = fill and r.fill == spec.NEAR
    kinds = core.kinds_of(r.cls)
    usual = ((O.data(kinds, o, k), None) for k in range(tries))
    for d, big in itertools.chain(usual, core.long_histories(kinds, o, [c.value for c in cases if c.value is not None])):
        full = d.env()
        cf = O.pick(cases, full)
        if cf is None or cf.error:
            continue
        try:
            nf = int(G.pv(cf.res.length, full, {}))
        except SOFT:
            continue
        at = range(nf) if big is None else sorted(set(range(nf)) & (set(range(8)) | set(range(big - 4, big + 8))))
        vf = dict(zip(at, core.eval_rows(cf.value, full, at)))
        raw = None
        if near:
            rc = lower.ref(r.cls, r.acc, fill, o)
            er = d.env()
            s = O.pick(rc, er)
            raw = core.eval_rows(s.raw, er, range(nf)) if s and not s.error else None
        cuts = sorted(set([1, 2, 3, d.n // 2, d.n - 1] + list(range(4, d.n, 3)))) if big is None else [8, big // 2, big, d.n - 1]
        for m in cuts:
            if not 0 < m < d.n:
                continue
            cells = {c: v[:m] for c, v in d.cells.items()}
            env = d.env(n=m, cells=cells)
            try:
                cp = O.pick(cases, env)
                if cp is None or cp.error:
                    continue
                mp = int(G.pv(cp.res.length, env, {}))
            except SOFT:
                continue
            rows = [t for t in at if t < min(mp, m)]
            vp = dict(zip(rows, core.eval_rows(cp.value, env, rows)))
            first = 0
            if near:
                if raw is None:
                    continue
                first = next((i for i, x in enumerate(raw) if x is None or not O.undef(x)), len(raw))
            for t in rows:
                if t < first or t >= nf:
                    continue
                if vp[t] is None or vf[t] is None:
                    continue
                if not O.same(vp[t], vf[t]) and not (not fill and O.undef(vp[t]) and O.undef(vf[t])):
                    return "%s: with %d bars it is %s, with %d bars %s" % (d.show(t), m, O.show(vp[t]), d.n, O.show(vf[t]))
    return None


def c01(cls):
    out = []
    rule = "value of every row is the same on every longer history"
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            try:
                cases = lower.code(cls, r.acc, fill, o)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            n, why = 0, None
            try:
                # a documented filling of a prefix-invariant result is prefix-invariant (from its first defined row on)
                c = core.compare(cls, r.acc, True, o) if fill and r.fill != spec.NOFILL else None
                if c is not None and c.status == "equal":
                    n, why = prefix_proof(lower.ref(cls, r.acc, True, o), "raw")
                    n += c.obligations
                elif fill and r.fill == spec.NEAR:
                    why = "; ".join(c.reasons[:2]) or "not the documented filling"
                else:
                    n, why = prefix_proof(cases)
            except SOFT as ex:
                why = "%s %s" % (type(ex).__name__, ex)
            if why is None and core.THOROUGH:
                w = prefix_witness(r, o, fill, cases, 48)
                if w:
                    out.append(rec(VIOLATION, rule, con, where, w, steps=["proved, but the values differ"]))
                    continue
            if why is None:
                out.append(rec(OK, rule, con, where, n=n, what="%d pair(s) of regions" % n))
                continue
            try:
                w = prefix_witness(r, o, fill, cases)
            except SOFT as ex:
                w, why = None, why + "; %s" % ex
            if w:
                out.append(rec(VIOLATION, rule, con, where, w, steps=[why]))
            else:
                out.append(rec(UNDECIDED, rule, con, where, why))
    return out


# ------------------------------------------------------------------ C10
def graphs(r, o, fill):
    """the code's cases, and the cases to reason on: the definition's when they were proved equal."""
    code = lower.code(r.cls, r.acc, fill, o)
    c = core.compare(r.cls, r.acc, fill, o)
    if c.status == "equal":
        return code, lower.ref(r.cls, r.acc, fill, o), c.obligations
    return code, code, 0


def off(r):
    for o, fill in configs(r):
        if not fill:
            yield o


def scaled_witness(r, o, cases, tries=24):
    for k in range(tries):
        d = O.data(core.kinds_of(r.cls), o, k)
        base = values_of(cases, d.env())
        if base is None:
            continue
        for ps, vs in ((7, 1), (F(1, 1000), 1), (1, 13), (1, F(1, 500)), (F(1, 10 ** 13), 1), (10 ** 9, 1), (1, F(1, 10 ** 14)), (1, 10 ** 9)):
            cells = {n: [x * (vs if n == "volume" else ps) for x in v] for n, v in d.cells.items()}
            env = d.env(cells=cells)
            env.scale *= float(ps)
            got = values_of(cases, env)
            if got is None or len(got) != len(base):
                continue
            f = F(ps) ** r.unit[0] * F(vs) ** r.unit[1]
            for t, (a, b) in enumerate(zip(base, got)):
                if a is None or b is None:
                    continue
                x = a if O.undef(a) else (F(int(a)) * f if isinstance(a, bool) else a * f)
                if not O.same(x, b) and not (O.undef(x) and O.undef(b)):
                    return "%s: %s; with prices x%s and volumes x%s it is %s instead of %s" % (
                        d.show(t), O.show(a), ps, vs, O.show(b), O.show(x))
    return None


def values_of(cases, env):
    try:
        c = O.pick(cases, env)
        if c is None or c.error:
            return None
        n = int(G.pv(c.res.length, env, {}))
        return core.eval_rows(c.value, env, range(n))
    except SOFT:
        return None


def c10(cls):
    import units as U
    out = []
    rule = "unit inference: comparisons and sums are between like units, the result has its documented unit"
    cells = {n: (F(1), F(0)) for n in O.PRICES}
    cells["volume"] = (F(0), F(1))
    for r in results(cls):
        for o in off(r):
            con, where = label(r, o, False), core.place(r.mod, r.cls, r.acc)
            want = (F(r.unit[0]), F(r.unit[1]))
            try:
                code, cases, n = graphs(r, o, False)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            why = None
            tot = 0
            for c in cases:
                if c.error:
                    why = c.error
                    break
                u = U.Units(cells)
                try:
                    got = u.expr(c.raw if hasattr(c, "raw") else c.value)
                except U.Bad as ex:
                    why = str(ex)
                    break
                except SOFT as ex:
                    why = "%s %s" % (type(ex).__name__, ex)
                    break
                tot += u.checked
                if got is not U.ANY and got != want:
                    why = "the result has the unit %s instead of %s" % (U.show(got), U.show(want))
                    break
            if why is None and core.THOROUGH:
                why = "proved, but the values differ" if scaled_witness(r, o, code, 48) else None
            if why is None:
                out.append(rec(OK, rule, con, where, n=tot + n, what="%s, %d terms" % (U.show(want), tot)))
                continue
            w = scaled_witness(r, o, code)
            out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, "%s; %s" % (w, why) if w else why, steps=[why]))
    return out


# ------------------------------------------------------------------ C11
def shifted_witness(r, o, cases, tries=24):
    for k in range(tries):
        d = O.data(core.kinds_of(r.cls), o, k)
        base = values_of(cases, d.env())
        if base is None:
            continue
        for cst in (F(1000), F(37, 5)):
            cells = {n: (v if n == "volume" else [x + cst for x in v]) for n, v in d.cells.items()}
            got = values_of(cases, d.env(cells=cells))
            if got is None or len(got) != len(base):
                continue
            for t, (a, b) in enumerate(zip(base, got)):
                if a is None or b is None:
                    continue
                x = a if O.undef(a) or isinstance(a, bool) else a + r.shift * cst
                if not O.same(x, b) and not (O.undef(x) and O.undef(b)):
                    return "%s: %s; with all prices +%s it is %s instead of %s" % (
                        d.show(t), O.show(a), float(cst), O.show(b), O.show(x))
    return None


def c11(cls):
    import shift as S
    out = []
    rule = "offset analysis: comparisons are level-free, the result moves by exactly its documented multiple of the offset"
    for r in results(cls):
        if r.shift is None:
            continue
        for o in off(r):
            con, where = label(r, o, False), core.place(r.mod, r.cls, r.acc)
            try:
                code, cases, n = graphs(r, o, False)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            why, tot = None, 0
            for c in cases:
                if c.error:
                    why = c.error
                    break
                s = S.Shift(O.PRICES)
                try:
                    got = s.weight(c.raw if hasattr(c, "raw") else c.value, ())
                except S.Bad as ex:
                    why = str(ex)
                    break
                except SOFT as ex:
                    why = "%s %s" % (type(ex).__name__, ex)
                    break
                tot += s.checked
                if got is not None and got != r.shift:
                    why = "the result moves by %s times the offset instead of %s" % (got, r.shift)
                    break
            if why is None and core.THOROUGH:
                w = shifted_witness(r, o, code, 48)
                why = "proved, but the values differ" if w else None
            if why is None:
                out.append(rec(OK, rule, con, where, n=tot + n, what="moves by %s times the offset, %d terms" % (r.shift, tot)))
                continue
            w = shifted_witness(r, o, code)
            out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, "%s; %s" % (w, why) if w else why, steps=[why]))
    return out


# ------------------------------------------------------------------ C12
LEMMA = {
    "TSIIndicator": "|average of changes| <= average of |changes|, through both smoothings",
    "UltimateOscillator": "weighted mean of three ratios of a part of the true range to the true range",
    "StochasticOscillator": "close lies between the window's lowest low and highest high; a mean keeps the range",
    "StochRSIIndicator": "a value lies between the extremes of a window that contains it; means keep the range",
    "WilliamsRIndicator": "close lies between the window's lowest low and highest high",
    "AroonIndicator": "the position of an extreme lies within its window of window+1 rows",
    "ADXIndicator": "directional movement never exceeds the true range; |a-b| <= a+b; averages keep the range",
    "STCIndicator": "position between window extremes; exponential averages keep the range",
    "ChaikinMoneyFlowIndicator": "|2c-h-l| <= h-l for a close within the bar",
}


def bounded(e, lo, hi):
    """lo <= every defined value <= hi, proved from the guards and the order of a bar; first unproved leaf or None."""
    n = 0
    for path, l in X.paths(e, 6000):
        v = l.v
        if v is NAN or v is INF:
            continue
        n += 1
        if isinstance(v, bool):
            if (lo is None or lo <= 0) and (hi is None or hi >= 1):
                continue
            return n, v
        facts = [(p.p, D.REL[i]) for p, i in path if p.kind == "sign"]
        num, den = v.n, v.d
        if X.poly_sign(den) not in ("+", "0+") and not D._nonneg_under(den, facts):
            if not D._nonneg_under(-den, facts):
                return n, v
            num, den = -num, -den
        for q in ([num - den.scale(lo)] if lo is not None else []) + ([den.scale(hi) - num] if hi is not None else []):
            if X.poly_sign(q) not in ("0", "+", "0+") and not D._nonneg_under(q, facts):
                return n, v
    return n, None


def in_range(v, lo, hi):
    if O.undef(v) or isinstance(v, bool):
        return True
    eps = 1e-9 * max(1.0, abs(float(v))) if isinstance(v, float) else 0
    return (lo is None or v >= lo - eps) and (hi is None or v <= hi + eps)


def range_witness(r, o, cmp_, code):
    flag = r.rng == (0, 1) and r.acc.endswith("indicator")
    for d, rows in core.histories(cmp_, 60):
        env = d.env()
        vs = values_of(code, env)
        if vs is None:
            continue
        for t, v in enumerate(vs):
            if v is None:
                continue
            if not in_range(v, *r.rng) or (flag and not O.undef(v) and v not in (0, 1, True, False)):
                return "%s: %s, outside %s..%s" % (d.show(t), O.show(v), r.rng[0], r.rng[1])
    return None


def c12(cls):
    out = []
    rule = "range follows from the guards and the order of a bar"
    for r in results(cls):
        if r.rng == (None, None):
            continue
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            c = core.compare(cls, r.acc, fill, o)
            if c.status == "equal":
                n, open_ = 0, None
                try:
                    for s in lower.ref(cls, r.acc, fill, o):
                        k, u = bounded(s.raw, *r.rng)
                        n += k
                        open_ = open_ or u
                except SOFT as ex:
                    open_ = str(ex)
                if open_ is None:
                    out.append(rec(OK, rule, con, where, n=max(1, n), what="%d guarded value(s) proved within %s..%s" % ((n,) + r.rng)))
                elif cls in LEMMA:
                    out.append(rec(OK, "equals the definition, whose range is a lemma", con, where, n=max(1, c.obligations),
                                   what=LEMMA[cls]))
                else:
                    out.append(rec(UNDECIDED, rule, con, where, "not proved: %s" % (open_,)))
                continue
            w = range_witness(r, o, c, lower.code(cls, r.acc, fill, o)) if c.status == "differs" else None
            out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, w or "; ".join(c.reasons[:2]), steps=c.reasons[:5]))
    for kcls, hi, lo in spec.ORDER:
        if kcls == cls:
            out += ordered(cls, hi, lo)
    if cls == "VolumeWeightedAveragePrice":
        out += vwap_between()
    return out


def ordered(cls, hi, lo):
    out = []
    rule = "upper level minus lower level is never negative"
    r = spec.BY[(cls, hi)]
    for o, fill in configs(r):
        con = "%s >= %s[%s]" % (label(r, o, fill).split("[")[0], lo, core.opt_text(dict(o, fillna=fill)))
        where = core.place(r.mod, cls, hi)
        a, b = core.compare(cls, hi, fill, o), core.compare(cls, lo, fill, o)
        if a.status == b.status == "equal":
            n, open_ = 0, None
            try:
                for s in lower.ref(cls, hi, False, o):
                    for q in lower.ref(cls, lo, False, o, s.facts):
                        k, u = bounded(X.sub(s.raw, q.raw), 0, None)
                        n += k
                        open_ = open_ or u
            except SOFT as ex:
                open_ = str(ex)
            st = OK if open_ is None else UNDECIDED
            out.append(rec(st, rule, con, where, "" if open_ is None else "not proved: %s" % (open_,), n=max(1, n),
                           what="%d guarded difference(s)" % n))
            continue
        w = None
        ca, cb = lower.code(cls, hi, fill, o), lower.code(cls, lo, fill, o)
        for src in (a, b):
            if src.status == "equal":
                continue
            for d, rows in core.histories(src, 60):
                va, vb = values_of(ca, d.env()), values_of(cb, d.env())
                if va is None or vb is None:
                    continue
                for t, (x, y) in enumerate(zip(va, vb)):
                    if x is None or y is None or O.undef(x) or O.undef(y):
                        continue
                    if x < y and not O.same(x, y):
                        w = "%s: %s is %s, below %s = %s" % (d.show(t), hi, O.show(x), lo, O.show(y))
                        break
                if w:
                    break
            if w:
                break
        out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, w or "; ".join((a.reasons + b.reasons)[:2]),
                       steps=(a.reasons + b.reasons)[:5]))
    return out


def vwap_between():
    out = []
    cls, acc = "VolumeWeightedAveragePrice", "volume_weighted_average_price"
    r = spec.BY[(cls, acc)]
    rule = "a volume-weighted price lies between the lowest low and the highest high of its window"
    for o, fill in configs(r):
        con, where = label(r, o, fill), core.place(r.mod, cls, acc)
        c = core.compare(cls, acc, fill, o)
        if c.status == "equal":
            out.append(rec(OK, "equals the definition, whose range is a lemma", con, where, n=max(1, c.obligations),
                           what="weighted mean of typical prices with non-negative weights"))
            continue
        w = None
        code = lower.code(cls, acc, fill, o)
        for d, rows in core.histories(c, 60):
            vs = values_of(code, d.env())
            if vs is None:
                continue
            k = int(d.params["window"])
            for t, v in enumerate(vs):
                if v is None or O.undef(v) or (t < k - 1):
                    continue
                s = slice(max(0, t - k + 1), t + 1)
                lo, hi = min(d.cells["low"][s]), max(d.cells["high"][s])
                if not any(d.cells["volume"][s]):
                    continue
                if not in_range(v, lo, hi):
                    w = "%s: %s, outside %s..%s" % (d.show(t), O.show(v), O.show(lo), O.show(hi))
                    break
            if w:
                break
        out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, w or "; ".join(c.reasons[:2]), steps=c.reasons[:5]))
    return out
