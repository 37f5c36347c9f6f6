"""Row functions of pandas / numpy series operations on diagrams in the row symbol t (value of row t of the result).

Used by the lowering of the analysed code and by the reference definitions."""
from fractions import Fraction
from poly import Poly, Rat, ATOMS, ONE, ZERO
import expr as X
from expr import leaf, TP, NP_, T, LNAN, L0, NotUnderstood, imax


def P(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def inp(name):
    return X.at_in(name)


def start(e):
    ss, interior = X.starts(e)
    if ss is None:
        raise NotUnderstood("first defined row unknown")
    return imax(ss) if ss else ZERO, interior


def after(e, s):
    return X.restrict_rows(e, [TP - s])


def from_row(s, e, before=LNAN):
    return X.prune(X.row(TP - s, after(e, s), before))


def shift(e, k, fill=LNAN, length=None):
    k = P(k)
    if k.is_zero():
        return e
    d = X.row_decide(k)
    x = X.shift_rows(e, k)
    if d is True:
        return from_row(k, x, fill)
    if d is False or X.row_decide(-k) is True:
        n = NP_ if length is None else length
        return X.row(n - 1 - TP + k, x, fill)
    n = NP_ if length is None else length
    return X.row(TP - k, X.row(n - 1 - TP + k, x, fill), fill)


def diff(e, k=1):
    return X.sub(e, shift(e, k))


def roll(kind, e, w, minp="full", ddof=0):
    return X.window(kind, e, P(w), minp, ddof)


def sma(e, w, fill=False):
    return roll("mean", e, w, 0 if fill else "full")


def nothing(e):
    """is no row defined at all?"""
    return X.prune(e) is LNAN


def ewm(e, alpha, minp=0):
    """adjust=False exponential mean; alpha: E; minp: Poly or int."""
    if nothing(e):
        return LNAN
    s, interior = start(e)
    body = after(e, s)
    lev = max(body.level, alpha.level)
    u = Poly.atom(X.bound(lev))
    pv = leaf(Rat.atom(X.prev_atom(0)))
    upd = X.add(X.mul(X.sub(X.L1, alpha), pv), X.mul(alpha, X.subst(body, {T.id: u})))
    upd = X.restrict_rows(upd, [u - s - 1])
    init = X.subst(body, {T.id: s})
    from domain import mk_rec
    v = mk_rec(s + 1, [init], [upd], lev, [False])
    minp = P(minp)
    d = s
    if not (minp.is_const() and minp.cval() <= 1):
        d = s + minp - 1
    if d == s:
        ss, _ = X.starts(e)
        r = v
        for q in ss or [ZERO]:
            r = X.row(TP - q, r, LNAN)
        return X.prune(r)
    return X.prune(X.row(TP - d, v, LNAN))


def span_alpha(n):
    return X.div(X.const(2), X.add(n, X.L1))


def ema(e, n, fill=False):
    n = P(n)
    return ewm(e, span_alpha(leaf(Rat(n, ONE))), 0 if fill else n)


def cumsum(e):
    if nothing(e):
        return LNAN
    s, interior = start(e)
    body = after(e, s)
    if interior:
        body = X.fillna(body, L0)
        return X.row(TP - s, X.ite(X.isna(after(e, s)), LNAN, X.agg("sum", body, s, TP + 1)), LNAN)
    return X.row(TP - s, X.agg("sum", body, s, TP + 1), LNAN)


def cumext(kind, e):
    if nothing(e):
        return LNAN
    s, interior = start(e)
    return X.row(TP - s, X.agg(kind, after(e, s), s, TP + 1), LNAN)


def cumprod(e):
    if nothing(e):
        return LNAN
    s, _ = start(e)
    body = after(e, s)
    lev = body.level
    u = Poly.atom(X.bound(lev))
    pv = leaf(Rat.atom(X.prev_atom(0)))
    from domain import mk_rec
    v = mk_rec(s + 1, [X.subst(body, {T.id: s})], [X.mul(pv, X.subst(body, {T.id: u}))], lev, [False])
    return X.row(TP - s, v, LNAN)


def fill_atom(mode, e, idx):
    lev = e.level
    b = X.subst(e, {T.id: Poly.atom(X.bound(lev))})
    return X.mk_fill(mode, b, idx, lev)


def ffill(e):
    if nothing(e):
        return LNAN
    try:
        s, _ = start(e)
    except NotUnderstood:
        na = X.isna(e)
        return X.ite(na, X.row(TP - 1, fill_atom("ffill", e, TP - 1), LNAN), e)
    y = after(e, s)
    na = X.isna(y)
    if na is X.LF:
        return X.row(TP - s, y, LNAN)
    f = X.row(TP - s - 1, fill_atom("ffill", e, TP - 1), LNAN)
    return X.row(TP - s, X.ite(na, f, y), LNAN)


def bfill(e, length=None):
    if nothing(e):
        return LNAN
    try:
        s, _ = start(e)
    except NotUnderstood:
        return X.ite(X.isna(e), fill_atom("bfill", e, TP), e)
    y = after(e, s)
    na = X.isna(y)
    if na is X.LF:
        n = NP_ if length is None else length
        return X.row(TP - s, y, X.row(n - 1 - s, X.subst(y, {T.id: s}), LNAN))
    f = fill_atom("bfill", e, TP)
    return X.row(TP - s, X.ite(na, f, y), f)


def fill_limited(e, filled, k, back=False, length=None):
    """filled, but only for gaps of at most k rows from the value used."""
    k = P(k)
    d = X.ite(X.isna(e), L0, X.L1)
    if back:
        n = NP_ if length is None else length
        near = X.row(n - 1 - TP - k, X.agg("max", d, TP, TP + k + 1), X.agg("max", d, TP, n))
    else:
        near = X.row(TP - k, X.agg("max", d, TP - k, TP + 1), X.agg("max", d, ZERO, TP + 1))
    return X.ite(X.compare(">", near, L0), filled, LNAN)


def first_defined(e):
    return start(e)[0]


def check_fillna(e, value, fill=True):
    """reference for the documented gap filling: value None means nearest."""
    if not fill:
        return e
    x = ffill(X.clean(e))
    if value is None:
        return bfill(x)
    return X.fillna(x, value if isinstance(value, X.E) else X.const(value))
