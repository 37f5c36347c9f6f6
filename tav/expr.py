"""Guarded algebra: hash-consed decision diagrams whose leaves are rational functions over atoms.

An expression describes one value: a scalar, or row `t` of a result.  Atoms are input cells (high[t-1]), windows
(sum of body over rows lo..hi-1), recurrences, parameters.  Guards are row conditions (t-w+1 >= 0), signs of polynomials,
Boolean symbols and missing-value tests."""
import os
from fractions import Fraction
from math import gcd, floor
from poly import Poly, Rat, ATOMS, ONE, ZERO, RZERO, RONE, show_poly


class NotUnderstood(Exception):
    """The analysed code uses a construct outside the modelled subset."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "a", "free", "level", "_ins")

    def show(self):
        return show_atom(self)

    def __repr__(self):
        return show_atom(self)


_AT = {}


def mk_atom(kind, *a):
    k = (kind,) + a
    r = _AT.get(k)
    if r is None:
        r = Atom()
        r.id = len(ATOMS)
        r.kind = kind
        r.a = a
        ATOMS.append(r)
        r.free, r.level = _free_level(r)
        r._ins = None
        _AT[k] = r
    return r


def _free_poly(p):
    s = frozenset()
    for i in p.atoms():
        s |= ATOMS[i].free
    return s


def _level_poly(p):
    return max([ATOMS[i].level for i in p.atoms()] or [0])


def _free_level(x):
    k = x.kind
    if k == "sym":
        return frozenset([x.id]), 0
    if k == "in":
        return _free_poly(x.a[1]), _level_poly(x.a[1])
    if k == "agg":
        kind, body, lo, hi, lev = x.a
        f = (body.free - {bound(lev).id}) | _free_poly(lo) | _free_poly(hi)
        return f, max(lev + 1, _level_poly(lo), _level_poly(hi))
    if k == "rec":
        sys, comp, idx = x.a
        return sys.free | _free_poly(idx), max(sys.level + 1, _level_poly(idx))
    if k == "fill":
        mode, body, idx, lev = x.a
        return (body.free - {bound(lev).id}) | _free_poly(idx), max(lev + 1, _level_poly(idx))
    if k == "fn":
        f = frozenset()
        lv = 0
        for r in x.a[1:]:
            if isinstance(r, Rat):
                f |= _free_poly(r.n) | _free_poly(r.d)
                lv = max(lv, _level_poly(r.n), _level_poly(r.d))
        return f, lv
    return frozenset(), 0          # prev, opq


def sym(name, typ="int", lb=None):
    """typ: row (0..N-1), int, real, bool; lb: known lower bound or None."""
    return mk_atom("sym", name, typ, lb)


_BOUND = {}


def bound(level):
    r = _BOUND.get(level)
    if r is None:
        r = _BOUND[level] = sym("u%d" % level, "row", 0)
    return r


T = sym("t", "row", 0)
N = sym("N", "len", 1)
TP = Poly.atom(T)
NP_ = Poly.atom(N)


def show_idx(p):
    return show_poly(p)


def show_atom(x):
    k = x.kind
    if k == "sym":
        return x.a[0]
    if k == "in":
        return "%s[%s]" % (x.a[0], show_poly(x.a[1]))
    if k == "agg":
        kind, body, lo, hi, lev = x.a
        return "%s{%s : %s=%s..%s}" % (kind, show(body), bound(lev).a[0], show_poly(lo), show_poly(hi - 1))
    if k == "rec":
        sys, comp, idx = x.a
        return "%s.%d[%s]" % (sys.show_short(), comp, show_poly(idx))
    if k == "fill":
        mode, body, idx, lev = x.a
        return "%s{%s}[%s]" % (mode, show(body), show_poly(idx))
    if k == "fn":
        return "%s(%s)" % (x.a[0], ", ".join(map(repr, x.a[1:])))
    if k == "prev":
        return "prev%d" % x.a[0]
    return "?%s" % (x.a,)


# ------------------------------------------------------------------ leaves and predicates
class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN = Special("NaN")
INF = Special("inf")


class Pred:
    __slots__ = ("id", "kind", "p", "order", "free", "level")

    def __repr__(self):
        if self.kind == "row":
            return "%s >= 0" % show_poly(self.p)
        if self.kind == "sign":
            return "sign(%s)" % show_poly(self.p)
        if self.kind == "na":
            return "isna(%r)" % (self.p,)
        return repr(self.p)


_PR = {}
_RANK = {"row": 0, "bool": 1, "sign": 2, "na": 3}


def mk_pred(kind, p):
    k = (kind, p)
    r = _PR.get(k)
    if r is None:
        r = Pred()
        r.kind = kind
        r.p = p
        r.id = len(_PR)
        r.order = (_RANK[kind], r.id)
        if kind == "bool":
            r.free, r.level = p.free, p.level
        elif kind == "na":
            r.free = _free_poly(p.n) | _free_poly(p.d)
            r.level = max(_level_poly(p.n), _level_poly(p.d))
        else:
            r.free, r.level = _free_poly(p), _level_poly(p)
        _PR[k] = r
    return r


class E:
    __slots__ = ("id", "v", "pred", "kids", "free", "level", "size")

    @property
    def leaf(self):
        return self.pred is None

    def __repr__(self):
        return show(self)


_EX = {}
ALL_E = []


def leaf(v):
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        v = Rat.const(v)
    k = ("L", v) if not isinstance(v, bool) else ("B", v)
    r = _EX.get(k)
    if r is None:
        r = E()
        r.v = v
        r.pred = None
        r.kids = ()
        r.size = 1
        if isinstance(v, Rat):
            r.free = _free_poly(v.n) | _free_poly(v.d)
            r.level = max(_level_poly(v.n), _level_poly(v.d))
        else:
            r.free, r.level = frozenset(), 0
        r.id = len(ALL_E)
        ALL_E.append(r)
        _EX[k] = r
    return r


def _na_kids(pred, kids):
    """(x if x is present else missing) is x; (v if cleaned v is present else missing) is cleaned v."""
    r = pred.p
    k0, k1 = kids
    if k1.leaf and isinstance(k1.v, Rat) and k1.v == r:
        k1 = LNAN
    if k1 is LNAN and k0.leaf and isinstance(k0.v, Rat):
        if k0.v == r:
            return k0, k0
        for x, y in ((r, k0.v), (k0.v, r)):
            a = _finite_of(x)
            if a is not None and a == y:
                k = leaf(x)
                return k, k
    return k0, k1


def _finite_of(r):
    if len(r.n.d) == 1 and r.d.is_const() and r.d.cval() == 1:
        (m, c), = r.n.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == "fn" and a.a[0] == "finite":
                return a.a[1]
    return None


def node(pred, kids):
    if pred.kind == "na":
        kids = _na_kids(pred, kids)
    f = kids[0]
    if all(k is f for k in kids):
        return f
    key = (pred.id,) + tuple(k.id for k in kids)
    r = _EX.get(key)
    if r is None:
        r = E()
        r.v = None
        r.pred = pred
        r.kids = tuple(kids)
        r.free = pred.free
        r.level = pred.level
        r.size = 1
        for k in kids:
            r.free |= k.free
            r.level = max(r.level, k.level)
            r.size += k.size
        r.id = len(ALL_E)
        ALL_E.append(r)
        _EX[key] = r
    return r


LNAN = leaf(NAN)
LINF = leaf(INF)
LT = leaf(True)
LF = leaf(False)
L0 = leaf(0)
L1 = leaf(1)


def const(c):
    return leaf(Fraction(c))


def at_in(name, idx=None):
    return leaf(Rat.atom(mk_atom("in", name, TP if idx is None else idx)))


def show(e, depth=0):
    if e.leaf:
        return repr(e.v)
    if depth > 6:
        return "..."
    p = e.pred
    if p.kind == "sign":
        s = show_poly(p.p)
        n, z, q = e.kids
        if n is z:
            return "(%s if %s > 0 else %s)" % (show(q, depth + 1), s, show(n, depth + 1))
        if z is q:
            return "(%s if %s < 0 else %s)" % (show(n, depth + 1), s, show(z, depth + 1))
        if n is q:
            return "(%s if %s == 0 else %s)" % (show(z, depth + 1), s, show(n, depth + 1))
        return "(%s if %s < 0 else %s if == 0 else %s)" % (
            show(n, depth + 1), s, show(z, depth + 1), show(q, depth + 1))
    return "(%s if %r else %s)" % (show(e.kids[1], depth + 1), p, show(e.kids[0], depth + 1))


def leaves(e, seen=None):
    """distinct leaf expressions of the diagram."""
    out = []
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            out.append(x)
        else:
            st.extend(x.kids)
    return out


def preds(e):
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if not x.leaf:
            out[x.pred.id] = x.pred
            st.extend(x.kids)
    return list(out.values())


# ------------------------------------------------------------------ integer bounds
def _sym_lb(a):
    """lower bound (or None) of an integer/real symbol-like atom."""
    if a.kind == "sym":
        return a.a[2]
    if a.kind == "fn" and a.a[0] == "floor":
        r = a.a[1]
        if r.d.is_const():
            b = lower(r.n.scale(1 / r.d.cval()))
            return None if b is None else floor(b)
        return None
    if a.kind == "fn" and a.a[0] == "imax":
        bs = [lower(r.n) for r in a.a[1:]]
        bs = [b for b in bs if b is not None]
        return max(bs) if bs else None
    return None


def imax(ps):
    """integer maximum of polynomials, as a polynomial."""
    out = []
    for p in ps:
        if any(row_decide(q - p) is True for q in out):
            continue
        out = [q for q in out if row_decide(p - q) is not True]
        out.append(p)
    if len(out) == 1:
        return out[0]
    # common part
    base = out[0]
    for q in out[1:]:
        base = Poly({m: c for m, c in base.d.items() if q.d.get(m) == c})
    rest = sorted((q - base for q in out), key=lambda q: q.key())
    return base + Poly.atom(mk_atom("fn", "imax", *[Rat(q, ONE) for q in rest]))


def imin(ps):
    return -imax([-p for p in ps])


def _imax_atom(p):
    for i in p.atoms():
        a = ATOMS[i]
        if a.kind == "fn" and a.a[0] == "imax":
            return a
    return None


BIG = Fraction(10) ** 9


LONG = os.environ.get("TAV_SHORT") in (None, "", "0")      # histories longer than every window; otherwise any length >= 1


def lower(p):
    """a lower bound of p over all admissible symbol values, or None; BIG stands for 'grows with N'."""
    ia = _imax_atom(p)
    if ia is not None:
        c = p.coeff_split(ia.id)
        if set(c) <= {0, 1} and c[1].is_const():
            bs = [lower(c.get(0, ZERO) + r.n.scale(c[1].cval())) for r in ia.a[1:]]
            if c[1].cval() > 0:
                bs = [b for b in bs if b is not None]
                return max(bs) if bs else None
            return None if any(b is None for b in bs) else min(bs)
    nid = N.id
    rows = [i for i in p.atoms() if ATOMS[i].kind == "sym" and ATOMS[i].a[1] == "row"]
    a = Fraction(0)
    total = Fraction(0)
    extra_n = Fraction(0)
    for m, c in p.d.items():
        if not m:
            total += c
            continue
        if len(m) == 1 and m[0][1] == 1:
            x = ATOMS[m[0][0]]
            if x.id == nid:
                a += c
                continue
            if x.id in rows:
                if c < 0:          # worst case: last row
                    a += c
                    total -= c
                continue
        # other monomials: product of lower bounds when all atoms have lb >= 0
        lb = Fraction(1)
        for i, e in m:
            b = _sym_lb(ATOMS[i])
            if b is None or b < 0 or i == nid or i in rows:
                return None
            lb *= Fraction(b) ** e
        if c < 0:
            # with a floor atom: floor(r) <= r
            return _lower_floor(p)
        total += c * lb
    a += extra_n
    if a > 0:
        return BIG if LONG else total + a
    if a < 0:
        return None
    return total


def _lower_floor(p):
    """handle negative floor atoms / negative symbols: replace -c*floor(r) by -c*r and retry once."""
    q = ZERO
    changed = False
    for m, c in p.d.items():
        if c < 0 and len(m) == 1 and m[0][1] == 1:
            x = ATOMS[m[0][0]]
            if x.kind == "fn" and x.a[0] == "floor" and x.a[1].d.is_const():
                q = q + x.a[1].n.scale(c / x.a[1].d.cval())
                changed = True
                continue
        q = q + Poly({m: c})
    if not changed:
        # positive multiple N dominates any parameter
        cN = p.d.get(((N.id, 1),), 0)
        cR = sum(c for m, c in p.d.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sym"
                 and ATOMS[m[0][0]].a[1] == "row" and c < 0)
        if cN + cR > 0 and LONG:
            return BIG
        return None
    return lower(q)


def _repl_plain(p, mp):
    if not (p.atoms() & set(mp)):
        return p
    r = ZERO
    for m, c in p.d.items():
        q = Poly.const(c)
        for i, e in m:
            q = q * (mp[i] if i in mp else Poly.atom(ATOMS[i])).pow(e)
        r = r + q
    return r


def _ctx_norm(ps):
    return sorted(set(ps), key=lambda q: q.key())


def _noN(p):
    return not any(ATOMS[i].id == N.id for i in p.atoms())


_RD = {}


def row_decide(p, ctx=()):
    """Is p >= 0?  True/False/None given ctx: tuple of polys known to be >= 0."""
    k = (p, ctx)
    r = _RD.get(k, 0)
    if r != 0:
        return r
    r = _row_decide(p, ctx)
    _RD[k] = r
    return r


def _row_decide(p, ctx):
    ia = _imax_atom(p)
    if ia is None:
        for q in ctx:
            ia = _imax_atom(q)
            if ia is not None and (p.atoms() & (q.atoms() - {ia.id})):
                break
        else:
            ia = None
    if ia is not None:
        res = None
        for k, r in enumerate(ia.a[1:]):
            mp = {ia.id: r.n}
            c2 = tuple(_ctx_norm([_repl_plain(q, mp) for q in ctx] +
                                 [r.n - o.n for j, o in enumerate(ia.a[1:]) if j != k]))
            x = row_decide(_repl_plain(p, mp), c2)
            if x is None or (res is not None and res is not x):
                return None
            res = x
        return res
    b = lower(p)
    if b is not None and b >= 0:
        return True
    ng = -p - 1
    b2 = lower(ng)
    if b2 is not None and b2 >= 0:
        return False
    for q in ctx:
        b = lower(p - q)
        if b is not None and b >= 0:
            return True
        b2 = lower(ng - q)
        if b2 is not None and b2 >= 0:
            return False
    n = len(ctx)
    for i in range(n):
        for j in range(i, n):
            q = ctx[i] + ctx[j]
            b = lower(p - q)
            if b is not None and b >= 0:
                return True
            b2 = lower(ng - q)
            if b2 is not None and b2 >= 0:
                return False
    return None


def is_int_poly(p):
    """all atoms are integer valued (symbols and floors), i.e. p is a row/parameter condition."""
    for i in p.atoms():
        a = ATOMS[i]
        if a.kind == "sym" and a.a[1] in ("row", "int", "len"):
            continue
        if a.kind == "fn" and a.a[0] in ("floor", "imax"):
            continue
        return False
    return True


def norm_row(p):
    """integer-primitive form of p >= 0."""
    den = 1
    for c in p.d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    q = p.scale(den)
    g = 0
    for m, c in q.d.items():
        if m:
            g = gcd(g, int(c))
    if g > 1:
        d = {m: c / g for m, c in q.d.items()}
        if () in d:
            d[()] = Fraction(floor(d[()]))
            if not d[()]:
                del d[()]
        q = Poly(d)
    return q


def row(p, yes, no):
    """yes if p >= 0 else no (p integer valued)."""
    if yes is no:
        return yes
    r = row_decide(p)
    if r is True:
        return yes
    if r is False:
        return no
    q = norm_row(p)
    ng = norm_row(-p - 1)
    # canonical polarity: coefficient of the first row symbol (else leading term) positive
    if _polarity(q) < 0:
        return ite_pred(mk_pred("row", ng), (yes, no))
    return ite_pred(mk_pred("row", q), (no, yes))


def _polarity(q):
    best = None
    for m, c in q.d.items():
        if not m:
            continue
        a = ATOMS[m[0][0]]
        rk = (0 if a.kind == "sym" and a.a[1] == "row" else 1, m)
        if best is None or rk < best[0]:
            best = (rk, c)
    return 1 if best is None or best[1] > 0 else -1


_ITEP = {}


def ite_pred(pred, kids):
    """decision on pred with arbitrary sub-diagrams (re-ordered as needed)."""
    f = kids[0]
    if all(k is f for k in kids):
        return f
    if all(k.leaf or k.pred.order > pred.order for k in kids):
        return node(pred, kids)
    key = (pred.id,) + tuple(k.id for k in kids)
    r = _ITEP.get(key)
    if r is not None:
        return r
    tops = [k.pred for k in kids if not k.leaf]
    top = min(tops, key=lambda q: q.order)
    if top is pred:
        r = node(pred, [k.kids[i] if (not k.leaf and k.pred is pred) else k for i, k in enumerate(kids)])
        if any(not k.leaf and k.pred is pred for k in r.kids):
            r = r
    else:
        n = 3 if top.kind == "sign" else 2
        sub = []
        for i in range(n):
            sub.append(ite_pred(pred, [k.kids[i] if (not k.leaf and k.pred is top) else k for k in kids]))
        r = node(top, sub)
    _ITEP[key] = r
    return r


# ------------------------------------------------------------------ signs
def atom_sign(a):
    """'+' positive, '0+' non-negative, None unknown."""
    if a.kind == "sym":
        lb = a.a[2]
        if lb is None:
            return None
        if lb == "pos":
            return "+"
        if lb > 0:
            return "+"
        if lb == 0:
            return "0+"
        return None
    if a.kind == "in":
        return "0+"
    if a.kind == "agg":
        kind, body, lo, hi, lev = a.a
        if kind in ("sum", "var", "argmax", "argmin", "count"):
            if kind != "sum" or expr_nonneg(body):
                return "0+"
        if (kind in ("max", "min") or kind.startswith("q:")) and expr_nonneg(body):
            return "0+"
        return None
    if a.kind == "fn":
        if a.a[0] in ("sqrt", "abs"):
            return "0+"
        if a.a[0] == "exp":
            return "+"
        if a.a[0] in ("floor", "imax"):
            b = _sym_lb(a)
            if b is not None:
                return "+" if b > 0 else ("0+" if b >= 0 else None)
        return None
    if a.kind == "rec":
        sys, comp, idx = a.a
        return "0+" if sys.nonneg(comp) else None
    if a.kind == "prev":
        return "0+" if a.id in PREV_NONNEG else None
    return None


PREV_NONNEG = set()


def poly_sign(p):
    """'+', '0+', '0-', '-', '0' or None."""
    if p.is_zero():
        return "0"
    if p.is_const():
        return "+" if p.cval() > 0 else "-"
    if is_int_poly(p):
        b = lower(p)
        if b is not None and b > 0:
            return "+"
        if b is not None and b >= 0:
            return "0+"
        b = lower(-p)
        if b is not None and b > 0:
            return "-"
        if b is not None and b >= 0:
            return "0-"
    pos = neg = True
    strict = False
    for m, c in p.d.items():
        s = "+"
        for i, e in m:
            if e % 2 == 0:
                x = atom_sign(ATOMS[i])
                x = "+" if x == "+" else "0+"
            else:
                x = atom_sign(ATOMS[i])
            if x is None:
                s = None
                break
            if x == "0+":
                s = "0+"
        if s is None:
            return _sign_lower(p)
        if c > 0:
            neg = False
        else:
            pos = False
        if s == "+":
            strict = True
    if pos:
        return "+" if strict else "0+"
    if neg:
        return "-" if strict else "0-"
    return _sign_lower(p)


def _sign_lower(p):
    b = _lower_real(p)
    if b is not None:
        if b > 0:
            return "+"
        if b == 0:
            return "0+"
    b = _lower_real(-p)
    if b is not None:
        if b > 0:
            return "-"
        if b == 0:
            return "0-"
    return _shift_sign(p)


def taylor(p, i, b):
    """coefficients of p as a polynomial in (atom i - b)."""
    from math import comb
    c = p.coeff_split(i)
    out = {}
    for k, q in c.items():
        for j in range(k + 1):
            out[j] = out.get(j, ZERO) + q.scale(Fraction(comb(k, j)) * Fraction(b) ** (k - j))
    return [out[j] for j in sorted(out)]


def _shift_sign(p):
    """sign of p with every bounded parameter written as bound + rest."""
    best = None
    for i in p.atoms():
        a = ATOMS[i]
        if a.kind == "sym" and isinstance(a.a[2], int) and a.a[2] >= 1 and a.a[1] == "int":
            best = i
            break
    if best is None:
        return None
    st = {poly_sign(q) for q in taylor(p, best, ATOMS[best].a[2])}
    st.discard("0")
    if st <= {"+", "0+"}:
        return "+" if poly_sign(taylor(p, best, ATOMS[best].a[2])[0]) == "+" else "0+"
    if st <= {"-", "0-"}:
        return "-" if poly_sign(taylor(p, best, ATOMS[best].a[2])[0]) == "-" else "0-"
    return None


def _lower_real(p):
    total = Fraction(0)
    for m, c in p.d.items():
        if not m:
            total += c
            continue
        lb = Fraction(1)
        for i, e in m:
            b = _sym_lb(ATOMS[i])
            if b == "pos":
                b = 0
            if b is None or b < 0:
                return None
            lb *= Fraction(b) ** e
        if c < 0:
            return None
        total += c * lb
    return total


_NN = {}


def expr_nonneg(e):
    r = _NN.get(e.id)
    if r is None:
        r = True
        _NN[e.id] = False
        for path, l in paths(e, 4000):
            v = l.v
            if v in (NAN, INF) or isinstance(v, bool):
                continue
            if not isinstance(v, Rat):
                r = False
                break
            if rat_nonneg(v, path):
                continue
            r = False
            break
        _NN[e.id] = r
    return r


def rat_nonneg(v, path):
    s, d = poly_sign(v.n), poly_sign(v.d)
    if s in ("0", "+", "0+") and d in ("+", "0+"):
        return True
    # guarded by its own sign, possibly through the order low <= close <= high
    if d in ("+", "0+"):
        from domain import implied_nonneg
        return implied_nonneg(v.n, path)
    return False


def paths(e, limit=20000):
    """yield (list of (pred, branch), leaf expression) over all diagram paths."""
    st = [(e, ())]
    n = 0
    while st:
        x, pth = st.pop()
        if x.leaf:
            n += 1
            if n > limit:
                raise NotUnderstood("too many guard combinations")
            yield [q for q in _unroll(pth)], x
            continue
        for i, k in enumerate(x.kids):
            st.append((k, (pth, (x.pred, i))))


def _unroll(p):
    out = []
    while p:
        p, x = p
        out.append(x)
    out.reverse()
    return out


def norm_sign(p):
    """(primitive p with positive leading coefficient, flipped?)"""
    den = 1
    for c in p.d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.d.values():
        g = gcd(g, int(c * den))
    q = p.scale(Fraction(den, g))
    if q.lead()[1] < 0:
        return -q, True
    return q, False


def sign3(r, neg, zero, pos):
    """three-way decision on the sign of a rational function."""
    if neg is zero and zero is pos:
        return neg
    if r.n.is_zero():
        return zero
    sd = poly_sign(r.d)
    if sd in ("+", "0+"):
        return _sign_poly(r.n, neg, zero, pos)
    if sd in ("-", "0-"):
        return _sign_poly(r.n, pos, zero, neg)
    return _sign_poly(r.d, _sign_poly(r.n, pos, zero, neg), LNAN if not isinstance(neg.v, bool) else LF,
                      _sign_poly(r.n, neg, zero, pos))


def _whole(q):
    """products with a rounded quotient (remainders), of parameters and the number of rows only."""
    for m in q.d:
        if sum(e for _, e in m) > 1 and not any(ATOMS[i].kind == "fn" and ATOMS[i].a[0] == "floor" for i, _ in m):
            return False
    for i in q.atoms():
        a = ATOMS[i]
        if a.kind == "sym":
            if a.a[1] == "row":
                return False
        elif any(ATOMS[j].kind == "sym" and ATOMS[j].a[1] == "row" for j in a.free):
            return False
    return True


def _sign_poly(p, neg, zero, pos):
    from poly import _mono_content, poly_div_mono
    s = poly_sign(p)
    if s == "+":
        return pos
    if s == "-":
        return neg
    if s == "0":
        return zero
    if is_int_poly(p):
        q = norm_row(p)
        if all(sum(e for _, e in m) <= 1 for m in q.d) or _whole(q):
            # p > 0 <=> p-1 >= 0 ; p >= 0
            den = 1
            for c in p.d.values():
                den = den * c.denominator // gcd(den, c.denominator)
            z = p.scale(den)
            return row(z - 1, pos, row(z, zero, neg))
    mc = _mono_content(p) if p.d else ()
    if mc:
        rest = poly_div_mono(p, mc)
        flip = False
        conds = []
        for i, e in mc:
            a = ATOMS[i]
            x = atom_sign(a)
            if x == "+":
                continue
            if x == "0+" or e % 2 == 0:
                conds.append((a, True))
            else:
                conds.append((a, False))
        if rest.is_const() or not conds:
            base = (lambda n, z, q: (q if rest.cval() > 0 else n)) if rest.is_const() else (
                lambda n, z, q: _sign_norm(rest, n, z, q))
            if rest.is_const() and len(conds) == 1 and True:
                a, even = conds[0]
                n_, q_ = (neg, pos) if rest.cval() > 0 else (pos, neg)
                if even:
                    n_ = q_
                return _sign_norm(Poly.atom(a), n_, zero, q_)
            if not conds:
                return base(neg, zero, pos)
        out = lambda n, z, q: (_sign_norm(rest, n, z, q) if not rest.is_const() else (q if rest.cval() > 0 else n))
        P, Q = out(neg, zero, pos), out(pos, zero, neg)
        for a, even in conds:
            P, Q = (_sign_norm(Poly.atom(a), P if even else Q, zero, P),
                    _sign_norm(Poly.atom(a), Q if even else P, zero, Q))
        return P
    return _sign_norm(p, neg, zero, pos)


def _sign_norm(p, neg, zero, pos):
    s = poly_sign(p)
    if s == "+":
        return pos
    if s == "-":
        return neg
    q, fl = norm_sign(p)
    if fl:
        neg, pos = pos, neg
    sq = poly_sign(q)
    if sq == "0+":
        neg = pos
    elif sq == "0-":
        pos = neg
    o = order_sign(q)
    if o == 1:
        neg = pos if zero is not pos else pos
    elif o == -1:
        pos = neg
    if neg is zero and zero is pos:
        return neg
    return ite_pred(mk_pred("sign", q), (neg, zero, pos))


def order_sign(q):
    """+1/-1 when q is c*(high-low), c*(high-close), c*(close-low) at one row (low <= close <= high)."""
    if len(q.d) != 2:
        return 0
    it = list(q.d.items())
    (m1, c1), (m2, c2) = it
    if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return 0
    a, b = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
    if a.kind != "in" or b.kind != "in" or a.a[1] != b.a[1]:
        return 0
    rk = {"low": 0, "close": 1, "high": 2}
    if a.a[0] not in rk or b.a[0] not in rk:
        return 0
    d = rk[a.a[0]] - rk[b.a[0]]
    return 1 if (d > 0) == (c1 > 0) else -1


# ------------------------------------------------------------------ lifting
_LIFT = {}


def lift(name, fn, *args, memo=True):
    """apply fn to the leaves of the argument diagrams; fn returns an expression."""
    key = (name,) + tuple(a.id for a in args)
    if memo:
        r = _LIFT.get(key)
        if r is not None:
            return r
    if all(a.leaf for a in args):
        r = fn(*[a.v for a in args])
    else:
        top = min((a.pred for a in args if not a.leaf), key=lambda q: q.order)
        n = 3 if top.kind == "sign" else 2
        sub = []
        for i in range(n):
            sub.append(lift(name, fn, *[a.kids[i] if (not a.leaf and a.pred is top) else a for a in args], memo=memo))
        r = ite_pred(top, sub)
    if memo:
        _LIFT[key] = r
        if len(_LIFT) > 2000000:
            _LIFT.clear()
    return r


def num(v):
    if v is True:
        return RONE
    if v is False:
        return RZERO
    return v


def _bad(*vs):
    if any(v is NAN for v in vs):
        return LNAN
    if any(v is INF for v in vs):
        return LINF
    return None


def _wrap2(f):
    def g(a, b):
        a, b = num(a), num(b)
        x = _bad(a, b)
        if x is not None:
            return x
        return f(a, b)
    return g


def _lost(den, r):
    """a denominator factor that cancelled although it can vanish (0/0), or None."""
    if den.is_const() or den == r.d:
        return None
    q = Rat.make(den, r.d).n
    while not q.is_const() and not r.d.is_const():
        q2 = Rat.make(q, r.d).n
        if q2 == q:
            break
        q = q2
    if q.is_const() or den_safe(q):
        return None
    return q


def _guarded(den, r):
    if den.is_const() or den == r.d:
        return leaf(r)
    q = _lost(den, r)
    if q is None:
        return leaf(r)
    return sign3(Rat(q, ONE), leaf(r), LNAN, leaf(r))


def _add(x, y):
    r = x + y
    if x.d.is_const() or y.d.is_const():
        return leaf(r)
    return _guarded(x.d if x.d == y.d else x.d * y.d, r)


def _mul(x, y):
    r = x * y
    if x.d.is_const() and y.d.is_const():
        return leaf(r)
    return _guarded(x.d * y.d, r)


def add(a, b):
    return lift("+", _wrap2(_add), a, b)


def sub(a, b):
    return lift("-", _wrap2(lambda x, y: _add(x, -y)), a, b)


def mul(a, b):
    return lift("*", _wrap2(_mul), a, b)


def _div(x, y):
    if y.n.is_zero():
        if x.n.is_zero():
            return LNAN
        if x.is_const():
            return LINF
        return sign3(x, LINF, LNAN, LINF)
    return _guarded(x.d * y.n, x / y)


def _div_leaf(x, y):
    x, y = num(x), num(y)
    if x is NAN or y is NAN:
        return LNAN
    if y is INF:
        return L0 if x is not INF else LNAN
    if x is INF:
        return LINF
    return _div(x, y)


def div(a, b):
    return lift("/", _div_leaf, a, b)


def neg(a):
    return sub(L0, a)


def scale(a, c):
    return mul(a, const(c))


def absval(a):
    def f(x):
        x = num(x)
        b = _bad(x)
        if b is not None:
            return b
        if isinstance(x, Rat):
            return sign3(x, leaf(-x), leaf(RZERO), leaf(x)) if not x.is_const() else leaf(abs(x.cval()))
    return lift("abs", f, a)


def compare(op, a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if x is NAN or y is NAN:
            return LT if op == "!=" else LF
        if x is INF or y is INF:
            if not (isinstance(x, Rat) or isinstance(y, Rat)):
                raise NotUnderstood("comparison of infinities")
            if op in ("==", "!=") and not any(isinstance(q, Rat) and rat_risky(q) for q in (x, y)):
                return LT if op == "!=" else LF
            raise NotUnderstood("comparison with an infinity")
        d = x - y
        n, z, p = {"<": (1, 0, 0), "<=": (1, 1, 0), ">": (0, 0, 1), ">=": (0, 1, 1), "==": (0, 1, 0), "!=": (1, 0, 1)}[op]
        k = [LT if q else LF for q in (n, z, p)]
        return sign3(d, *k)
    return lift("cmp" + op, f, a, b)


def compare_inf(op, e, plus):
    """comparison of e with an infinity of known sign (on the right)."""
    if not plus:
        mirror = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
        op = mirror.get(op, op)       # read for the reversed order

    def f(v):
        v = num(v)
        if v is NAN:
            return LT if op == "!=" else LF
        if op in (">", "<="):
            m = isna(leaf(v))
            return LF if op == ">" else b_not(m)
        if v is INF:
            raise NotUnderstood("sign of an infinity")
        if not rat_risky(v):
            return LT if op in ("<", "!=") else LF
        m = isna(leaf(v))
        it = b_and(isna(clean_half(leaf(v), plus)), b_not(m))
        if op in ("==", ">="):
            return it
        if op == "!=":
            return b_not(it)
        return b_and(b_not(it), b_not(m))
    return lift("cmpinf" + op + ("+" if plus else "-"), f, e)


def maximum(a, b, skipna=False):
    def f(x, y):
        x, y = num(x), num(y)
        if x is NAN or y is NAN:
            if skipna:
                return leaf(y) if x is NAN else leaf(x)
            return LNAN
        b_ = _bad(x, y)
        if b_ is not None:
            return b_
        return sign3(x - y, leaf(y), leaf(x), leaf(x))
    return lift("max%d" % skipna, f, a, b)


def minimum(a, b, skipna=False):
    def f(x, y):
        x, y = num(x), num(y)
        if x is NAN or y is NAN:
            if skipna:
                return leaf(y) if x is NAN else leaf(x)
            return LNAN
        b_ = _bad(x, y)
        if b_ is not None:
            return b_
        return sign3(x - y, leaf(x), leaf(x), leaf(y))
    return lift("min%d" % skipna, f, a, b)


def ite(c, a, b):
    if c is LT:
        return a
    if c is LF:
        return b

    def f(cv, av, bv):
        if cv is True:
            return leaf(av)
        if cv is False:
            return leaf(bv)
        if isinstance(cv, Rat):
            if cv.is_const():
                return leaf(av) if cv.cval() else leaf(bv)
            return sign3(cv, leaf(av), leaf(bv), leaf(av))
        if cv is NAN:
            return leaf(av)
        raise NotUnderstood("condition value")
    return lift("ite", f, c, a, b)


def b_and(a, b):
    return ite(a, tobool(b), LF)


def b_or(a, b):
    return ite(a, LT, tobool(b))


def b_not(a):
    return ite(a, LF, LT)


def tobool(a):
    return ite(a, LT, LF)


def is_bool(e):
    return all(isinstance(l.v, bool) for l in leaves(e))


def atom_risky(a, seen=None):
    """may the atom's value be NaN/inf although its row exists (0/0 inside, interior gaps)?"""
    if a.kind in ("sym", "in"):
        return False
    if a.kind == "agg":
        return expr_risky(a.a[1])
    if a.kind == "rec":
        return a.a[0].risky(a.a[1])
    if a.kind == "fill":
        return True
    if a.kind == "fn":
        if a.a[0] == "log":
            return True
        return any(isinstance(r, Rat) and rat_risky(r) for r in a.a[1:])
    if a.kind == "prev":
        return False
    return True


_RK = {}


def expr_risky(e):
    r = _RK.get(e.id)
    if r is None:
        r = any(l.v is NAN or l.v is INF or (isinstance(l.v, Rat) and rat_risky(l.v)) for l in leaves(e))
        _RK[e.id] = r
    return r


def den_safe(d):
    return poly_sign(d) in ("+", "-")


def rat_risky(r):
    if not den_safe(r.d):
        return True
    return any(atom_risky(ATOMS[i]) for i in r.atoms())


def isna(e):
    def f(v):
        if v is NAN:
            return LT
        if v is INF or isinstance(v, bool):
            return LF
        if not rat_risky(v):
            return LF
        if not any(atom_risky(ATOMS[i]) for i in v.atoms()):
            # missing exactly when 0/0
            from domain import zero_under
            z = zero_under(v.n, v.d)
            if z is True:
                return sign3(Rat(v.d, ONE), LF, LT, LF)
            if z is False:
                return LF
            return sign3(Rat(v.d, ONE), LF, sign3(Rat(v.n, ONE), LF, LT, LF), LF)
        return ite_pred(mk_pred("na", v), (LF, LT))
    return lift("isna", f, e)


def clean(e):
    """infinities become missing."""
    def f(v):
        if v is INF:
            return LNAN
        if v is NAN or isinstance(v, bool):
            return leaf(v)
        if not rat_risky(v):
            return leaf(v)
        if not any(atom_risky(ATOMS[i]) for i in v.atoms()):
            return sign3(Rat(v.d, ONE), leaf(v), LNAN, leaf(v))
        return leaf(Rat.atom(mk_atom("fn", "finite", v)))
    return lift("clean", f, e)


def clean_half(e, plus):
    """only the infinities of one sign become missing."""
    name = "finite+" if plus else "finite-"

    def f(v):
        if v is INF:
            raise NotUnderstood("sign of an infinity")
        if v is NAN or isinstance(v, bool) or not rat_risky(v):
            return leaf(v)
        return leaf(Rat.atom(mk_atom("fn", name, v)))
    return lift(name, f, e)


HALVES = ("finite+", "finite-")


def choose(c, a, b):
    """a where c, else b; a choice between missing and a value that may itself be missing tests both at once."""
    for m, v, k in ((a, b, c), (b, a, None)):
        if m is LNAN and v is not LNAN and expr_risky(v):
            na = isna(v)
            own = {p.id for p in preds(na)}
            if own and any(p.id in own or p.kind == "na" for p in preds(c)):
                k = c if k is not None else b_not(c)
                return ite(b_or(k, na), LNAN, v)
    return ite(c, a, b)


def fillna(e, v):
    return ite(isna(e), v, e)


def fn1(name, e):
    def f(v):
        v = num(v)
        if v is NAN:
            return LNAN
        if v is INF:
            return LINF
        return leaf(_fn(name, v))
    return lift("fn:" + name, f, e)


def _fn(name, v, *more):
    if name == "imax":
        return Rat(imax([x.n for x in (v,) + more]), ONE)
    if more:
        return Rat.atom(mk_atom("fn", name, v, *more))
    if name == "log":
        return _log(v)
    if name == "floor":
        return _floor(v)
    if name == "sqrt":
        if v.is_const():
            c = v.cval()
            from math import isqrt
            if c >= 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
                return Rat.const(Fraction(isqrt(c.numerator), isqrt(c.denominator)))
        return _sqrt(v)
    if name == "exp" and v.is_const() and v.cval() == 0:
        return RONE
    return Rat.atom(mk_atom("fn", name, v))


def _sqrt(v):
    # pull square constants out of the polynomial content
    return Rat.atom(mk_atom("fn", "sqrt", v))


def _log(v):
    if len(v.n.d) == 1 and len(v.d.d) == 1:
        r = RZERO
        for p, s in ((v.n, 1), (v.d, -1)):
            (m, c), = p.d.items()
            if c != 1:
                r = r + Rat.atom(mk_atom("fn", "log", Rat.const(c))) * Rat.const(s)
            for i, e in m:
                r = r + Rat.atom(mk_atom("fn", "log", Rat.atom(ATOMS[i]))) * Rat.const(s * e)
        return r
    return Rat.atom(mk_atom("fn", "log", v))


def _floor(v):
    """floor of a rational function of integers: integer part pulled out."""
    if v.is_const():
        return Rat.const(floor(v.cval()))
    if v.d.is_const() and is_int_poly(v.n):
        p = v.n.scale(1 / v.d.cval())
        ip, fp = {}, {}
        for m, c in p.d.items():
            f = Fraction(floor(c))
            if f:
                ip[m] = f
            if c - f:
                fp[m] = c - f
        if not fp:
            return Rat(p, ONE)
        if set(fp) == {()}:
            return Rat(Poly(ip), ONE)
        if () in fp and set(fp.values()) == {Fraction(1, 2)}:       # floor((q + 1) / 2) = q - floor(q / 2)
            h = Poly({m: c for m, c in fp.items() if m != ()})
            return Rat(Poly(ip) + h.scale(2), ONE) - Rat.atom(mk_atom("fn", "floor", Rat(h, ONE)))
        return Rat(Poly(ip), ONE) + Rat.atom(mk_atom("fn", "floor", Rat(Poly(fp), ONE)))
    return Rat.atom(mk_atom("fn", "floor", v))


def power(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        bd = _bad(x, y)
        if bd is not None:
            return bd
        if y.is_const():
            c = y.cval()
            if c.denominator == 1:
                k = int(c)
                if k >= 0:
                    return leaf(x.pow(k))
                return _div(RONE, x.pow(-k))
            if c == Fraction(1, 2):
                return leaf(_fn("sqrt", x))
        return leaf(Rat.atom(mk_atom("fn", "pow", x, y)))
    return lift("pow", f, a, b)


# ------------------------------------------------------------------ substitution
_SUB = {}


def subst(e, mp):
    """replace symbols (atom ids) by polynomials everywhere (window bounds, indices, guards)."""
    mp = {k: v for k, v in mp.items() if k in e.free}
    if not mp:
        return e
    key = (e.id, tuple(sorted((k, v) for k, v in ((k, v.key()) for k, v in mp.items()))))
    r = _SUB.get(key)
    if r is not None:
        return r
    if e.leaf:
        r = subst_rat(e.v, mp)
    else:
        kids = [subst(k, mp) for k in e.kids]
        r = subst_pred(e.pred, mp, kids)
    _SUB[key] = r
    return r


def subst_pred(p, mp, kids):
    if not (p.free & set(mp)):
        return ite_pred(p, kids)
    if p.kind == "row":
        q = subst_poly_scalar(p.p, mp)
        return row(q, kids[1], kids[0])
    if p.kind == "sign":
        v = subst_rat(Rat(p.p, ONE), mp)
        return lift_rat(v, lambda r: sign3(r, *kids), kids)
    if p.kind == "na":
        v = subst_rat(p.p, mp)
        return ite(isna(v), kids[1], kids[0])
    if p.kind == "bool":
        v = subst_atom(p.p, mp)
        if v.leaf and isinstance(v.v, Rat) and len(v.v.n.d) == 1 and v.v.d == ONE:
            a = ATOMS[next(iter(v.v.n.d))[0][0]]
            return ite_pred(mk_pred("bool", a), kids)
        return ite(v, kids[1], kids[0])
    raise NotUnderstood("guard")


def lift_rat(v, f, kids):
    """v: diagram of rationals; f(rat) -> diagram."""
    def g(x):
        if isinstance(x, Rat):
            return f(x)
        if x is NAN or x is INF:
            return LNAN if not all(isinstance(l.v, bool) for k in kids for l in leaves(k)) else LF
        raise NotUnderstood("guard value")
    return lift("liftrat", g, v, memo=False)


def subst_poly_scalar(p, mp):
    """substitution into a polynomial of symbols only."""
    r = ZERO
    for m, c in p.d.items():
        q = Poly.const(c)
        for i, e in m:
            a = ATOMS[i]
            if i in mp:
                b = mp[i]
            elif a.free & set(mp):
                x = subst_atom(a, mp)
                if not (x.leaf and isinstance(x.v, Rat) and x.v.d.is_const()):
                    raise NotUnderstood("index expression")
                b = x.v.n
            else:
                b = Poly.atom(a)
            q = q * b.pow(e)
        r = r + q
    return r


def subst_rat(v, mp):
    if not isinstance(v, Rat):
        return leaf(v)
    n = subst_poly_expr(v.n, mp)
    if v.d.is_const():
        return n
    return div(n, subst_poly_expr(v.d, mp))


def subst_poly_expr(p, mp):
    touched = [i for i in p.atoms() if ATOMS[i].free & set(mp)]
    if not touched:
        return leaf(Rat(p, ONE))
    rep = {i: subst_atom(ATOMS[i], mp) for i in touched}
    if all(x.leaf and isinstance(x.v, Rat) for x in rep.values()):
        # pure leaf substitution
        if all(x.v.d.is_const() for x in rep.values()):
            r = ZERO
            for m, c in p.d.items():
                q = Poly.const(c)
                for i, e in m:
                    q = q * (rep[i].v.n if i in rep else Poly.atom(ATOMS[i])).pow(e)
                r = r + q
            return leaf(Rat(r, ONE))
        r = RZERO
        for m, c in p.d.items():
            q = Rat.const(c)
            for i, e in m:
                q = q * (rep[i].v if i in rep else Rat.atom(ATOMS[i])).pow(e)
            r = r + q
        return leaf(r)
    total = L0
    for m, c in p.d.items():
        q = const(c)
        for i, e in m:
            b = rep[i] if i in rep else leaf(Rat.atom(ATOMS[i]))
            for _ in range(e):
                q = mul(q, b)
        total = add(total, q)
    return total


_SA = {}


def subst_atom(a, mp):
    if not (a.free & set(mp)):
        return leaf(Rat.atom(a))
    mp = {k: v for k, v in mp.items() if k in a.free}
    key = (a.id, tuple(sorted((k, v.key()) for k, v in mp.items())))
    r = _SA.get(key)
    if r is not None:
        return r
    k = a.kind
    if k == "sym":
        r = leaf(Rat(mp[a.id], ONE))
    elif k == "in":
        r = leaf(Rat.atom(mk_atom("in", a.a[0], subst_poly_scalar(a.a[1], mp))))
    elif k == "agg":
        kind, body, lo, hi, lev = a.a
        m2 = {x: y for x, y in mp.items() if x != bound(lev).id}
        # avoid capture: the replacement must not mention this binder
        if any(bound(lev).id in {i for i in y.atoms()} for y in m2.values()) and (body.free & set(m2)):
            raise NotUnderstood("binder capture")
        b2 = subst(body, m2)
        r = agg_raw(kind, b2, lev, subst_poly_scalar(lo, mp), subst_poly_scalar(hi, mp))
    elif k == "rec":
        sys, comp, idx = a.a
        s2 = sys.subst(mp)
        r = rec_at(s2, comp, subst_poly_scalar(idx, mp))
    elif k == "fill":
        mode, body, idx, lev = a.a
        m2 = {x: y for x, y in mp.items() if x != bound(lev).id}
        b2 = subst(body, m2)
        r = mk_fill(mode, b2, subst_poly_scalar(idx, mp), lev)
    elif k == "fn":
        args = [subst_rat(x, mp) if isinstance(x, Rat) else x for x in a.a[1:]]
        name = a.a[0]

        def f(*vs):
            if any(v is NAN for v in vs):
                return LNAN
            if any(v is INF for v in vs):
                return LINF
            if name in ("pow",):
                return power(leaf(vs[0]), leaf(vs[1]))
            if name == "finite":
                return clean(leaf(vs[0]))
            if name in HALVES:
                return clean_half(leaf(vs[0]), name == HALVES[0])
            return leaf(_fn(name, *vs))
        r = lift("fnsub:" + name, f, *[x if isinstance(x, E) else leaf(x) for x in args])
    else:
        raise NotUnderstood("substitution into " + k)
    _SA[key] = r
    return r


def shift_rows(e, k):
    """e with t replaced by t-k (k: Poly)."""
    return subst(e, {T.id: TP - k})


def at_row(e, idx):
    return subst(e, {T.id: idx})


# ------------------------------------------------------------------ pruning by row facts
_PRUNE = {}


def prune(e, ctx=()):
    """remove row guards decided by the facts met on the way (and by ctx)."""
    if e.leaf or e.pred.kind != "row":
        return e
    key = (e.id, ctx)
    r = _PRUNE.get(key)
    if r is not None:
        return r
    d = row_decide(e.pred.p, ctx)
    if d is True:
        r = prune(e.kids[1], ctx)
    elif d is False:
        r = prune(e.kids[0], ctx)
    else:
        c1 = _ctx_add(ctx, e.pred.p)
        c0 = _ctx_add(ctx, -e.pred.p - 1)
        r = node(e.pred, (prune(e.kids[0], c0), prune(e.kids[1], c1)))
    _PRUNE[key] = r
    return r


def _ctx_add(ctx, p):
    return tuple(sorted(set(ctx) | {p}, key=lambda q: q.key()))


def restrict_rows(e, facts):
    """simplify e knowing every poly in facts is >= 0."""
    return prune(e, tuple(sorted(set(facts), key=lambda q: q.key())))


# ------------------------------------------------------------------ first defined row
_START = {}


def starts(e):
    """(list of polys s, interior): e (in t) is missing before row max(s); `interior` when more rows may be missing."""
    r = _START.get(e.id)
    if r is not None:
        return r
    e = prune(e)
    defd = lift("isdef", lambda v: LF if v is NAN else LT, e)
    # forget non-row guards: defined on some branch
    interior = [False]

    def collapse(x):
        if x.leaf:
            return x
        if x.pred.kind == "row" and T.id in x.pred.free:
            return node(x.pred, [collapse(k) for k in x.kids])
        ks = [collapse(k) for k in x.kids]
        if any(k is not ks[0] for k in ks):
            interior[0] = True
        out = LF
        for k in ks:
            out = b_or(out, k)
        return out

    d = collapse(defd)
    ss = []
    x = d
    ok = True
    while not x.leaf:
        if x.kids[0] is not LF:
            ok = False
            break
        p = x.pred.p
        c = p.coeff_split(T.id)
        if c.get(1) != ONE:
            ok = False
            break
        ss.append(-(c.get(0, ZERO)))
        x = x.kids[1]
    if not ok or x is LF:
        r = (None, True)
    else:
        ss = [s for i, s in enumerate(ss) if not any(
            j != i and _dominates(o, s) and not (o == s and j > i) for j, o in enumerate(ss))]
        r = (ss, interior[0])
    _START[e.id] = r
    return r


def _dominates(a, b):
    l = lower(a - b)
    return l is not None and l >= 0


# ------------------------------------------------------------------ windows
_BODYCLS = {}


def body_level(e):
    return e.level


def agg_raw(kind, body, lev, lo, hi):
    """aggregate of an already bound body; canonicalises."""
    from domain import canon_body
    if body.leaf and body.v is NAN:
        return LNAN
    u = bound(lev)
    d = hi - lo
    if d.is_const() and d.cval() <= 0:
        if kind in ("sum",):
            return L0
        return LNAN
    if d.is_const() and d.cval() == 1 and kind in ("sum", "min", "max"):
        return subst(body, {u.id: lo})
    if kind in ("sum", "min", "max", "count", "prod") and _backwards(body, u.id):
        body = subst(body, {u.id: lo + hi - 1 - Poly.atom(u)})
    if kind == "sum" and body.leaf and isinstance(body.v, Rat):
        return _sum_linear(body.v, lev, lo, hi)
    if kind in ("sum", "min", "max") and not body.leaf:
        body = tidy(body)
        if body.leaf:
            return agg_raw(kind, body, lev, lo, hi)
        f = _content(body, u.id, kind == "sum")
        if kind == "sum" and body.size < 200:
            b2 = body if f is None else _scale_leaves(body, f)
            if not expr_nonneg(b2) and expr_nonneg(_scale_leaves(b2, Rat.const(-1))):
                f = Rat.const(-1) if f is None else -f
        if f is not None and not (f.is_const() and f.cval() == 1):
            body = _scale_leaves(body, f)
            k = kind
            if kind != "sum" and f.n.lead()[1] < 0:
                k = {"min": "max", "max": "min"}[kind]
            return mul(leaf(f), agg_raw(k, body, lev, lo, hi))
    if kind in ("min", "max") and body.leaf and isinstance(body.v, Rat):
        r = _minmax_linear(kind, body.v, lev, lo, hi)
        if r is not None:
            return r
    body = canon_body(body, lev)
    body, lo, hi = _align(body, lev, lo, hi)
    body = canon_body(body, lev)
    return leaf(Rat.atom(mk_atom("agg", kind, body, lo, hi, lev)))


def _backwards(e, uid):
    """every input row used runs against the bound variable (close[t-u])."""
    s = _dirs(e, uid)
    return bool(s) and s == {-1}


_DIR = {}


def _dirs(e, uid):
    """signs with which the bound variable enters row numbers."""
    key = (e.id, uid)
    r = _DIR.get(key)
    if r is not None:
        return r
    out = set()

    def idx(p):
        c = p.coeff_split(uid).get(1)
        if c is not None:
            out.add(c.cval() if c.is_const() else 0)

    def atom(a):
        if uid not in a.free:
            return
        if a.kind == "in":
            idx(a.a[1])
        elif a.kind == "agg":
            idx(a.a[3])
            out.update(_dirs(a.a[1], uid))
        elif a.kind in ("rec", "fill"):
            idx(a.a[2])
        elif a.kind == "fn":
            for r in a.a[1:]:
                if isinstance(r, Rat):
                    for i in r.atoms():
                        atom(ATOMS[i])

    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if uid not in x.free or x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            if isinstance(x.v, Rat):
                for i in x.v.atoms():
                    atom(ATOMS[i])
            continue
        p = x.pred
        if p.kind in ("sign", "na"):
            for i in p.p.atoms():
                atom(ATOMS[i])
        elif p.kind == "bool":
            atom(p.p)
        st.extend(x.kids)
    _DIR[key] = out
    return out


def _content(body, uid, monos):
    """factor common to all values of a body (number and sign; for sums also factors free of the bound variable), or None."""
    from poly import _mono_content
    vs = []
    for l in leaves(body):
        v = l.v
        if v is NAN:
            continue
        if not isinstance(v, Rat):
            return None
        if not v.is_zero():
            vs.append(v)
    if not vs:
        return None
    best = None
    cs = set()
    for v in vs:
        q, fl = norm_sign(v.n)
        qd, fd = norm_sign(v.d)
        c = v.n.lead()[1] / q.lead()[1] / (v.d.lead()[1] / qd.lead()[1])
        k = (len(q.d), q.key(), qd.key())
        if best is None or k < best:
            best, cs = k, {c}
        elif k == best:
            cs.add(c)
    if len(cs) == 1:
        f = Rat.const(cs.pop())
    else:
        f = Rat.const(min(abs(c) for c in cs))
    if monos:
        com, den = None, None
        for v in vs:
            m = _free_mono(_mono_content(v.n), uid)
            d = _free_mono(_mono_content(v.d), uid)
            com = m if com is None else {i: min(e, m[i]) for i, e in com.items() if i in m}
            den = d if den is None else {i: min(e, d[i]) for i, e in den.items() if i in d}
        if com:
            f = f * Rat(Poly({tuple(sorted(com.items())): Fraction(1)}), ONE)
        if den:
            f = f * Rat.make(ONE, Poly({tuple(sorted(den.items())): Fraction(1)}))
    if f.is_const() and f.cval() == 1:
        return None
    return f


def _free_mono(m, uid):
    return {i: e for i, e in m if uid not in ATOMS[i].free and atom_sign(ATOMS[i]) == "+"}


_TIDY = {}


def tidy(e):
    """drop guard branches no bar can take and zero branches that agree with a neighbour."""
    if e.leaf or e.size > 120:
        return e
    r = _TIDY.get(e.id)
    if r is None:
        r = _TIDY[e.id] = _tidy(e, (), [0])
    return r


def _tidy(e, facts, n):
    from domain import feasible, apply_zero, REL
    n[0] += 1
    if e.leaf or n[0] > 300:
        return e
    p = e.pred
    if p.kind != "sign":
        return ite_pred(p, [_tidy(k, facts, n) for k in e.kids])
    live = [feasible(facts + ((p.p, REL[i]),)) for i in range(3)]
    kids = [_tidy(k, facts + ((p.p, REL[i]),), n) if live[i] else None for i, k in enumerate(e.kids)]
    if kids[1] is not None:
        z = apply_zero(kids[1], p.p)
        for i in (2, 0):
            if kids[i] is not None and (kids[i] is kids[1] or apply_zero(kids[i], p.p) is z):
                kids[1] = kids[i]
                break
        else:
            if z.leaf and (not isinstance(z.v, Rat) or z.v.is_const()):
                kids[1] = z
    have = [k for k in kids if k is not None]
    if not have:
        return e
    for i in range(3):
        if kids[i] is None:
            kids[i] = kids[1] if kids[1] is not None else have[0]
    return ite_pred(p, kids)


def _scale_leaves(e, f, memo=None):
    """e / f on every value, guards untouched."""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is None:
        if e.leaf:
            r = leaf(e.v / f) if isinstance(e.v, Rat) else e
        else:
            r = node(e.pred, [_scale_leaves(k, f, memo) for k in e.kids])
        memo[e.id] = r
    return r


def _align(body, lev, lo, hi):
    """shift the bound variable so that the latest input row used in the body is exactly u."""
    u = bound(lev)
    best = None
    for c in _row_offsets(body, u.id):
        if best is None or row_decide(c - best) is True:
            best = c
    if best is None or best.is_zero():
        return body, lo, hi
    return subst(body, {u.id: Poly.atom(u) - best}), lo + best, hi + best


_RO = {}


def _row_offsets(e, uid):
    key = (e.id, uid)
    r = _RO.get(key)
    if r is not None:
        return r
    out = set()

    def poly(p):
        for i in p.atoms():
            atom(ATOMS[i])

    def idx(p):
        c = p.coeff_split(uid)
        if c.get(1) == ONE and set(c) <= {0, 1}:
            k = c.get(0, ZERO)
            if all(ATOMS[i].kind in ("sym", "fn") for i in k.atoms()):
                out.add(k)

    def atom(a):
        if uid not in a.free:
            return
        if a.kind == "in":
            idx(a.a[1])
        elif a.kind == "agg":
            idx(a.a[3] - 1)
            walk(a.a[1])
        elif a.kind == "rec":
            idx(a.a[2])
        elif a.kind == "fill":
            idx(a.a[2])
        elif a.kind == "fn":
            for r in a.a[1:]:
                if isinstance(r, Rat):
                    poly(r.n)
                    poly(r.d)

    seen = set()

    def walk(x):
        if uid not in x.free or x.id in seen:
            return
        seen.add(x.id)
        if x.leaf:
            if isinstance(x.v, Rat):
                poly(x.v.n)
                poly(x.v.d)
            return
        p = x.pred
        if p.kind == "sign":
            poly(p.p)
        elif p.kind == "bool":
            atom(p.p)
        elif p.kind == "na":
            poly(p.p.n)
            poly(p.p.d)
        for k in x.kids:
            walk(k)

    walk(e)
    _RO[key] = out
    return out


def _sum_linear(v, lev, lo, hi):
    """sum of a rational leaf: constants and factors free of the bound variable move out, monomials are split."""
    u = bound(lev)
    uid = u.id
    dep_d = any(uid in ATOMS[i].free for i in v.d.atoms())
    total = L0
    for m, c in v.n.d.items():
        inn, out = [], []
        for i, e in m:
            (inn if uid in ATOMS[i].free else out).append((i, e))
        factor = Rat(Poly({tuple(out): c}), ONE)
        if not dep_d:
            factor = Rat.make(factor.n, v.d)
            iv = Rat(Poly({tuple(inn): Fraction(1)}), ONE)
        else:
            iv = Rat.make(Poly({tuple(inn): Fraction(1)}), v.d)
        if not inn and not dep_d:
            s = leaf(Rat(hi - lo, ONE))
        else:
            s = _sum_atom(iv, lev, lo, hi)
        total = add(total, mul(leaf(factor), s))
    return total


def _sum_atom(iv, lev, lo, hi):
    from domain import canon_body
    u = bound(lev)
    # sums of the index itself
    if iv.d == ONE and iv.n == Poly.atom(u):
        n = hi - lo
        r = Rat(n, ONE) * Rat(lo + hi - 1, ONE) * Rat.const(Fraction(1, 2))
        return leaf(r)
    body = leaf(iv)
    body, lo2, hi2 = _align(body, lev, lo, hi)
    if body.leaf and isinstance(body.v, Rat) and body.v != iv and len(body.v.n.d) > 1:
        return _sum_linear2(body.v, lev, lo2, hi2)
    body = canon_body(body, lev)
    return leaf(Rat.atom(mk_atom("agg", "sum", body, lo2, hi2, lev)))


def _sum_linear2(v, lev, lo, hi):
    """after alignment the body expanded again (weights k -> u - c): split once more without re-aligning."""
    from domain import canon_body
    uid = bound(lev).id
    total = L0
    for m, c in v.n.d.items():
        inn, out = [], []
        for i, e in m:
            (inn if uid in ATOMS[i].free else out).append((i, e))
        f = Rat(Poly({tuple(out): c}), ONE)
        if not inn:
            s = leaf(Rat(hi - lo, ONE))
        else:
            b = canon_body(leaf(Rat.make(Poly({tuple(inn): Fraction(1)}), v.d)), lev)
            s = leaf(Rat.atom(mk_atom("agg", "sum", b, lo, hi, lev)))
        total = add(total, mul(leaf(f), s))
    return total


def _minmax_linear(kind, v, lev, lo, hi):
    """max(a*x+b) = a*max(x)+b for a > 0 (constants free of the bound variable)."""
    u = bound(lev)
    if not v.d.is_const():
        if any(u.id in ATOMS[i].free for i in v.d.atoms()):
            return None
        s = poly_sign(v.d)
        if s not in ("+", "-"):
            return None
        k = kind if s == "+" else {"min": "max", "max": "min"}[kind]
        return div(agg_raw(k, leaf(Rat(v.n, ONE)), lev, lo, hi), leaf(Rat(v.d, ONE)))
    inner, outer = {}, {}
    for m, c in v.n.d.items():
        if any(u.id in ATOMS[i].free for i, _ in m):
            inner[m] = c
        else:
            outer[m] = c
    if not inner:
        return leaf(v)
    g = None
    p = Poly(inner)
    lc = p.lead()[1]
    if lc == 1 and not outer:
        return None
    k = kind if lc > 0 else {"min": "max", "max": "min"}[kind]
    base = agg_raw(k, leaf(Rat(p.scale(1 / lc), ONE)), lev, lo, hi)
    return add(scale(base, lc), leaf(Rat(Poly(outer), ONE)))


def mk_fill(mode, body, idx, lev):
    from domain import canon_body
    body = prune(body)
    if body.leaf and (body.v is NAN or isinstance(body.v, bool) or (isinstance(body.v, Rat) and body.v.is_const())):
        return body
    return leaf(Rat.atom(mk_atom("fill", mode, canon_body(body, lev), idx, lev)))


def agg(kind, e, lo, hi):
    """aggregate of e (in t) over rows lo..hi-1."""
    lev = e.level
    b = subst(e, {T.id: Poly.atom(bound(lev))})
    return agg_raw(kind, b, lev, lo, hi)


def window(kind, e, w, minp, ddof=0):
    """rolling aggregate of e (in t) over w rows ending at t; minp: 'full' (= w) or int; NaN rows are left out.

    kinds: sum mean min max var std count argmax argmin"""
    if prune(e) is LNAN:
        zero = kind in ("sum", "count") and minp != "full" and Poly.const(0) == (minp if isinstance(minp, Poly) else Poly.const(minp))
        return L0 if zero else LNAN
    ss, interior = starts(e)
    if ss is None:
        raise NotUnderstood("window over a series whose first defined row is unknown")
    if minp == "full":
        minp = w
    if not isinstance(minp, Poly):
        minp = Poly.const(minp)
    full = minp == w
    small = minp.is_const() and minp.cval() in (0, 1)
    facts = [TP - s for s in ss]
    body = restrict_rows(e, facts) if not interior else e
    lo, hi = TP - w + 1, TP + 1

    def val(lo):
        if kind == "mean":
            return div(agg("sum", body, lo, hi), leaf(Rat(hi - lo, ONE)))
        if kind in ("var", "std"):
            v = _var(body, lo, hi, ddof)
            return fn1("sqrt", v) if kind == "std" else v
        if kind == "count":
            return leaf(Rat(hi - lo, ONE))
        return agg(kind, body, lo, hi)

    if interior:
        if kind.startswith("q:"):
            raise NotUnderstood("quantile of a series with gaps")
        body = restrict_rows(e, facts)
        if not full and kind in ("sum", "mean", "count"):
            return _gappy(kind, body, w, minp, ss or [ZERO])
    inner = val(lo)
    starts_ = ss or [ZERO]
    if full:
        r = inner
        for s in starts_:
            r = row(lo - s, r, LNAN)
        return prune(r)
    # partial windows: left border max(lo, s)
    s = imax(starts_)
    if not small:
        return prune(row(TP - s - minp + 1, row(lo - s, inner, val(s)), LNAN))
    early = val(s)
    empty = L0 if (kind == "sum" and not minp.cval()) else LNAN
    return prune(row(lo - s, inner, row(TP - s, early, empty)))


def _gappy(kind, body, w, minp, ss):
    """rolling sum / mean / count over the defined rows of each window, given at least minp of them."""
    lo, hi = TP - w + 1, TP + 1
    na = isna(body)
    one, val = ite(na, L0, L1), ite(na, L0, body)

    def at(a):
        n = agg("sum", one, a, hi)
        if kind == "count":
            v = n
        else:
            v = agg("sum", val, a, hi)
            if kind == "mean":
                v = div(v, n)
        if minp.is_zero() and kind != "mean":
            return v
        return ite(compare(">=", n, imax_e(minp)), v, LNAN)

    s = imax(ss)
    empty = L0 if (kind != "mean" and minp.is_zero()) else LNAN
    return prune(row(lo - s, at(lo), row(TP - s, at(s), empty)))


def imax_e(m):
    return L1 if m.is_zero() else leaf(Rat(m, ONE))


def _var(body, lo, hi, ddof):
    n = leaf(Rat(hi - lo, ONE))
    s2 = agg("sum", mul(body, body), lo, hi)
    s1 = agg("sum", body, lo, hi)
    # n*s2 - s1^2  over n*(n-ddof)
    num_ = sub(mul(n, s2), mul(s1, s1))
    return div(num_, mul(n, sub(n, const(ddof))))


# ------------------------------------------------------------------ recurrences
class RecSys:
    """Components c_k[i] = update_k(i, prev components) for i >= start; c_k[start-1] = init_k.

    `updates` are diagrams in the bound variable u{lev} with atoms prev{k}; `inits` are diagrams without rows."""
    _tab = {}

    def __init__(self, start, inits, updates, lev, bools):
        self.start = start
        self.inits = tuple(inits)
        self.updates = tuple(updates)
        self.lev = lev
        self.bools = tuple(bools)
        self.id = len(RecSys._tab)
        u = bound(lev).id
        f = _free_poly(start)
        for x in self.inits + self.updates:
            f |= x.free
        self.free = f - {u}
        self.level = lev
        self._nn = {}
        self._rk = {}
        self._fx = {}

    @staticmethod
    def make(start, inits, updates, lev, bools):
        key = (start, tuple(x.id for x in inits), tuple(x.id for x in updates), lev, tuple(bools))
        r = RecSys._tab.get(key)
        if r is None:
            r = RecSys(start, inits, updates, lev, bools)
            RecSys._tab[key] = r
        return r

    def subst(self, mp):
        mp = {k: v for k, v in mp.items() if k in self.free}
        if not mp:
            return self
        u = bound(self.lev).id
        return RecSys.make(subst_poly_scalar(self.start, mp), [subst(x, mp) for x in self.inits],
                           [subst(x, mp) for x in self.updates], self.lev, self.bools)

    def show_short(self):
        if len(self.updates) == 1:
            return "rec{%s <- %s from row %s: %s}" % ("y", show(self.inits[0], 3), show_poly(self.start),
                                                      show(self.updates[0], 2))
        return "rec#%d" % self.id

    def nonneg(self, k):
        if k not in self._nn:
            self._nn[k] = False
            if self.bools[k]:
                return False
            # induction: assume prev_k >= 0
            a = prev_atom(k)
            own = a.id not in PREV_NONNEG
            PREV_NONNEG.add(a.id)
            saved = dict(_NN)
            _NN.clear()
            try:
                self._nn[k] = expr_nonneg(self.inits[k]) and expr_nonneg(self.updates[k])
            finally:
                if own:
                    PREV_NONNEG.discard(a.id)
                _NN.clear()
                _NN.update(saved)
        return self._nn[k]

    def fixed(self, k):
        """the value component k never leaves, or None."""
        if k not in self._fx:
            self._fx[k] = None
            u, a = self.updates[k], prev_atom(k)
            own = node(mk_pred("bool", a), (LF, LT)) if self.bools[k] else leaf(Rat.atom(a))
            if u is own:
                self._fx[k] = self.inits[k]
            elif self.inits[k].leaf:
                from domain import repl_atoms
                try:
                    if repl_atoms(u, {a.id: self.inits[k]}) is self.inits[k]:
                        self._fx[k] = self.inits[k]
                except NotUnderstood:
                    pass
        return self._fx[k]

    def risky(self, k):
        if k not in self._rk:
            self._rk[k] = True
            self._rk[k] = any(expr_risky(x) for x in self.inits + self.updates)
        return self._rk[k]


def prev_atom(k):
    return mk_atom("prev", k)


def rec_at(sys, comp, idx):
    """value of a component after iteration idx, unfolding when idx is before the start."""
    d = idx - sys.start
    if d.is_const():
        if d.cval() == -1:
            return sys.inits[comp]
    v = sys.fixed(comp)
    if v is not None:
        return v
    a = mk_atom("rec", sys, comp, idx)
    if sys.bools[comp]:
        return node(mk_pred("bool", a), (LF, LT))
    return leaf(Rat.atom(a))
