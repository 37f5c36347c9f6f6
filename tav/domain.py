"""Guard feasibility (linear inequalities over cells of the bars, with low <= close <= high), zero-branch substitution,
semantic comparison of diagrams, canonical bodies of windows and recurrences."""
from fractions import Fraction
from poly import Poly, Rat, ATOMS, ONE, ZERO
import expr as X
from expr import leaf, node, NAN, INF, LNAN, LT, LF, NotUnderstood

RANK = {"low": 0, "close": 1, "high": 2}


# ------------------------------------------------------------------ atom replacement (not under binders)
def repl_atoms(e, mp, memo=None):
    """replace atoms (ids) by expressions at the outermost level of e (function arguments included)."""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.leaf:
        r = _repl_rat(e.v, mp)
    else:
        kids = [repl_atoms(k, mp, memo) for k in e.kids]
        p = e.pred
        if p.kind == "sign":
            v = _repl_poly(p.p, mp)
            if v.leaf and isinstance(v.v, Rat) and v.v.n is p.p:
                r = X.ite_pred(p, kids)
            elif v.leaf and isinstance(v.v, Rat) and v.v.n == p.p and v.v.d == ONE:
                r = X.ite_pred(p, kids)
            else:
                r = X.lift_rat(v, lambda q: X.sign3(q, *kids), kids)
        elif p.kind == "bool":
            if p.p.id in mp:
                r = X.ite(mp[p.p.id], kids[1], kids[0])
            else:
                r = X.ite_pred(p, kids)
        elif p.kind == "na":
            v = _repl_rat(p.p, mp)
            if v.leaf and v.v == p.p:
                r = X.ite_pred(p, kids)
            else:
                r = X.ite(X.isna(v), kids[1], kids[0])
        else:
            r = X.ite_pred(p, kids)
    memo[e.id] = r
    return r


def _repl_rat(v, mp):
    if not isinstance(v, Rat):
        return leaf(v)
    n = _repl_poly(v.n, mp)
    if v.d.is_const():
        return n
    return X.div(n, _repl_poly(v.d, mp))


def _mentions(a, ids):
    if a.id in ids:
        return True
    if a.kind == "fn":
        return any(isinstance(r, Rat) and any(_mentions(ATOMS[i], ids) for i in r.atoms()) for r in a.a[1:])
    if a.kind == "agg":
        return expr_mentions(a.a[1], ids)
    if a.kind == "fill":
        return expr_mentions(a.a[1], ids)
    return False


_EM = {}


def expr_mentions(e, ids):
    ids = frozenset(ids)
    key = (e.id, ids)
    r = _EM.get(key)
    if r is None:
        if e.leaf:
            r = isinstance(e.v, Rat) and any(_mentions(ATOMS[i], ids) for i in e.v.atoms())
        else:
            p = e.pred
            if p.kind in ("sign", "row"):
                r = any(_mentions(ATOMS[i], ids) for i in p.p.atoms())
            elif p.kind == "bool":
                r = _mentions(p.p, ids)
            else:
                r = any(_mentions(ATOMS[i], ids) for i in p.p.atoms())
            r = r or any(expr_mentions(k, ids) for k in e.kids)
        _EM[key] = r
    return r


def _repl_atom(a, mp):
    if a.id in mp:
        return mp[a.id]
    if a.kind == "fn" and _mentions(a, mp.keys()):
        args = [_repl_rat(x, mp) if isinstance(x, Rat) else leaf(x) for x in a.a[1:]]
        name = a.a[0]

        def f(*vs):
            if any(v is NAN for v in vs):
                return LNAN
            if any(v is INF for v in vs):
                return X.LINF
            if name == "pow":
                return X.power(leaf(vs[0]), leaf(vs[1]))
            if name == "finite":
                return X.clean(leaf(vs[0]))
            if name in X.HALVES:
                return X.clean_half(leaf(vs[0]), name == X.HALVES[0])
            return leaf(X._fn(name, *vs))
        return X.lift("fnrepl:" + name, f, *args)
    return leaf(Rat.atom(a))


def _repl_poly(p, mp):
    ids = [i for i in p.atoms() if i in mp or (ATOMS[i].kind == "fn" and _mentions(ATOMS[i], mp.keys()))]
    if not ids:
        return leaf(Rat(p, ONE))
    rep = {i: _repl_atom(ATOMS[i], mp) for i in ids}
    if all(x.leaf and isinstance(x.v, Rat) and x.v.d.is_const() for x in rep.values()):
        r = ZERO
        for m, c in p.d.items():
            q = Poly.const(c)
            for i, e in m:
                q = q * (rep[i].v.n if i in rep else Poly.atom(ATOMS[i])).pow(e)
            r = r + q
        return leaf(Rat(r, ONE))
    total = X.L0
    for m, c in p.d.items():
        q = X.const(c)
        for i, e in m:
            b = rep[i] if i in rep else leaf(Rat.atom(ATOMS[i]))
            for _ in range(e):
                q = X.mul(q, b)
        total = X.add(total, q)
    return total


# ------------------------------------------------------------------ equalities from p == 0
def solve_zero(p):
    """p == 0 -> (deep symbol substitution {id: Poly}, atom replacement {id: E}) or (None, None)."""
    if len(p.d) == 2:
        it = list(p.d.items())
        (m1, c1), (m2, c2) = it
        if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 + c2 == 0:
            a, b = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
            if a.kind == "in" and b.kind == "in" and a.a[1] == b.a[1]:
                nm = {a.a[0], b.a[0]}
                if nm == {"high", "low"}:
                    idx = a.a[1]
                    h = leaf(Rat.atom(X.mk_atom("in", "high", idx)))
                    return None, {X.mk_atom("in", "low", idx).id: h, X.mk_atom("in", "close", idx).id: h}
    best = None
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            i = m[0][0]
            a = ATOMS[i]
            if p.degree_in(i) != 1 or sum(1 for mm in p.d if any(j == i for j, _ in mm)) != 1:
                continue
            rest = Poly({mm: -cc / c for mm, cc in p.d.items() if mm != m})
            if any(_mentions(ATOMS[j], (i,)) for j in rest.atoms()):
                continue
            rk = {"sym": 0, "prev": 3, "agg": 4, "rec": 4, "fill": 4, "fn": 2, "in": 1}.get(a.kind, 5)
            if a.kind == "sym" and not X.is_int_poly(rest) and a.a[1] != "real":
                continue
            if best is None or (rk, i) > best[0]:
                best = ((rk, i), a, rest)
    if best is None:
        return None, None
    a, rest = best[1], best[2]
    if a.kind == "sym":
        return {a.id: rest}, {}
    return None, {a.id: leaf(Rat(rest, ONE))}


def apply_zero(e, p):
    s, r = solve_zero(p)
    if s is None and r is None:
        return e
    if s:
        return X.subst(e, s)
    return repl_atoms(e, r)


def zero_under(n, d):
    """Given d == 0: True if n is then 0, False if n is certainly not, None unknown."""
    s, r = solve_zero(d)
    if s is None and r is None:
        return None
    e = leaf(Rat(n, ONE))
    e = X.subst(e, s) if s else repl_atoms(e, r)
    if e.leaf and isinstance(e.v, Rat):
        if e.v.is_zero():
            return True
        if e.v.is_const():
            return False
    return None


# ------------------------------------------------------------------ linear feasibility
_FEAS = {}


def feasible(facts):
    """facts: iterable of (Poly, rel) with rel in '<','=','>','>='. Is there a real assignment (monomials as variables)?"""
    facts = frozenset(facts)
    key = (facts, frozenset(X.PREV_NONNEG)) if X.PREV_NONNEG else facts
    r = _FEAS.get(key)
    if r is None:
        r = _feasible(facts)
        _FEAS[key] = r
    return r


def background(atoms):
    """known inequalities between atoms: order of a bar, sign facts, window extremes."""
    out = []
    cells = {}
    for i in atoms:
        a = ATOMS[i]
        if a.kind == "in" and a.a[0] in RANK:
            cells.setdefault(a.a[1], {})[a.a[0]] = a
        s = X.atom_sign(a)
        if s == "+":
            out.append((Poly.atom(a), ">"))
        elif s == "0+":
            out.append((Poly.atom(a), ">="))
    for idx, d in cells.items():
        n = sorted(d, key=RANK.get)
        for x, y in zip(n, n[1:]):
            out.append((Poly.atom(d[y]) - Poly.atom(d[x]), ">="))
    aggs = [ATOMS[i] for i in atoms if ATOMS[i].kind == "agg" and ATOMS[i].a[0] in ("max", "min")]
    for g in aggs:
        kind, body, lo, hi, lev = g.a
        # extremes against the body at known rows inside the window
        for idx in list(cells) + [hi - 1]:
            if X.row_decide(idx - lo) is True and X.row_decide(hi - 1 - idx) is True:
                b = X.subst(body, {X.bound(lev).id: idx})
                if b.leaf and isinstance(b.v, Rat) and b.v.d.is_const():
                    d = Poly.atom(g) - b.v.n
                    out.append((d if kind == "max" else -d, ">="))
                    # bodies over one price: chain to the other prices of that bar
                    if len(b.v.n.d) == 1:
                        (m, c), = b.v.n.d.items()
                        if len(m) == 1 and m[0][1] == 1 and c == 1 and ATOMS[m[0][0]].kind == "in":
                            nm = ATOMS[m[0][0]].a[0]
                            for o, a in cells.get(idx, {}).items():
                                if nm in RANK and ((kind == "max" and RANK[o] <= RANK[nm]) or
                                                   (kind == "min" and RANK[o] >= RANK[nm])):
                                    d = Poly.atom(g) - Poly.atom(a)
                                    out.append((d if kind == "max" else -d, ">="))
        for g2 in aggs:
            k2, b2, lo2, hi2, lev2 = g2.a
            if kind == "max" and k2 == "min" and lo == lo2 and hi == hi2:
                if _body_ge(body, lev, b2, lev2):
                    out.append((Poly.atom(g) - Poly.atom(g2), ">="))
            if g2 is not g and kind == k2 and body is b2:
                # wider window dominates
                if X.row_decide(lo - lo2) is True and X.row_decide(hi2 - hi) is True:
                    d = Poly.atom(g2) - Poly.atom(g)
                    out.append((d if kind == "max" else -d, ">="))
    # window sums of dominated bodies
    sums = [ATOMS[i] for i in atoms if ATOMS[i].kind == "agg" and ATOMS[i].a[0] == "sum"]
    for i, g in enumerate(sums):
        for h in sums[:i]:
            if g.a[2] == h.a[2] and g.a[3] == h.a[3]:
                if _body_ge(g.a[1], g.a[4], h.a[1], h.a[4]):
                    out.append((Poly.atom(g) - Poly.atom(h), ">="))
                elif _body_ge(h.a[1], h.a[4], g.a[1], g.a[4]):
                    out.append((Poly.atom(h) - Poly.atom(g), ">="))
    return out


_BG = {}


def _body_ge(b1, l1, b2, l2):
    """b1 >= b2 row by row."""
    key = (b1.id, l1, b2.id, l2, frozenset(X.PREV_NONNEG))
    r = _BG.get(key)
    if r is None:
        _BG[key] = False
        try:
            if l1 != l2:
                b2 = X.subst(b2, {X.bound(l2).id: Poly.atom(X.bound(l1))})
            d = X.sub(b1, b2)
            r = d.size < 400 and X.expr_nonneg(d)
        except NotUnderstood:
            r = False
        _BG[key] = r
    return r


def _feasible(facts):
    import linear
    allf = list(facts)
    atoms = set()
    for p, _ in allf:
        atoms |= p.atoms()
    if not atoms:
        return all(_const_ok(p, r) for p, r in allf)
    allf += background(atoms)
    rows = []
    seen = set()
    for p, r in allf:
        d = {}
        c = 0
        for m, k in p.d.items():
            if m:
                d[m] = k
                if m not in seen:
                    seen.add(m)
                    if sum(e for _, e in m) > 1:
                        s = X.poly_sign(Poly({m: Fraction(1)}))
                        if s == "+":
                            rows.append(({m: 1}, 0, ">"))
                        elif s == "0+":
                            rows.append(({m: 1}, 0, ">="))
            else:
                c = k
        rows.append((d, c, r))
    return linear.feasible(rows)


def _const_ok(p, r):
    c = p.cval()
    return {"<": c < 0, "=": c == 0, ">": c > 0, ">=": c >= 0}[r]


REL = ("<", "=", ">")


def implied_nonneg(n, path):
    """n >= 0 follows from the sign guards of the path and the bar order."""
    facts = [(p.p, REL[i]) for p, i in path if p.kind == "sign"]
    return _nonneg_under(n, facts)


def _nonneg_under(n, facts):
    if not feasible(facts + [(n, "<")]):
        return True
    for i in sorted(n.atoms()):
        a = ATOMS[i]
        if a.kind == "sym" and a.a[1] in ("int", "real", "pos"):
            lb = "pos" if a.a[1] == "pos" else a.a[2]
            if lb is None:
                continue
            return all(_nonneg_under(c, facts) for c in X.taylor(n, i, 0 if lb == "pos" else lb))
    return False


# ------------------------------------------------------------------ comparison
class Mismatch:
    def __init__(self, rows, signs, others, a, b):
        self.rows, self.signs, self.others, self.a, self.b = rows, signs, others, a, b

    def where(self):
        c = ["%s >= 0" % p for p in self.rows]
        c += ["%s %s 0" % (p, r) for p, r in self.signs]
        c += ["%s%r" % ("" if v else "not ", q) for q, v in self.others]
        return " and ".join(c) or "every row"


class TooBig(NotUnderstood):
    pass


def diffs(a, b, rows=(), limit=3, budget=40000):
    """Mismatches between two diagrams over all feasible guard combinations."""
    out = []
    seen = set()
    count = [0]

    def rec(a, b, rows, signs, others):
        if a is b or len(out) >= limit:
            return
        key = (a.id, b.id, rows, signs)
        if key in seen:
            return
        seen.add(key)
        count[0] += 1
        if count[0] > budget:
            raise TooBig("comparison too large")
        if a.leaf and b.leaf:
            if _leaf_same(a.v, b.v):
                return
            if not signs:
                a2, b2 = sync(a, b, rows)
                if a2 is not a or b2 is not b:
                    return rec(a2, b2, rows, signs, others)
            pin = pinned(rows)
            if pin:
                a2, b2 = unfold(X.subst(a, pin)), unfold(X.subst(b, pin))
                if a2 is b2:
                    return
                if not (a2.leaf and b2.leaf):
                    return rec(a2, b2, rows, signs, others)
                if _leaf_same(a2.v, b2.v):
                    return
            if rows:
                a2, b2 = deep(a, rows), deep(b, rows)
                if a2 is not a or b2 is not b:
                    return rec(a2, b2, rows, signs, others)
                got = equalities(rows)
                if got is False:
                    return
                mp, rows2 = got
                if mp:
                    a2, b2 = unfold(deep(X.subst(a, mp), rows2)), unfold(deep(X.subst(b, mp), rows2))
                    if (a2 is not a or b2 is not b) and rows2 != rows:
                        return rec(a2, b2, rows2, signs, others)
            out.append(Mismatch(rows, signs, others, a, b))
            return
        tops = [e.pred for e in (a, b) if not e.leaf]
        p = min(tops, key=lambda q: q.order)
        if p.kind == "na" and rows:
            a2, b2 = deep(a, rows), deep(b, rows)
            if a2 is not a or b2 is not b:
                return rec(a2, b2, rows, signs, others)
        if p.kind != "row" and not signs and not others:
            a2, b2 = sync(a, b, rows)
            if a2 is not a or b2 is not b:
                return rec(a2, b2, rows, signs, others)
        ks = lambda e, i: e.kids[i] if (not e.leaf and e.pred is p) else e
        if p.kind == "row":
            d = X.row_decide(p.p, rows)
            for i, q in ((1, p.p), (0, -p.p - 1)):
                if d is (i == 0):
                    continue
                x, y, r2 = ks(a, i), ks(b, i), rows
                if d is None:
                    r2 = X._ctx_add(rows, q)
                    at = q.atoms()
                    if len(at) == 1 and ATOMS[next(iter(at))].kind == "sym" and ATOMS[next(iter(at))].a[1] == "int":
                        pin = {k: v for k, v in (pinned(r2) or {}).items() if k in at}
                        if pin:
                            x, y = X.subst(x, pin), X.subst(y, pin)
                rec(x, y, r2, signs, others)
        elif p.kind == "sign":
            for i in range(3):
                x, y = ks(a, i), ks(b, i)
                if x is y:
                    continue
                s2 = signs + ((p.p, REL[i]),)
                if not feasible(s2):
                    continue
                if i == 1:
                    x, y = apply_zero(x, p.p), apply_zero(y, p.p)
                rec(x, y, rows, s2, others)
        else:
            for i in range(2):
                rec(ks(a, i), ks(b, i), rows, signs, others + ((p, i),))

    rows = tuple(rows)
    got = equalities(rows) if rows and a is not b else None
    if got and got[0]:
        a, b, rows = unfold(X.subst(a, got[0])), unfold(X.subst(b, got[0])), got[1]
    rec(a, b, tuple(rows), (), ())
    return out


def pinned(rows):
    """{symbol: const} for row and parameter symbols that the row facts force to one constant."""
    out = {}
    for p in rows:
        at = p.atoms()
        if len(at) != 1:
            continue
        i, = at
        a = ATOMS[i]
        if a.kind != "sym" or a.a[1] not in ("row", "int") or a.a[2] is None or i in out:
            continue
        lo, hi = a.a[2], None
        for q in rows:
            if q.atoms() == at:
                c = q.d.get(((i, 1),), 0)
                k = q.cval()
                if c == 1:
                    lo = max(lo, -k)
                elif c == -1:
                    hi = k if hi is None else min(hi, k)
        if hi is not None and lo == hi:
            out[i] = Poly.const(lo)
    return out or None


def rec_atoms(e):
    """recurrence atoms of a diagram (not inside windows)."""
    out = {}
    seen = set()

    def poly(p):
        for i in p.atoms():
            a = ATOMS[i]
            if a.kind == "rec":
                out[i] = a
            elif a.kind == "fn":
                for r in a.a[1:]:
                    if isinstance(r, Rat):
                        poly(r.n)
                        poly(r.d)

    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            if isinstance(x.v, Rat):
                poly(x.v.n)
                poly(x.v.d)
            continue
        p = x.pred
        if p.kind == "sign":
            poly(p.p)
        elif p.kind == "na":
            poly(p.p.n)
            poly(p.p.d)
        elif p.kind == "bool" and p.p.kind == "rec":
            out[p.p.id] = p.p
        st.extend(x.kids)
    return list(out.values())


def sync(a, b, rows, limit=3):
    """bring recurrences read at neighbouring rows by the two sides to the same row by unrolling their update."""
    eq = t_equal(rows)
    if eq and (X.T.id in a.free or X.T.id in b.free):
        a, b = unfold(X.subst(a, eq)), unfold(X.subst(b, eq))
    for _ in range(4):
        ra, rb = rec_atoms(a), rec_atoms(b)
        low = {}
        for x in ra + rb:
            k = x.a[0].id
            if k not in low:
                low[k] = x.a[2]
            else:
                d = x.a[2] - low[k]
                if d.is_const() and d.cval() < 0:
                    low[k] = x.a[2]
        mp = {}
        for x in ra + rb:
            sysm, comp, idx = x.a
            d = idx - low[sysm.id]
            if d.is_const() and 0 < d.cval() <= limit and X.row_decide(idx - sysm.start, rows) is True:
                vals = [X.rec_at(sysm, k, idx - 1) for k in range(len(sysm.updates))]
                mp[x.id] = step(sysm, sysm.updates[comp], vals, idx)
        if not mp:
            return a, b
        a, b = X.restrict_rows(repl_atoms(a, mp), rows), X.restrict_rows(repl_atoms(b, mp), rows)
    return a, b


def equalities(rows):
    """({symbol: value}, remaining facts) for the equalities the row facts imply; False when they contradict each other."""
    mp = {}
    rows = tuple(rows)
    if not all(X.is_int_poly(p) for p in rows):
        return mp, rows
    for _ in range(6):
        rest = tuple(p for p in rows if not p.is_const())
        if any(p.is_const() and p.cval() < 0 for p in rows):
            return False
        rows = rest
        hit = None
        for p in rows:
            others = tuple(q for q in rows if q is not p)
            if decide_rows(p, others) is False:
                return False
            if hit is None and decide_rows(-p, rows) is True:
                for i in sorted(p.atoms(), key=lambda i: (i != X.T.id, i == X.N.id)):
                    c = p.coeff_split(i)
                    if ATOMS[i].kind == "sym" and set(c) <= {0, 1} and c[1].is_const() and abs(c[1].cval()) == 1:
                        v = c.get(0, ZERO)
                        v = -v if c[1].cval() == 1 else v
                        hit = (i, v)
                        break
        if hit is None:
            return mp, rows
        one = {hit[0]: hit[1]}
        try:
            mp = {k: X.subst_poly_scalar(v, one) for k, v in mp.items()}
            rows = tuple(X.subst_poly_scalar(p, one) for p in rows)
        except NotUnderstood:
            return mp, rows
        mp.update(one)
        a = ATOMS[hit[0]]
        if a.a[2] is not None:            # its own bound
            rows += (hit[1] - a.a[2],)
        if a.a[1] == "row":
            rows += (Poly.atom(X.N) - 1 - hit[1],)
    return mp, rows


def t_equal(rows):
    """{t: value} when two row facts p >= 0 and -p >= 0 fix the row."""
    have = set(rows)
    for p in rows:
        if -p in have:
            c = p.coeff_split(X.T.id)
            if set(c) <= {0, 1} and c.get(1) == ONE:
                return {X.T.id: -c.get(0, ZERO)}
    return None


def unfold(e, depth=4):
    """unfold recurrences read at a constant distance after their start."""
    mp = {}
    for a in rec_atoms(e):
        sys, comp, idx = a.a
        d = idx - sys.start
        if d.is_const() and -1 <= d.cval() <= depth and d.cval().denominator == 1:
            mp[a.id] = rec_unfold(sys, comp, int(d.cval()))
    if not mp:
        return e
    return repl_atoms(e, mp)


def rec_unfold(sys, comp, n):
    vals = list(sys.inits)
    for k in range(n + 1):
        vals = [step(sys, u, vals, sys.start + k) for u in sys.updates]
    return vals[comp]


def step(sys, upd, vals, idx):
    mp = {X.prev_atom(k).id: v for k, v in enumerate(vals)}
    x = repl_atoms(upd, mp)
    return X.subst(x, {X.bound(sys.lev).id: idx})


def _leaf_same(x, y):
    if x is y:
        return True
    if isinstance(x, bool) or isinstance(y, bool):
        return X.num(x) == X.num(y) if isinstance(X.num(x), Rat) and isinstance(X.num(y), Rat) else False
    if isinstance(x, Rat) and isinstance(y, Rat):
        if x == y:
            return True
        return (x.n * y.d - y.n * x.d).is_zero()
    return False


def equal(a, b, rows=()):
    if a is b:
        return True
    return not diffs(a, b, rows, limit=1)


# ------------------------------------------------------------------ canonical bodies
_CB = {}
_CBUCKET = {}


def support(e):
    """names of inputs, kinds of nested things and free symbols, used to index candidates."""
    s = set(e.free)
    seen = set()

    def atom(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == "in":
            s.add(a.a[0])
        elif a.kind == "agg":
            walk(a.a[1])
        elif a.kind == "fill":
            walk(a.a[1])
        elif a.kind == "rec":
            for u in a.a[0].updates:
                walk(u)
        elif a.kind == "fn":
            for r in a.a[1:]:
                if isinstance(r, Rat):
                    for i in r.atoms():
                        atom(ATOMS[i])

    sx = set()

    def walk(e):
        if e.id in sx:
            return
        sx.add(e.id)
        if e.leaf:
            if isinstance(e.v, Rat):
                for i in e.v.atoms():
                    atom(ATOMS[i])
        else:
            p = e.pred
            if p.kind == "bool":
                atom(p.p)
            else:
                q = p.p
                for i in q.atoms():
                    atom(ATOMS[i])
            for k in e.kids:
                walk(k)
    walk(e)
    return s


def canon_body(e, lev):
    """representative of the class of bodies equal to e for all bars."""
    k = (e.id, lev)
    r = _CB.get(k)
    if r is not None:
        return r
    sup = frozenset(x for x in support(e) if isinstance(x, str)) | frozenset(e.free)
    b = _CBUCKET.setdefault((lev, sup), [])
    r = None
    for c in b:
        if c is e:
            r = c
            break
        if c.leaf and e.leaf:
            continue
        try:
            if equal(c, e):
                r = c
                break
        except NotUnderstood:
            continue
    if r is None:
        b.append(e)
        r = e
    _CB[k] = r
    return r


# ------------------------------------------------------------------ recurrences
def prevs_of(e):
    """component numbers read by an update."""
    out = set()
    seen = set()

    def atoms(ids):
        for i in ids:
            a = ATOMS[i]
            if a.kind == "prev":
                out.add(a.a[0])
            elif a.kind == "fn":
                for r in a.a[1:]:
                    if isinstance(r, Rat):
                        atoms(r.atoms())
            elif a.kind in ("agg", "fill"):
                for k in prevs_of(a.a[1]):
                    out.add(k)

    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            if isinstance(x.v, Rat):
                atoms(x.v.atoms())
        else:
            p = x.pred
            if p.kind == "bool":
                atoms([p.p.id])
            elif p.kind == "na":
                atoms(p.p.atoms())
            else:
                atoms(p.p.atoms())
            st.extend(x.kids)
    return out


class Loop:
    """A system before normalisation: names -> (init, update in t and prev symbols)."""

    def __init__(self, start):
        self.start = start
        self.init = {}
        self.upd = {}
        self.before = {}        # closed forms: value before iteration t
        self.after = {}


def solve(start, inits, updates, bools):
    """Closed forms where possible, otherwise recurrences.

    inits: list of E (no t); updates: list of E in t with atoms prev{k}.  Returns list of E: value after iteration t (t >= start),
    to be used only for rows t >= start."""
    n = len(updates)
    U = list(updates)
    ctx = (X.TP - start,)
    after = [None] * n
    active = set(range(n))
    for _ in range(n + 2):
        changed = False
        for k in sorted(active):
            U[k] = X.restrict_rows(U[k], ctx)
            cf = _closed(k, U[k], inits[k], start)
            if cf is None:
                continue
            bef, aft = cf
            active.discard(k)
            after[k] = aft
            mp = {X.prev_atom(k).id: bef}
            for j in range(n):
                if j in active or j == k:
                    if expr_mentions(U[j], mp.keys()):
                        if _under_binder(U[j], k):
                            raise NotUnderstood("loop state inside an aggregate")
                        U[j] = X.restrict_rows(repl_atoms(U[j], mp), ctx)
            for j in range(n):
                if after[j] is not None and expr_mentions(after[j], mp.keys()):
                    after[j] = repl_atoms(after[j], mp)
            changed = True
        if not changed:
            break
    for k in sorted(active):
        after[k] = _rec_value(k, start, inits, U, bools)
    # closed forms may still mention recurrent states
    live = {X.prev_atom(k).id: None for k in active}
    for k in range(n):
        if after[k] is not None and expr_mentions(after[k], live.keys()):
            mp = {}
            for j in active:
                mp[X.prev_atom(j).id] = _before(after[j], inits[j], start)
            after[k] = repl_atoms(after[k], mp)
    return after


def _before(aft, init, start):
    """value before iteration t from the value after iteration t."""
    prevrow = X.shift_rows(aft, Poly.const(1))
    at0 = X.subst(prevrow, {X.T.id: start})
    at0 = unfold(at0)
    if at0 is init:
        return prevrow
    return X.row(X.TP - start - 1, prevrow, init)


def _under_binder(e, k):
    """does prev{k} occur inside an aggregate or fill body?"""
    pid = X.prev_atom(k).id
    for l in X.leaves(e):
        if isinstance(l.v, Rat):
            for i in l.v.atoms():
                a = ATOMS[i]
                if a.kind in ("agg", "fill") and expr_mentions(a.a[1], (pid,)):
                    return True
    return False


def _closed(k, u, init, start):
    """(before, after) closed forms of a component whose update needs no recurrence."""
    ps = prevs_of(u)
    if not ps:
        # plain function of the row
        return _before(u, init, start), u
    if ps != {k}:
        return None
    pa = X.prev_atom(k)
    # affine counter
    if u.leaf and isinstance(u.v, Rat):
        d = u.v - Rat.atom(pa)
        if X.T.id not in X._free_poly(d.n) | X._free_poly(d.d) and not _rat_has(d, pa.id):
            i = init
            steps = Rat(X.TP - start, ONE)
            bef = X.add(i, leaf(d * steps))
            return bef, X.add(bef, leaf(d))
    # accumulator: prev + f(row)
    pe = leaf(Rat.atom(pa))
    try:
        d = X.sub(u, pe) if not X.is_bool(u) else None
    except NotUnderstood:
        d = None
    if d is not None and not prevs_of(d) and not any(l.v is X.NAN or l.v is X.INF for l in X.leaves(d)):
        d = X.restrict_rows(d, (X.TP - start,))
        bef = X.add(init, X.agg("sum", d, start, X.TP))
        return bef, X.add(init, X.agg("sum", d, start, X.TP + 1))
    # latch: keeps prev until row s, then a constant
    keep = _is_prev(u, pa)
    x = u
    conds = []
    while not x.leaf:
        if x.pred.kind != "row":
            return None
        a, b = x.kids
        if _is_prev(a, pa):
            conds.append((x.pred.p, True))
            x = b
        elif _is_prev(b, pa):
            conds.append((-x.pred.p - 1, True))
            x = a
        else:
            return None
    if x.leaf and (isinstance(x.v, bool) or (isinstance(x.v, Rat) and x.v.is_const())) and conds:
        v = x
        # all conditions must be monotone t >= s
        aft = v
        for p, _ in conds:
            c = p.coeff_split(X.T.id)
            if c.get(1) != ONE:
                return None
            aft = X.row(p, aft, init)
        bef = v
        for p, _ in conds:
            bef = X.row(X.subst_poly_scalar(p, {X.T.id: X.TP - 1}), bef, init)
        return bef, aft
    return None


def _is_prev(e, pa):
    if e.leaf:
        return isinstance(e.v, Rat) and e.v == Rat.atom(pa)
    return e.pred.kind == "bool" and e.pred.p is pa and e.kids[0] is LF and e.kids[1] is LT


def _rat_has(r, i):
    return i in r.atoms()


def _rec_value(k, start, inits, U, bools):
    """value after iteration t of component k as a canonical recurrence (with peeled first rows)."""
    comps = []

    def visit(c):
        if c in comps:
            return
        comps.append(c)
        for j in _ordered_prevs(U[c]):
            visit(j)
    visit(k)
    ren = {c: i for i, c in enumerate(comps)}
    mp = {}
    for c in comps:
        if bools[c]:
            mp[X.prev_atom(c).id] = node(X.mk_pred("bool", X.mk_atom("prev", ren[c])), (LF, LT))
        else:
            mp[X.prev_atom(c).id] = leaf(Rat.atom(X.mk_atom("prev", ren[c])))
    upd = [repl_atoms(U[c], mp) for c in comps]
    ini = [inits[c] for c in comps]
    bl = [bools[c] for c in comps]
    # peel rows before the last row threshold when they need no previous state
    start2, ini2, early = _peel(start, ini, upd)
    upd2 = [X.restrict_rows(u, (X.TP - start2,)) for u in upd]
    if start2 != start and len(comps) > 1:
        # the peeled rows may have removed dependencies
        pass
    lev = max([u.level for u in upd2] + [i.level for i in ini2] + [0])
    tb = {X.T.id: Poly.atom(X.bound(lev))}
    v = mk_rec(start2, ini2, [X.subst(u, tb) for u in upd2], lev, bl)
    if start2 == start:
        return v
    return X.row(X.TP - start2, v, early[0])


def _ordered_prevs(e):
    return sorted(prevs_of(e))


def _peel(start, ini, upd):
    """If the updates are guarded by t >= c (c > start) and need no previous state before c, start the recurrence at c."""
    ths = []
    for u in upd:
        for p in X.preds(u):
            if p.kind == "row" and X.T.id in p.free:
                c = p.p.coeff_split(X.T.id)
                if c.get(1) == ONE and set(c) <= {0, 1}:
                    s = -(c.get(0, ZERO))
                    if X.row_decide(s - start - 1) is True or X.row_decide(start - s) is not True:
                        ths.append(s)
    if not ths:
        return start, ini, None
    top = ths[0]
    for s in ths[1:]:
        if X.row_decide(s - top) is True:
            top = s
        elif X.row_decide(top - s) is not True:
            return start, ini, None
    early = [X.restrict_rows(u, (X.TP - start, top - 1 - X.TP)) for u in upd]
    if any(prevs_of(e) for e in early):
        # maybe only the last early row matters
        return start, ini, None
    last = [X.subst(e, {X.T.id: top - 1}) for e in early]
    # row top-1 must exist as an iteration (top-1 >= start), else the inits stay
    return top, last, early


def mk_rec(start, inits, updates, lev, bools, idx=None):
    """component 0 at row idx of a recurrence, with the row counter shifted so that the latest input row used is the counter."""
    idx = X.TP if idx is None else idx
    u = X.bound(lev)
    best = None
    for x in updates:
        for c in X._row_offsets(x, u.id):
            if best is None or X.row_decide(c - best) is True:
                best = c
    if best is not None and not best.is_zero() and (X.row_decide(-best) is True or not any(X.N.id in x.free for x in updates)):
        mp = {u.id: Poly.atom(u) - best}
        updates = [X.subst(x, mp) for x in updates]
        start, idx = start + best, idx + best
    return X.rec_at(canon_rec(X.RecSys.make(start, inits, updates, lev, bools)), 0, idx)


_RECS = {}


def canon_rec(s):
    """an already known system equal to s (bisimulation up to renaming of components), or s itself."""
    key = s.id
    r = _RECS.get(("c", key))
    if r is not None:
        return r
    sup = set()
    for u in s.updates:
        sup |= {x for x in support(u) if isinstance(x, str)}
    bk = (len(s.updates), tuple(sorted(s.bools)), s.bools[0], frozenset(sup), s.free)
    b = _RECS.setdefault(("b", bk), [])
    r = None
    for c in b:
        if c is s or rec_equal(c, s):
            r = c
            break
    if r is None:
        b.append(s)
        r = s
    _RECS[("c", key)] = r
    return r


def rolled(s, n):
    ini = list(s.inits)
    st = s.start
    for _ in range(n):
        ini = [step(s, u, ini, st) for u in s.updates]
        st = st + 1
    return st, ini


def rec_equal(a, b, collect=None):
    """component 0 of a and b equal on their common rows."""
    d = b.start - a.start
    if not d.is_const() or abs(d.cval()) > 3 or d.cval().denominator != 1:
        return False
    d = int(d.cval())
    sa, ia = rolled(a, max(d, 0))
    sb, ib = rolled(b, max(-d, 0))
    n = len(a.updates)
    import itertools
    others = list(range(1, n))
    for perm in itertools.permutations(others):
        m = (0,) + perm            # a's comp i <-> b's comp m[i]
        if any(a.bools[i] != b.bools[m[i]] for i in range(n)):
            continue
        try:
            if not all(equal(ia[i], ib[m[i]]) for i in range(n)):
                continue
            if all(equal(a_upd(a, i), b_upd(b, m, i, a.lev), (Poly.atom(X.bound(a.lev)) - sa,)) for i in range(n)):
                return True
        except NotUnderstood:
            continue
    return False


def a_upd(a, i):
    return a.updates[i]


def b_upd(b, m, i, lev):
    """b's update of component m[i], renamed into a's numbering and binder level."""
    mp = {}
    for x, y in enumerate(m):
        pa = X.mk_atom("prev", y)
        if b.bools[y]:
            mp[pa.id] = node(X.mk_pred("bool", X.mk_atom("prev", x)), (LF, LT))
        else:
            mp[pa.id] = leaf(Rat.atom(X.mk_atom("prev", x)))
    u = repl_atoms(b.updates[m[i]], mp)
    if b.lev != lev:
        u = X.subst(u, {X.bound(b.lev).id: Poly.atom(X.bound(lev))})
    return u


# ------------------------------------------------------------------ facts pushed into bodies (short histories)
def _lin(p):
    d = {}
    c = Fraction(0)
    for m, k in p.d.items():
        if not m:
            c = k
        else:
            d[m] = k
    return d, c


def decide_rows(p, facts):
    """like row_decide, with every consequence of the linear facts."""
    d = X.row_decide(p, facts)
    if d is not None:
        return d
    import linear
    rows = []
    syms = set()
    for q in facts + (p,):
        syms |= q.atoms()
    for q in facts:
        f, c = _lin(q)
        rows.append((f, c, ">="))
    for i in syms:
        a = ATOMS[i]
        if a.kind != "sym":
            continue
        if a.a[2] is not None:
            rows.append(({((i, 1),): Fraction(1)}, Fraction(-a.a[2]), ">="))
        if a.a[1] == "row":
            rows.append(({((X.N.id, 1),): Fraction(1), ((i, 1),): Fraction(-1)}, Fraction(-1), ">="))
    rows.append(({((X.N.id, 1),): Fraction(1)}, Fraction(-1), ">="))
    f, c = _lin(p)
    if not linear.feasible(rows + [(f, c + 1, "<=")]):
        return True
    if not linear.feasible(rows + [(f, c, ">=")]):
        return False
    return None


_DEEP = {}


def deep(e, facts=()):
    """e with every row guard, also inside windows, fills and recurrences, decided where the facts decide it."""
    key = (e.id, facts)
    r = _DEEP.get(key)
    if r is not None:
        return r
    if e.leaf:
        r = e
        if isinstance(e.v, Rat):
            mp = _deep_atoms(e.v.atoms(), facts)
            if mp:
                r = repl_atoms(e, mp)
    elif e.pred.kind == "row":
        d = decide_rows(e.pred.p, facts)
        if d is not None:
            r = deep(e.kids[1 if d else 0], facts)
        else:
            r = X.row(e.pred.p, deep(e.kids[1], X._ctx_add(facts, e.pred.p)), deep(e.kids[0], X._ctx_add(facts, -e.pred.p - 1)))
    else:
        kids = [deep(k, facts) for k in e.kids]
        r = X.ite_pred(e.pred, kids)
        p = e.pred
        at = {p.p.id} if p.kind == "bool" else p.p.atoms()
        mp = _deep_atoms(at, facts)
        if mp:
            r = repl_atoms(r, mp)
    _DEEP[key] = r
    return r


def _deep_atoms(ids, facts):
    mp = {}
    for i in ids:
        a = ATOMS[i]
        n = None
        if a.kind == "agg":
            kind, body, lo, hi, lev = a.a
            u = Poly.atom(X.bound(lev))
            b2 = deep(body, tuple(X._ctx_norm(facts + (u - lo, hi - 1 - u))))
            if b2 is not body:
                n = X.agg_raw(kind, b2, lev, lo, hi)
        elif a.kind == "fill":
            mode, body, idx, lev = a.a
            u = Poly.atom(X.bound(lev))
            fs = (u, idx - u) if mode == "ffill" else (u - idx, X.NP_ - 1 - u)
            b2 = deep(body, tuple(X._ctx_norm(tuple(f for f in facts if X.T.id not in f.atoms()) + fs)))
            if b2 is not body:
                n = X.LNAN if b2 is X.LNAN else X.mk_fill(mode, b2, idx, lev)
        elif a.kind == "fn":
            args = []
            ch = False
            for x in a.a[1:]:
                y = deep(leaf(x), facts) if isinstance(x, Rat) else None
                if y is not None and y is not leaf(x):
                    ch = True
                args.append(y)
            if ch and len(args) == 1:
                n = X.clean(args[0]) if a.a[0] == "finite" else (X.clean_half(args[0], a.a[0] == X.HALVES[0])
                                                                 if a.a[0] in X.HALVES else X.fn1(a.a[0], args[0]))
        if n is not None:
            mp[i] = n
    return mp
