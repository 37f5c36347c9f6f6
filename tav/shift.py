"""How a value graph moves when one constant is added to every price: polynomial coefficients of that constant."""
from fractions import Fraction as F
import itertools
import expr as X
from expr import NAN, INF
from poly import Poly, Rat, ATOMS, ONE, ZERO, RZERO, RONE

NOT = None


class Bad(Exception):
    pass


def trim(cs):
    cs = list(cs)
    while len(cs) > 1 and cs[-1].n.is_zero():
        cs.pop()
    return cs


def madd(a, b):
    return trim([(a[i] if i < len(a) else RZERO) + (b[i] if i < len(b) else RZERO) for i in range(max(len(a), len(b)))])


def mmul(a, b):
    out = [RZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return trim(out)


class Shift:
    def __init__(self, prices):
        self.prices = set(prices)
        self.memo = {}
        self.recs = {}
        self.checked = 0

    # a constant weight per leaf
    def weight(self, e, prev, want=None):
        """w with e(prices + C) = e + w*C on every row; None when the graph has no defined value."""
        key = ("w", e.id, prev)
        if key in self.memo:
            return self.memo[key]
        self.checked += 1
        if e.leaf:
            r = self.leaf_weight(e.v, prev)
        else:
            self.guard(e.pred, prev)
            r = None
            for k in e.kids:
                w = self.weight(k, prev)
                if w is None:
                    continue
                if r is not None and r != w:
                    raise Bad("one branch moves by %s times the offset, another by %s" % (r, w))
                r = w
        self.memo[key] = r
        return r

    def leaf_weight(self, v, prev):
        if v is NAN or v is INF:
            return None
        if isinstance(v, bool):
            return F(0)
        cs = self.rat(v, prev)
        if len(cs) == 1:
            return F(0)
        if len(cs) == 2 and cs[1].is_const():
            return F(cs[1].cval())
        raise Bad("%s does not move by a constant" % cut(repr(v)))

    def guard(self, p, prev):
        if p.kind == "row":
            return
        if p.kind == "sign":
            if len(self.poly(p.p, prev)) > 1:
                raise Bad("the comparison of %s with 0 depends on the price level" % cut(X.show_idx(p.p)))
        elif p.kind == "bool":
            if p.p.kind == "rec":
                self.rec(p.p.a[0], prev)
        else:
            self.rat(p.p, prev)

    def rat(self, v, prev):
        key = ("r", v, prev)
        if key in self.memo:
            return self.memo[key]
        n = self.poly(v.n, prev)
        d = self.poly(v.d, prev)
        if len(d) == 1:
            r = trim([x / d[0] for x in n])
        else:
            # n(C)/d(C) = n/d + w C
            r = None
            q = Rat(v.n, ONE) / Rat(v.d, ONE)
            for w in (F(0), F(1), F(-1)):
                rhs = mmul(d, [q, Rat.const(w)])
                if all(x.n.is_zero() for x in madd(n, [-x for x in rhs])):
                    r = trim([q, Rat.const(w)])
                    break
            if r is None:
                raise Bad("the ratio %s depends on the price level" % cut(repr(v)))
        self.memo[key] = r
        return r

    def poly(self, p, prev):
        tot = [RZERO]
        for m, c in p.d.items():
            t = [Rat.const(c)]
            for i, k in m:
                a = self.atom(ATOMS[i], prev)
                for _ in range(k):
                    t = mmul(t, a)
            tot = madd(tot, t)
        return tot

    def atom(self, a, prev):
        key = ("a", a.id, prev)
        if key not in self.memo:
            self.memo[key] = self.atom2(a, prev)
        return self.memo[key]

    def atom2(self, a, prev):
        k = a.kind
        me = Rat.atom(a)
        if k == "sym":
            return [me]
        if k == "in":
            return [me, RONE] if a.a[0] in self.prices else [me]
        if k == "prev":
            w = prev[a.a[0]]
            return [me] if not w else [me, Rat.const(w)]
        if k == "agg":
            kind, body, lo, hi, lev = a.a
            if kind == "sum":
                return self.total(a, prev)
            w = self.weight(body, prev)
            if kind in ("max", "min") or kind.startswith("q:"):
                return [me] if not w else [me, Rat.const(w)]
            if kind in ("argmax", "argmin", "count"):
                return [me]
            if kind == "prod" and not w:
                return [me]
        if k == "rec":
            w = self.rec(a.a[0], prev)[a.a[1]]
            return [me] if not w else [me, Rat.const(w)]
        if k == "fill":
            w = self.weight(a.a[1], prev)
            return [me] if not w else [me, Rat.const(w)]
        if k == "fn":
            cs = [self.rat(x, prev) for x in a.a[1:] if isinstance(x, Rat)]
            if all(len(c) == 1 for c in cs):
                return [me]
            if a.a[0] in ("finite", "finite+", "finite-") and len(cs[0]) == 2 and cs[0][1].is_const():
                return [me, cs[0][1]]
            raise Bad("%s of a quantity that moves with the price level" % a.a[0])
        raise Bad("unknown value")

    def total(self, a, prev):
        kind, body, lo, hi, lev = a.a
        depth = self.coefs(body, prev)
        out = [Rat.atom(a)]
        for k in range(1, depth):
            b = self.pick(body, k, prev)
            e = X.agg_raw("sum", b, lev, lo, hi)
            if not e.leaf or not isinstance(e.v, Rat):
                raise Bad("window sum of unknown shape")
            out.append(e.v)
        return trim(out)

    def coefs(self, e, prev):
        if e.leaf:
            if e.v is NAN or e.v is INF or isinstance(e.v, bool):
                return 1
            return len(self.rat(e.v, prev))
        self.guard(e.pred, prev)
        return max(self.coefs(k, prev) for k in e.kids)

    def pick(self, e, k, prev):
        if e.leaf:
            if e.v is NAN or e.v is INF:
                return e
            if isinstance(e.v, bool):
                return X.L0
            cs = self.rat(e.v, prev)
            return X.leaf(cs[k]) if k < len(cs) else X.L0
        return X.ite_pred(e.pred, [self.pick(c, k, prev) for c in e.kids])

    def rec(self, s, prev):
        key = ("s", s.id, prev)
        if key in self.recs:
            return self.recs[key]
        s = constant_flags(s)
        ini = [F(0) if s.bools[i] else self.weight(x, prev) for i, x in enumerate(s.inits)]
        free = [i for i, w in enumerate(ini) if w is None]
        err = None
        for pick in itertools.islice(itertools.product((F(0), F(1)), repeat=len(free)), 64):
            ws = list(ini)
            for i, w in zip(free, pick):
                ws[i] = w
            ws = tuple(ws)
            try:
                for i, x in enumerate(s.updates):
                    w = self.weight(x, ws)
                    if s.bools[i]:
                        continue
                    if w is not None and w != ws[i]:
                        raise Bad("a running value starts moving by %s times the offset and goes on by %s" % (ws[i], w))
            except Bad as ex:
                err = ex
                continue
            self.recs[key] = ws
            return ws
        raise err


def constant_flags(s):
    """the same recurrence with flags that never change replaced by their initial value in the other components."""
    ups = list(s.updates)
    for i, b in enumerate(s.bools):
        u = ups[i]
        if b and s.inits[i].leaf and not u.leaf and u.pred.kind == "bool" and u.pred.p is X.prev_atom(i) \
                and u.kids[0].leaf and u.kids[0].v is False and u.kids[1].leaf and u.kids[1].v is True:
            pick = 1 if s.inits[i].v is True else 0
            ups = [x if j == i else fix_flag(x, u.pred.p, pick) for j, x in enumerate(ups)]
    if ups == list(s.updates):
        return s
    return X.RecSys.make(s.start, s.inits, ups, s.lev, s.bools)


def fix_flag(e, atom, pick, memo=None):
    memo = {} if memo is None else memo
    if e.leaf:
        return e
    if e.id not in memo:
        if e.pred.kind == "bool" and e.pred.p is atom:
            memo[e.id] = fix_flag(e.kids[pick], atom, pick, memo)
        else:
            memo[e.id] = X.ite_pred(e.pred, [fix_flag(k, atom, pick, memo) for k in e.kids])
    return memo[e.id]


def cut(s, n=80):
    return s if len(s) <= n else s[:n] + "..."
