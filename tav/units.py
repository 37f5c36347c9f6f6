"""Unit inference on value graphs: exponents of price and volume of every term; guards must compare like with like."""
from fractions import Fraction as F
import expr as X
from expr import NAN, INF
from poly import Poly, Rat, ATOMS

ANY = None               # zero or missing: every unit
NONE = (F(0), F(0))


class Bad(Exception):
    """terms of different units meet."""


def add(u, v):
    if u is ANY or v is ANY:
        return ANY
    return (u[0] + v[0], u[1] + v[1])


def neg(u):
    return ANY if u is ANY else (-u[0], -u[1])


def scale(u, k):
    return ANY if u is ANY else (u[0] * k, u[1] * k)


def join(u, v, what):
    if u is ANY:
        return v
    if v is ANY:
        return u
    if u != v:
        raise Bad("%s mixes %s with %s" % (what, show(u), show(v)))
    return u


def show(u):
    if u is ANY:
        return "any unit"
    if u == NONE:
        return "a pure number"
    out = []
    for n, k in zip(("price", "volume"), u):
        if k:
            out.append(n if k == 1 else "%s^%s" % (n, k))
    return "*".join(out)


class Units:
    def __init__(self, cells):
        self.cells = cells          # column -> unit
        self.memo = {}
        self.recs = {}
        self.checked = 0

    def expr(self, e, prev=None):
        key = ("e", e.id, prev)
        if key in self.memo:
            return self.memo[key]
        self.checked += 1
        if e.leaf:
            r = self.value(e.v, prev)
        else:
            p = e.pred
            if p.kind == "sign":
                self.poly(p.p, prev, "the comparison of %s with 0" % cut(X.show_idx(p.p)))
            elif p.kind == "row":
                pass
            elif p.kind == "bool":
                if p.p.kind != "prev":
                    self.atom(p.p, prev)
            else:
                self.value(p.p, prev)
            r = ANY
            for k in e.kids:
                r = join(r, self.expr(k, prev), "a result")
        self.memo[key] = r
        return r

    def value(self, v, prev):
        if v is NAN or v is INF:
            return ANY
        if isinstance(v, bool):
            return NONE
        n = self.poly(v.n, prev, "the sum %s" % cut(X.show_idx(v.n)))
        if v.d.is_const():
            return n
        return add(n, neg(self.poly(v.d, prev, "the sum %s" % cut(X.show_idx(v.d)))))

    def poly(self, p, prev, what):
        if p.is_zero():
            return ANY
        u = ANY
        logs = {}
        any_ = False
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "fn" and ATOMS[m[0][0]].a[0] == "log":
                a = ATOMS[m[0][0]].a[1]
                w = self.value(a, prev) if isinstance(a, Rat) else NONE
                if w is not ANY and w != NONE:
                    logs[w] = logs.get(w, 0) + c
                u = join(u, NONE, what)
                continue
            t = NONE
            for i, k in m:
                w = self.atom(ATOMS[i], prev)
                t = add(t, scale(w, k))
                if w is ANY:
                    t = ANY
                    break
            u = join(u, t, what)
        tot = [F(0), F(0)]
        for w, c in logs.items():
            tot[0] += w[0] * c
            tot[1] += w[1] * c
        if any(tot):
            raise Bad("%s takes the logarithm of a quantity with a unit" % what)
        return u

    def atom(self, a, prev):
        k = a.kind
        if k == "sym":
            return NONE
        if k == "in":
            return self.cells.get(a.a[0], NONE)
        if k == "prev":
            return prev[a.a[0]]
        key = ("a", a.id, prev)
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self.atom2(a, prev)
        return r

    def atom2(self, a, prev):
        k = a.kind
        if k == "agg":
            u = self.expr(a.a[1], prev)
            kind = a.a[0]
            if kind in ("sum", "max", "min") or kind.startswith("q:"):
                return u
            if kind in ("argmax", "argmin", "count"):
                return NONE
            if kind == "prod":
                if u not in (NONE, ANY):
                    raise Bad("a product over rows of %s" % show(u))
                return NONE
        if k == "rec":
            return self.rec(a.a[0], prev)[a.a[1]]
        if k == "fill":
            return self.expr(a.a[1], prev)
        if k == "fn":
            nm = a.a[0]
            us = [self.value(x, prev) for x in a.a[1:] if isinstance(x, Rat)]
            if nm in ("abs", "finite", "finite+", "finite-"):
                return us[0]
            if nm == "imax":
                return NONE
            if nm == "sqrt":
                return scale(us[0], F(1, 2))
            if all(u in (NONE, ANY) for u in us):
                return NONE
            raise Bad("%s of %s" % (nm, ", ".join(show(u) for u in us)))
        raise Bad("unknown value")

    def rec(self, s, prev):
        key = (s.id, prev)
        if key in self.recs:
            return self.recs[key]
        us = [self.expr(x, prev) for x in s.inits]
        for _ in range(len(us) * 2 + 2):
            new = []
            for u, x in zip(us, s.updates):
                new.append(join(u, self.expr(x, tuple(us)), "a running value"))
            if new == us:
                break
            us = new
        self.recs[key] = tuple(us)
        return self.recs[key]


def cut(s, n=70):
    return s if len(s) <= n else s[:n] + "..."
