"""Random interpretation: evaluates value graphs (never the analysed program) on admissible histories.

Used to confirm a structural mismatch before it is reported, and to classify it."""
import random
import os
from fractions import Fraction as F
import evalg as G
import expr as X
from expr import NAN, INF, NotUnderstood
import spec

PRICES = ("open", "high", "low", "close")
SEED = 20240


def _bar(rng, prev, mode):
    if mode == "generic":
        c = prev + rng.choice([-1, 1]) * F(rng.randint(1, 300), 37)
        if c < 5:
            c = prev + F(rng.randint(1, 300), 37)
        h = c + F(rng.randint(1, 200), 41)
        l = c - F(rng.randint(1, 200), 43)
        if l <= 0:
            l = c / 2
        o = l + (h - l) * F(rng.randint(1, 9), 10)
        return o, h, l, c, F(rng.randint(10, 5000), 7)
    if mode == "grid":          # many ties
        c = max(F(4), prev + rng.choice([-1, 0, 0, 1, 2, -2]))
        h = c + rng.choice([0, 0, 1, 2])
        l = c - rng.choice([0, 0, 1, 2])
        return l, h, l, c, F(rng.choice([0, 1, 1, 2, 5]))
    if mode == "flat":          # long stretches without range or change
        if rng.random() < 0.7:
            return prev, prev, prev, prev, F(rng.choice([3, 3, 4, 0]))
        c = max(F(4), prev + rng.choice([-3, 2, 1]))
        return c, c + rng.choice([0, 1]), c, c, F(rng.choice([3, 5, 0]))
    if mode == "up":
        c = prev + F(rng.randint(1, 60), 7)
        return c, c + F(rng.randint(0, 20), 9), c - F(rng.randint(0, 5), 9), c, F(rng.randint(1, 50))
    if mode == "down":
        c = prev * F(rng.randint(85, 99), 100)
        return c, c + F(rng.randint(0, 20), 9), c * F(98, 100), c, F(rng.randint(1, 50))
    if mode == "swing":         # trends that turn: crossings, reversals
        k = getattr(rng, "leg", 0)
        if k == 0:
            rng.leg = rng.randint(2, 7) * rng.choice([-1, 1])
            k = rng.leg
        s = 1 if k > 0 else -1
        rng.leg -= s
        c = prev + s * F(rng.randint(3, 60), 7)
        if c < 20:
            c = prev + F(rng.randint(3, 60), 7)
        return c, c + F(rng.randint(1, 40), 9), c - F(rng.randint(1, 40), 9), c, F(rng.randint(1, 90))
    if mode == "zero":          # nothing traded at first, then prices from 0
        k = getattr(rng, "leg", 0)
        rng.leg = k + 1
        if k < 4 or (k > 9 and rng.random() < 0.15):
            return F(0), F(0), F(0), F(0), F(0)
        c = F(rng.randint(0, 40), 7)
        return c, c + F(rng.randint(0, 20), 9), c * F(1, 2), c, F(rng.choice([0, 2, 9]))
    if mode == "hole":          # single bars at price 0, in mid-history
        c = F(rng.randint(300, 4000), 37)
        if rng.random() < 0.2:
            return F(0), F(0), F(0), F(0), F(rng.choice([0, 5, 90]))
        return c, c * F(rng.randint(10, 15), 10), c * F(rng.choice([0, 7, 8, 9]), 10), c, F(rng.randint(1, 90), 7)
    if mode == "jump":          # changes of several hundred percent, both ways
        c = prev * rng.choice([F(1, 9), F(2, 5), F(9, 10), F(11, 10), F(5, 2), F(7)])
        if c < F(1, 4) or c > 40000:
            c = F(rng.randint(60, 140))
        return c, c * F(rng.randint(10, 25), 10), c * F(rng.randint(3, 10), 10), c, F(rng.choice([1, 7, 300, 90000]), 3)
    raise KeyError(mode)


# scaled copies of the other modes: prices and volumes far from the usual size
SCALED = {"cent": ("generic", F(1, 10 ** 5), F(1, 10 ** 4)), "dust": ("swing", F(1, 10 ** 12), F(1, 10 ** 15)),
          "large": ("generic", F(10 ** 4), F(10 ** 6)), "unit": ("swing", F(1, 200), F(1, 10 ** 9))}

MODES = ("generic", "generic", "swing", "grid", "flat", "generic", "up", "down", "swing", "grid", "zero", "jump", "cent", "dust",
         "unit", "large", "hole")
DEGENERATE = ("grid", "flat", "up", "down", "zero")


# sizes that conditions of the analysed code compare against, per class
AIMS = {}
_SEEN = set()


def thresholds(e, out, seen):
    """(cell, size) for constants that data is compared with anywhere in a diagram."""
    todo = [e]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            if isinstance(x.v, X.Rat):
                for a in _inside(x.v.n) + _inside(x.v.d):
                    _parts(a, todo)
            continue
        todo += x.kids
        p = x.pred
        if p.kind == "bool":
            _parts(p.p, todo)
        elif p.kind == "na":
            for a in _inside(p.p.n) + _inside(p.p.d):
                _parts(a, todo)
        elif p.kind == "sign":
            for a in _inside(p.p):
                _parts(a, todo)
            c = p.p.d.get(())
            for m, k in p.p.d.items():
                if not m or not c or len(m) != 1:
                    continue
                cells = set()
                _cells(X.ATOMS[m[0][0]], cells, set())
                if cells and (cells == {"volume"} or "volume" not in cells):
                    r = abs(F(c) / F(k))
                    if m[0][1] == 2:
                        r = F(float(r) ** 0.5).limit_denominator(10 ** 6)
                    if F(1, 10 ** 18) < r < 10 ** 18:
                        out.add(("volume" if cells == {"volume"} else "price", r))


def _inside(p):
    return [X.ATOMS[i] for i in p.atoms()]


def _parts(a, todo):
    if a.kind in ("agg", "fill"):
        todo.append(a.a[1])
    elif a.kind == "rec":
        todo += list(a.a[0].inits) + list(a.a[0].updates)
    elif a.kind == "fn":
        for r in a.a[1:]:
            if isinstance(r, X.Rat):
                for b in _inside(r.n) + _inside(r.d):
                    _parts(b, todo)


def _cells(a, out, seen):
    if a.id in seen:
        return
    seen.add(a.id)
    if a.kind == "in":
        out.add(a.a[0])
        return
    todo = []
    _parts(a, todo)
    es = set()
    while todo:
        x = todo.pop()
        if x.id in es:
            continue
        es.add(x.id)
        todo += x.kids
        if x.leaf:
            if isinstance(x.v, X.Rat):
                for b in _inside(x.v.n) + _inside(x.v.d):
                    _cells(b, out, seen)
        elif x.pred.kind == "sign":
            for b in _inside(x.pred.p):
                _cells(b, out, seen)
    if a.kind == "fn":
        for r in a.a[1:]:
            if isinstance(r, X.Rat):
                for b in _inside(r.n) + _inside(r.d):
                    _cells(b, out, seen)


def learn(kinds, cases):
    """remember the sizes the conditions of these results speak about; histories of that size are then drawn too."""
    out = set()
    seen = set()
    for c in cases:
        try:
            for e in [getattr(c, "value", None)] + [v.guard for v in c.events]:
                if isinstance(e, X.E) and (id(kinds), e.id) not in _SEEN:
                    _SEEN.add((id(kinds), e.id))
                    thresholds(e, out, seen)
        except (AttributeError, TypeError, KeyError, OverflowError):
            pass
    cur = AIMS.setdefault(id(kinds), [])
    for cell, r in sorted(out):
        if F(1, 20) <= r <= 20 or len(cur) >= 12:
            continue
        typ = F(300) if cell == "volume" else F(100)
        for q in (r / typ, r / (typ * 2)):
            m = ("generic", 1, q) if cell == "volume" else ("generic", q, 1)
            if m not in cur:
                cur.append(m)


class Data:
    def __init__(self, cells, params, n, mode, k):
        self.cells, self.params, self.n, self.mode, self.k = cells, params, n, mode, k

    @property
    def generic(self):
        return self.mode in ("generic", "swing", "jump", "sized") or self.mode in SCALED

    def env(self, n=None, params=None, cells=None):
        e = G.Env(cells or self.cells, {k: F(v) for k, v in (params or self.params).items() if not isinstance(v, bool)
                                        and v is not None}, n or self.n)
        e.scale = float(SCALED[self.mode][1]) if self.mode in SCALED else min(1.0, float(getattr(self, "size", 1)))
        return e

    def show(self, t=None):
        ps = ", ".join("%s=%s" % (k, v) for k, v in sorted(self.params.items()))
        s = "history #%d (%s, %d bars)" % (self.k, self.mode, self.n)
        if ps:
            s += " with " + ps
        if t is not None:
            s += ", row %d" % t
        return s


def params_for(rng, kinds, opts, tiny=False):
    ps = {}
    used = []
    for n, k in kinds:
        if k in ("int", "int0") or (k == "optint" and opts.get(n) is not None):
            lo = 0 if k == "int0" else 1
            v = rng.randint(lo, 3 if tiny else 6)
            if not tiny:
                for _ in range(4):
                    if v in used:
                        v = rng.randint(lo, 7)
            used.append(v)
            ps[n] = v
        elif k == "real":
            ps[n] = None
        elif k == "optint":
            ps[n] = None
    reals = [n for n, k in kinds if k == "real"]
    if reals == ["step", "max_step"]:
        ps["step"], ps["max_step"] = rng.choice([(F(1, 50), F(1, 5)), (F(1, 10), F(1, 4)), (F(1, 5), F(1, 2)),
                                                 (F(1, 25), F(1, 10)), (F(3, 20), F(3, 20))])
    else:
        for n in reals:
            ps[n] = rng.choice([F(1, 2), F(1), F(3, 2), F(2), F(3), F(5, 2), F(7, 4), F(3, 200)])
    return ps


def data(kinds, opts, k, modes=None, n=None, ints=None):
    rng = random.Random(SEED * 1009 + k * 7919 + int(os.environ.get("VERIF_SEED", "1") or 1))
    rng.leg = 0
    modes = modes or MODES
    mode = modes[k % len(modes)]
    m = rng.choice([26, 18, 30, 22]) if k % 5 else rng.choice([1, 2, 3, 5, 8, 12])
    n = m if n is None else n
    cells = {c: [] for c in PRICES + ("volume",)}
    prev = F(rng.randint(60, 140))
    base, ps_, vs_ = SCALED.get(mode, (mode, 1, 1))
    aims = AIMS.get(id(kinds)) if modes is MODES else None
    if aims and k % 3 == 1:
        mode = "sized"
        base, ps_, vs_ = aims[(k // 3) % len(aims)]
    for i in range(n):
        o, h, l, c, v = _bar(rng, prev, base)
        for nm, x in zip(PRICES + ("volume",), (o, h, l, c, v)):
            x = x * (vs_ if nm == "volume" else ps_)
            cells[nm].append(x if n <= 60 else float(x))
        prev = c if c < 10 ** 6 else F(100)
    ps = params_for(rng, kinds, opts, k % 3 == 2)
    if ints:
        ps.update(ints)
    r = Data(cells, ps, n, mode, k)
    if mode == "sized":
        r.size = ps_
    return r


def holds(facts, env):
    return all(G.pv(p, env, {}) >= 0 for p in facts)


def pick(cases, env):
    for c in cases:
        if holds(c.facts, env):
            return c
    return None


def series(cases, env, which="value"):
    """values of the result on one history, or None when the graph does not describe it."""
    c = pick(cases, env)
    if c is None or c.error:
        return None
    e = getattr(c, which)
    if e is None:
        return None
    n = env.n
    if which == "value" and getattr(c, "res", None) is not None:
        n = int(G.pv(c.res.length, env, {}))
    return G.series(e, env, n)


def same(a, b):
    return G.same(a, b)


def undef(v):
    return v is NAN or v is INF


def show(v):
    if v is NAN or v is INF or isinstance(v, bool):
        return str(v)
    return "%.10g" % float(v)
