"""Random interpretation: value of a diagram at one assignment of the inputs.

Used only to confirm a structural difference (or an unproved bound) before it is reported: the diagram, never the analysed
program, is evaluated.  Arithmetic is exact (fractions) except for roots, logarithms and exponentials."""
import math
from fractions import Fraction
from poly import Poly, Rat, ATOMS
import expr as X
from expr import NAN, INF, NotUnderstood


class Env:
    def __init__(self, cells, params, n):
        self.cells, self.params, self.n = cells, params, n
        self.memo = {}
        self.rec = {}
        self.opq = {}
        self.prev = []
        self.steps = 0
        self.scale = 1.0           # size of the prices compared with the usual one
        self.zero = False          # a guard or a denominator was exactly zero

    def sym(self, a, rows):
        if a.id in rows:
            return rows[a.id]
        if a is X.N:
            return self.n
        nm = a.a[0]
        if nm in self.params:
            return self.params[nm]
        raise NotUnderstood("no value for symbol " + nm)


LIMIT = 3000000
_PREV = {}


def uses_prev(todo):
    """does the value depend on the running state of the recurrence it is evaluated in?"""
    seen = set()
    todo = list(todo)
    while todo:
        x = todo.pop()
        if isinstance(x, Poly):
            todo += [ATOMS[i] for i in x.atoms()]
        elif isinstance(x, Rat):
            todo += [x.n, x.d]
        elif isinstance(x, X.E):
            if ("e", x.id) in seen:
                continue
            seen.add(("e", x.id))
            if x.leaf:
                todo.append(x.v)
            else:
                todo += x.kids
                todo.append(x.pred.p)
        elif hasattr(x, "kind") and hasattr(x, "a"):
            if ("a", x.id) in seen:
                continue
            seen.add(("a", x.id))
            if x.kind == "prev":
                return True
            if x.kind == "rec":
                sysm = x.a[0]
                todo += [sysm.start, x.a[2]] + list(sysm.inits)
            elif x.kind != "sym":
                todo += x.a
        elif isinstance(x, (tuple, list)):
            todo += x
    return False


def state(tag, x, env):
    """the part of a memo key that stands for the recurrence being evaluated."""
    if not env.prev:
        return None
    k = (tag, x.id)
    u = _PREV.get(k)
    if u is None:
        if tag == "r":
            u = uses_prev([x.start] + list(x.inits))
        else:
            u = uses_prev([x])
        _PREV[k] = u
    return env.prev[-1] if u else None


def ev(e, env, rows):
    env.steps += 1
    if env.steps > LIMIT:
        raise NotUnderstood("evaluation budget")
    key = (e.id, tuple(sorted((k, v) for k, v in rows.items() if k in e.free)), state("e", e, env))
    m = env.memo
    if key in m:
        return m[key]
    x = e
    while not x.leaf:
        p = x.pred
        if p.kind == "row":
            i = 1 if pv(p.p, env, rows) >= 0 else 0
        elif p.kind == "sign":
            v = pv(p.p, env, rows)
            if v is NAN or v is INF:
                x = X.leaf(NAN) if True else x
                break
            if isinstance(v, float) and abs(v) < 1e-9 * max(1.0, env.scale):
                if abs(v) > 1e-9 * min(1.0, env.scale):
                    raise NotUnderstood("sign of a rounded value")
                v = 0
            if v == 0 and not env.zero and not _trivial(p.p, rows):
                env.zero = True
            i = 0 if v < 0 else (1 if v == 0 else 2)
        elif p.kind == "bool":
            v = at(p.p, env, rows)
            i = 1 if v is True or (not isinstance(v, bool) and v is not NAN and v != 0) else 0
        else:
            v = rv(p.p, env, rows)
            i = 1 if v is NAN else 0
        if len(x.kids) == 2 and i == 2:
            i = 1
        x = x.kids[i]
    if isinstance(x.v, Rat):
        r = rv(x.v, env, rows)
    else:
        r = x.v
    m[key] = r
    return r


def _trivial(p, rows):
    """zero for every history (the same cell twice)."""
    try:
        return X.subst_poly_scalar(p, {k: Poly.const(v) for k, v in rows.items()}).is_zero()
    except (NotUnderstood, AttributeError, TypeError):
        return False


def pv(p, env, rows):
    tot = Fraction(0)
    inf = False
    for m, c in p.d.items():
        t = c
        for i, k in m:
            v = at(ATOMS[i], env, rows)
            if v is NAN:
                return NAN
            if v is INF:
                inf = True
                continue
            if v is True or v is False:
                v = int(v)
            try:
                t = t * v ** k
            except (OverflowError, ZeroDivisionError):
                return INF
        tot = tot + t
    if inf:
        return INF
    return tot


def rv(r, env, rows):
    n = pv(r.n, env, rows)
    if r.d.is_const():
        if n is NAN or n is INF:
            return n
        return n / r.d.cval()
    d = pv(r.d, env, rows)
    if n is NAN or d is NAN:
        return NAN
    if n is INF or d is INF:
        if n is INF and d is INF:
            return NAN
        return INF if n is INF else Fraction(0)
    if d == 0 or (isinstance(d, float) and abs(d) < 1e-300):
        env.zero = True
        return NAN if n == 0 else INF
    return n / d


def at(a, env, rows):
    k = a.kind
    if k == "sym":
        return env.sym(a, rows)
    if k == "in":
        i = pv(a.a[1], env, rows)
        c = env.cells[a.a[0]]
        i = int(i)
        if not 0 <= i < len(c):
            raise NotUnderstood("row outside the data: %s" % (X.show_atom(a)))
        return c[i]
    if k == "prev":
        return env.prev[-1][1][a.a[0]]
    key = ("a", a.id, tuple(sorted((q, v) for q, v in rows.items() if q in a.free)), state("a", a, env))
    m = env.memo
    if key in m:
        return m[key]
    r = at2(a, env, rows)
    m[key] = r
    return r


def sign_of_infinity(r, env, rows):
    """+1 or -1 for an infinite quantity; zeros in denominators count as +0."""
    d = pv(r.d, env, rows)
    n = pv(r.n, env, rows)
    if d is INF or d is NAN or n is NAN:
        raise NotUnderstood("sign of an infinity")
    if n is not INF:
        if d != 0:
            raise NotUnderstood("sign of an infinity")
        return 1 if n > 0 else -1
    signs = set()
    for m, c in r.n.d.items():
        s, hit = (1 if c > 0 else -1), False
        for i, k in m:
            b = ATOMS[i]
            v = at(b, env, rows)
            if v is INF:
                hit = True
                if b.kind == "fn" and b.a[0] == "log":
                    t = -1
                elif b.kind == "fn" and b.a[0] in X.HALVES + ("finite", "abs", "sqrt") and isinstance(b.a[1], X.Rat):
                    t = sign_of_infinity(b.a[1], env, rows) if b.a[0] in X.HALVES else 1
                else:
                    raise NotUnderstood("sign of an infinity")
            elif v is NAN or v == 0:
                raise NotUnderstood("sign of an infinity")
            else:
                t = 1 if v > 0 else -1
            s *= t ** k
        if hit:
            signs.add(s)
    if len(signs) != 1:
        raise NotUnderstood("sign of an infinity")
    return signs.pop() * (1 if d >= 0 else -1)


def at2(a, env, rows):
    k = a.kind
    if k == "agg":
        kind, body, lo, hi, lev = a.a
        lo, hi = int(pv(lo, env, rows)), int(pv(hi, env, rows))
        u = X.bound(lev).id
        vals = []
        for i in range(lo, hi):
            r2 = dict(rows)
            r2[u] = i
            v = ev(body, env, r2)
            if v is True or v is False:
                v = int(v)
            vals.append(v)
        if any(v is NAN for v in vals):
            return NAN
        if any(v is INF for v in vals):
            return INF if kind == "sum" and X.T.id not in X._free_poly(a.a[2]) else NAN
        if kind == "sum":
            return sum(vals, Fraction(0))
        if kind == "count":
            return Fraction(len(vals))
        if kind == "prod":
            r = Fraction(1)
            for v in vals:
                r *= v
            return r
        if not vals:
            return NAN
        if kind == "max":
            return max(vals)
        if kind == "min":
            return min(vals)
        if kind == "argmax":
            return Fraction(vals.index(max(vals)))
        if kind == "argmin":
            return Fraction(vals.index(min(vals)))
        if kind.startswith("q:"):
            vals.sort()
            p = Fraction(kind[2:]) * (len(vals) - 1)
            i = p.numerator // p.denominator
            lo_ = vals[i]
            return lo_ if p == i else lo_ + (vals[i + 1] - lo_) * (p - i)
        raise NotUnderstood("aggregate " + kind)
    if k == "rec":
        sysm, comp, idx = a.a
        idx = int(pv(idx, env, rows))
        s = int(pv(sysm.start, env, rows))
        if idx < s - 1:
            raise NotUnderstood("recurrence read before its start")
        ck = (sysm.id, tuple(sorted((q, v) for q, v in rows.items() if q in sysm.free)), state("r", sysm, env))
        tab = env.rec.get(ck)
        if tab is None:
            tab = env.rec[ck] = [tuple(ev(x, env, rows) for x in sysm.inits)]
        u = X.bound(sysm.lev).id
        while len(tab) < idx - s + 2:
            i = s + len(tab) - 1
            r2 = dict(rows)
            r2[u] = i
            env.prev.append((ck + (i,), tab[-1]))
            try:
                tab.append(tuple(ev(x, env, r2) for x in sysm.updates))
            finally:
                env.prev.pop()
        return tab[idx - s + 1][comp]
    if k == "fill":
        mode, body, idx, lev = a.a
        i = int(pv(idx, env, rows))
        u = X.bound(lev).id
        rng = range(i, -1, -1) if mode == "ffill" else range(i, env.n)
        for j in rng:
            r2 = dict(rows)
            r2[u] = j
            v = ev(body, env, r2)
            if v is not NAN:
                return v
        return NAN
    if k == "fn":
        name = a.a[0]
        args = [rv(x, env, rows) if isinstance(x, Rat) else x for x in a.a[1:]]
        if name == "finite":
            return NAN if args[0] is INF else args[0]
        if name in X.HALVES:
            if args[0] is not INF:
                return args[0]
            return NAN if sign_of_infinity(a.a[1], env, rows) == (1 if name == X.HALVES[0] else -1) else INF
        if any(v is NAN for v in args):
            return NAN
        if any(v is INF for v in args):
            return INF
        v = args[0]
        if name == "sqrt":
            if v < 0:
                if isinstance(v, float) and v > -1e-9:
                    return 0.0
                return NAN
            if isinstance(v, Fraction):
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return Fraction(n, d)
            return math.sqrt(v)
        if name == "log":
            if v == 0:
                return INF
            if v < 0:
                return NAN
            return math.log(v)
        if name == "exp":
            return math.exp(v)
        if name == "floor":
            return Fraction(math.floor(v))
        if name.startswith("round") and name[5:].lstrip("-").isdigit():
            r = round(v, int(name[5:]))
            return Fraction(r) if isinstance(v, (int, Fraction)) else r
        if name in ("ceil", "trunc", "rint"):
            return Fraction({"ceil": math.ceil, "trunc": math.trunc, "rint": round}[name](v))
        if name == "imax":
            return max(args)
        if name == "abs":
            return abs(v)
        if name == "pow":
            try:
                return float(v) ** float(args[1])
            except (OverflowError, ZeroDivisionError):
                return INF
        f = getattr(math, name, None)
        if f is None or len(args) != 1:
            raise NotUnderstood("function " + name)
        try:
            return f(float(v))
        except ValueError:
            return NAN
    if k == "opq":
        raise NotUnderstood("unknown value")
    raise NotUnderstood("atom " + k)


def series(e, env, n=None):
    out = []
    for t in range(n if n is not None else env.n):
        out.append(ev(e, env, {X.T.id: t}))
    return out


def same(a, b, tol=1e-7):
    if isinstance(a, bool):
        a = Fraction(int(a))
    if isinstance(b, bool):
        b = Fraction(int(b))
    if a is NAN or b is NAN or a is INF or b is INF:
        return a is b
    if a == b:
        return True
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return False
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
