"""Comparison of every published result with its reference definition, and classification of confirmed differences."""
import os
import ast
import random
import itertools
from fractions import Fraction as F
import lower
import spec
import oracle as O
import evalg as G
import expr as X
import domain as D
import driver as DR
from expr import NAN, INF, NotUnderstood
from poly import Poly, ATOMS

SOFT = (NotUnderstood, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError,
        AssertionError, OverflowError, MemoryError, NotImplementedError, StopIteration)


THOROUGH = os.environ.get("TAV_TIER") == "thorough"      # cross-examine proofs by random interpretation, and search further


# ------------------------------------------------------------------ places
_TREE = {}


def tree(mod):
    path = os.path.join(DR.ROOT, "ta", mod + ".py")
    if path not in _TREE:
        _TREE[path] = ast.parse(open(path).read(), path)
    return _TREE[path]


def place(mod, cls, acc=None):
    """file:line of a class, accessor or function."""
    try:
        for n in tree(mod).body:
            if getattr(n, "name", None) == cls:
                if acc:
                    for m in getattr(n, "body", ()):
                        if getattr(m, "name", None) == acc:
                            return "ta/%s.py:%d (%s.%s)" % (mod, m.lineno, cls, acc)
                return "ta/%s.py:%d (%s%s)" % (mod, n.lineno, cls, "." + acc if acc else "")
    except (OSError, SyntaxError):
        pass
    return "ta/%s.py (%s%s)" % (mod, cls, "." + acc if acc else "")


def opt_text(opts):
    return ", ".join("%s=%s" % (k, "set" if v == "sym" else v) for k, v in sorted(opts.items()))


# ------------------------------------------------------------------ evaluation
def eval_rows(e, env, rows):
    """values at rows; None where the graph has an unknown part on that row."""
    out = []
    for t in rows:
        env.steps = 0
        try:
            out.append(G.ev(e, env, {X.T.id: t}))
        except SOFT:
            env.prev = []
            out.append(None)
    return out


def length_of(c, env):
    try:
        return int(G.pv(c.res.length, env, {}))
    except SOFT:
        env.prev = []
        return None


class Witness:
    __slots__ = ("data", "t", "code", "raw", "pub", "zero", "rzero", "warm")

    def __init__(self, data, t, code, raw, pub):
        self.data, self.t, self.code, self.raw, self.pub = data, t, code, raw, pub
        self.zero = self.rzero = self.warm = False

    def text(self):
        return "%s: code gives %s, definition gives %s" % (self.data.show(self.t), O.show(self.code), O.show(self.pub))


class Comparison:
    """status: equal, differs, undecided, raises, same-length."""

    def __init__(self, r, opts, fill):
        self.r, self.opts, self.fill = r, opts, fill
        self.status = "equal"
        self.reasons = []
        self.pairs = []
        self.mism = []            # (facts, code case, ref case, mismatch)
        self.witnesses = []
        self.lengths = []
        self.sampled = 0
        self.obligations = 0

    @property
    def name(self):
        o = opt_text(self.opts)
        return self.r.name + ("[%s]" % o if o else "")

    @property
    def place(self):
        return place(self.r.mod, self.r.cls, self.r.acc)


def kinds_of(cls):
    return spec.CLASSES[cls][2]


_CMP = {}


def compare(cls, acc, fill, opts):
    key = (cls, acc, fill, lower.opt_key(opts))
    if key not in _CMP:
        _CMP[key] = _compare(cls, acc, fill, opts)
    return _CMP[key]


def _compare(cls, acc, fill, opts):
    r = spec.BY[(cls, acc)]
    cmp_ = Comparison(r, opts, fill)
    try:
        cmp_.pairs = lower.pairs(cls, acc, fill, opts)
    except lower.Vanished:
        raise
    except SOFT as ex:
        cmp_.status = "undecided"
        cmp_.reasons.append("lowering: %s %s" % (type(ex).__name__, ex))
        return cmp_
    unsure = False
    for f, c, s in cmp_.pairs:
        cmp_.obligations += 1
        if c.error or s.error:
            unsure = True
            cmp_.reasons.append(c.error or "definition: " + s.error)
            continue
        if c.res.length != s.res.length:
            ctx = tuple(X._ctx_norm(f))
            d = c.res.length - s.res.length
            if D.decide_rows(d, ctx) is not True or D.decide_rows(-d, ctx) is not True:
                unsure = True
                cmp_.reasons.append("length %s instead of %s" % (X.show_idx(c.res.length), X.show_idx(s.res.length)))
        try:
            ds = D.diffs(c.value, s.value, f, limit=6)
        except SOFT as ex:
            unsure = True
            cmp_.reasons.append("comparison: %s %s" % (type(ex).__name__, ex))
            continue
        for m in ds:
            cmp_.mism.append((f, c, s, m))
            cmp_.reasons.append("not proved equal where " + m.where()[:400])
    if not unsure and not cmp_.mism:
        if THOROUGH:
            confirm(cmp_, 90)
            if cmp_.status == "differs":
                cmp_.reasons.append("the graphs were proved equal, but their values differ")
        return cmp_
    cmp_.status = "undecided"
    confirm(cmp_)
    return cmp_


# ------------------------------------------------------------------ confirmation by random interpretation
def in_case(pairs, env):
    for f, c, s in pairs:
        if O.holds(f, env):
            return c, s
    return None


def limits(facts, count=6):
    """larger constants in integer conditions, also inside minima and maxima."""
    out = set()
    todo = list(facts)
    seen = 0
    while todo and seen < 2000:
        seen += 1
        p = todo.pop()
        try:
            if not X.is_int_poly(p):
                continue
            for i in p.atoms():
                todo += [q.n for q in X.ATOMS[i].a if isinstance(q, X.Rat)]
            c = p.d.get((), 0)
            ks = [abs(v) for m, v in p.d.items() if m]
            for k in set(ks[:4]) or {1}:
                v = int(abs(c / k))
                if 8 < v <= 20000:
                    out.add(v)
        except (AttributeError, TypeError, ZeroDivisionError):
            pass
    return sorted(out)[:count]


def graph_limits(es, least=30, most=20000):
    """larger constants in the integer conditions, bounds and positions of value graphs."""
    polys = []
    seen = set()
    todo = list(es)
    while todo and len(seen) < 20000:
        x = todo.pop()
        if isinstance(x, Poly):
            polys.append(x)
            todo += [ATOMS[i] for i in x.atoms()]
        elif isinstance(x, X.Rat):
            if x.d.is_const():
                polys.append(x.n)
            todo += [ATOMS[i] for i in x.n.atoms() | x.d.atoms()]
        elif isinstance(x, X.E):
            if ("e", x.id) in seen:
                continue
            seen.add(("e", x.id))
            if x.leaf:
                todo.append(x.v)
            else:
                todo += x.kids
                todo.append(x.pred.p)
        elif hasattr(x, "kind") and hasattr(x, "a"):
            if ("a", x.id) in seen:
                continue
            seen.add(("a", x.id))
            if x.kind == "rec":
                todo += [x.a[0].start, x.a[2]] + list(x.a[0].inits) + list(x.a[0].updates)
            elif x.kind != "sym":
                todo += x.a
        elif isinstance(x, (tuple, list)):
            todo += x
    return [v for v in limits(polys, 40) if least <= v <= most]


def long_histories(kinds, opts, es, tries=3):
    """histories about as long as the larger constants in the graphs, with small windows."""
    try:
        big = graph_limits(es)
    except SOFT:
        return
    names = [n for n, k in kinds if k in ("int", "int0") or (k == "optint" and opts.get(n) is not None)]
    for j, b in enumerate(big[:4]):
        rng = random.Random(b)
        for i in range(tries if b <= 400 else 1):
            ps = {q: rng.randint(1, 4) for q in names}
            extra = [12, 40, b][i] if b <= 400 else 60
            yield O.data(kinds, opts, 3000 + 10 * j + i, n=b + extra, ints=ps), b


def near(ps, n, big, rng):
    """parameters and lengths about the constants the code compares them with."""
    b = rng.choice(big)
    ps = dict(ps)
    for q in ps:
        if b > 400:
            ps[q] = min(ps[q], 4)
        elif rng.random() < 0.5:
            ps[q] = max(1, b + rng.choice([-1, 0, 1, 2]))
    n = rng.choice([n, b, b + 1, max(1, b - 1), 2 * b + 3, b + rng.randint(0, 40)])
    return ps, n


def search_params(kinds, opts, facts, rng, tries=1500):
    """parameter values, length and row that satisfy integer facts."""
    names = [n for n, k in kinds if k in ("int", "int0") or (k == "optint" and opts.get(n) is not None)]
    los = {n: (0 if k == "int0" else 1) for n, k in kinds}
    big = limits(facts)
    for i in range(tries):
        hi = (4, 8, 16, 40, 130)[i * 5 // tries]
        ps = {n: rng.randint(los[n], hi) for n in names}
        n = rng.randint(1, (6, 12, 30, 60, 160)[i * 5 // tries])
        if big and i % 2:
            ps, n = near(ps, n, big, rng)
        t = rng.randint(0, n - 1)
        env = G.Env({}, {k: F(v) for k, v in ps.items()}, n)
        rows = {X.T.id: t}
        try:
            if all(G.pv(p, env, rows) >= 0 for p in facts):
                return ps, n, t
        except SOFT:
            return None
    return descend(names, los, facts, rng)


def descend(names, los, facts, rng, starts=20, moves=80, most=5000):
    """the same by descent on how much the facts are missed by: for facts few random draws satisfy."""
    left = [most]
    for i in range(starts):
        hi = rng.choice([3, 8, 30])
        ps = {n: rng.randint(los[n], hi) for n in names}
        cur = dict(ps, **{" n": rng.randint(1, 12)})
        cur[" t"] = rng.randint(0, cur[" n"] - 1)

        def miss(c):
            left[0] -= 1
            env = G.Env({}, {k: F(v) for k, v in c.items() if k[0] != " "}, c[" n"])
            return sum(max(F(0), -F(G.pv(p, env, {X.T.id: c[" t"]}))) for p in facts)
        try:
            best = miss(cur)
            for _ in range(moves):
                if best == 0 or left[0] < 0:
                    break
                found = None
                for k in rng.sample(sorted(cur), len(cur)):
                    for step in (1, -1, 4, -4, 16, -16):
                        c = dict(cur)
                        c[k] += step
                        if k == " t" and c[k] >= c[" n"]:
                            c[" n"] = c[k] + 1
                        if c[" n"] < 1 or not 0 <= c[" t"] < c[" n"] or (k in los and c[k] < los[k]) or c[" n"] > 400:
                            continue
                        v = miss(c)
                        if v < best:
                            best, found = v, c
                if found is None:
                    break
                cur = found
            if best == 0:
                return {k: v for k, v in cur.items() if k[0] != " "}, cur[" n"], cur[" t"]
        except SOFT:
            return None
    return None


def histories(cmp_, count=60):
    kinds = kinds_of(cmp_.r.cls)
    for k in range(count * 3 if THOROUGH and cmp_.status != "equal" else count):
        d = O.data(kinds, cmp_.opts, k)
        yield d, range(d.n)
    for d, b in long_histories(kinds, cmp_.opts, [x.value for _, c, _ in cmp_.pairs for x in (c,) if x.value is not None]):
        rows = set(range(0, 6)) | set(range(max(0, b - 3), min(d.n, b + 8))) | set(range(d.n - 4, d.n))
        yield d, sorted(rows)
    rng = random.Random(7)
    seen = 0
    for f, c, s, m in cmp_.mism[:8]:
        facts = tuple(f) + tuple(m.rows)
        got = search_params(kinds, cmp_.opts, [p for p in facts if X.is_int_poly(p)], rng)
        if not got:
            continue
        ps, n, t = got
        for j in range(6 if n <= 400 else 1):
            seen += 1
            d = O.data(kinds, cmp_.opts, 1000 + seen, n=n, ints=ps)
            rows = range(d.n) if d.n <= 40 else sorted(set(range(max(0, t - 3), min(d.n, t + 4))) | {0, d.n - 1})
            yield d, rows


def warm_row(r, data, t):
    """rows for which a convention (0, starting level) is documented instead of a formula."""
    p = data.params
    if r.cls == "AverageTrueRange":
        return t < p["window"] - 1
    if r.cls == "ADXIndicator":
        return t < (2 * p["window"] - 1 if r.acc == "adx" else p["window"] + 1)
    if r.cls == "NegativeVolumeIndexIndicator":
        return t < 1
    if r.cls == "PSARIndicator":
        return t < 2
    return False


def confirm(cmp_, count=60):
    """sample histories; collect rows on which the code's graph and the definition's graph differ."""
    r = cmp_.r
    bad = 0
    unknown = 0
    for d, rows in histories(cmp_, count):
        env = d.env()
        try:
            cs = in_case(cmp_.pairs, env)
        except SOFT:
            cs = None
        if cs is None or cs[0].error or cs[1].error:
            unknown += 1
            continue
        c, s = cs
        cmp_.sampled += 1
        lc, ls = length_of(c, env), length_of(s, env)
        if lc is None or ls is None:
            continue
        if lc != ls:
            cmp_.lengths.append((d, lc, ls))
        rows = [t for t in rows if t < min(lc, ls)]
        env2 = d.env()
        env3 = d.env()
        vc = eval_rows(c.value, env, rows)
        vr = eval_rows(s.raw, env2, rows)
        vp = eval_rows(s.value, env3, rows)
        n = 0
        for t, a, b, p in zip(rows, vc, vr, vp):
            if a is None or p is None or b is None:
                unknown += 1
                continue
            target = p if cmp_.fill else b
            if O.same(a, target) or (not cmp_.fill and O.undef(a) and O.undef(target)):
                continue
            n += 1
            if n > 8 and t not in rows[-2:]:
                continue
            w = Witness(d, t, a, b, target)
            e = d.env()
            eval_rows(s.raw, e, [t])
            w.rzero = e.zero
            eval_rows(c.value, e, [t])
            w.zero = e.zero
            w.warm = warm_row(r, d, t)
            cmp_.witnesses.append(w)
        if n:
            bad += 1
            if bad > 14 and len(cmp_.witnesses) > 40:
                break
    if cmp_.witnesses or cmp_.lengths:
        cmp_.status = "differs"
    return cmp_


# ------------------------------------------------------------------ classification
def formula_rows(cmp_):
    """witnesses in rows where the definition has a value."""
    return [w for w in cmp_.witnesses if not O.undef(w.raw) and not (w.warm and cmp_.r.cls != "NegativeVolumeIndexIndicator"
                                                                    and cmp_.r.cls == "PSARIndicator")]


def warmup_rows(cmp_):
    """fill off: defined where the definition is not, or the other way round, or a warm-up convention broken."""
    if cmp_.fill:
        return []
    out = []
    for w in cmp_.witnesses:
        if w.warm or (O.undef(w.raw) != O.undef(w.code)):
            if not w.zero or w.warm:
                out.append(w)
    return out


def degenerate_rows(cmp_):
    ws = [w for w in cmp_.witnesses if not (cmp_.fill and O.undef(w.raw))]
    if ws and all(w.zero for w in ws):
        return ws
    # the definition divides by zero there: defined instead of undefined, or the other way round
    return [w for w in ws if w.rzero and not w.warm and O.undef(w.raw) != O.undef(w.code)]


def gap_rows(cmp_):
    if cmp_.fill:
        return [w for w in cmp_.witnesses if O.undef(w.raw) or O.undef(w.code)]
    return []


def full_length(n, facts):
    """is the length n equal to the number of rows, given the facts of the case?"""
    d = n - X.NP_
    if d.is_zero():
        return True
    ctx = tuple(X._ctx_norm(list(facts) + [X.NP_ - 1]))
    return X.row_decide(d, ctx) is True and X.row_decide(d.scale(-1), ctx) is True
