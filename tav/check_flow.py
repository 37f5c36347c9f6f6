"""Properties decided on the events and effects of the lowering: C02, C03, C05, C06, C16, C25."""
import random
import core
import lower
import spec
import oracle as O
import expr as X
import evalg as G
import domain as D
import driver as DR
from driver import explore, new_input, result_of
from fractions import Fraction as F
from poly import Poly, Rat, ATOMS
from expr import NotUnderstood
from values import *
from interp import INPUT, PyRaise
from core import SOFT
from report import rec, OK, VIOLATION, UNDECIDED
from check_core import results, configs, label, agree
from check_rel import has_atom, values_of


# ------------------------------------------------------------------ reachability of an event
def free_syms(facts, guard, need):
    ids = set()
    for p in facts:
        ids |= p.atoms()
    if need is not None:
        for i in need.atoms():
            ids |= ATOMS[i].free | {i}
    if guard is not None and not isinstance(guard, bool):
        ids |= set(guard.free)
    return [ATOMS[i] for i in ids if ATOMS[i].kind == "sym"]


def witness(e, kinds, opts, consts=None, need=None, tries=400, gaps=False):
    """an admissible history and parameters for which the event is reached (and its obligation fails)."""
    consts = consts or {}
    rng = random.Random(11)
    names = [n for n, k in kinds if k in ("int", "int0") or (k == "optint" and opts.get(n) is not None)]
    guard = e.guard
    if guard is not None and guard.leaf and guard.v is True:
        guard = None
    if guard is not None and guard.leaf:
        return None
    extra = [a for a in free_syms(e.facts, guard, need) if a is not X.N and a.a[0] not in dict(kinds)]
    unknown = False
    big = core.limits(list(e.facts) + ([need] if need is not None else []))
    for k in range(tries):
        hi = (3, 6, 12)[k % 3]
        ints = {n: rng.randint(0 if kk == "int0" else 1, hi) for n, kk in kinds if n in names and n not in consts}
        ints.update({n: v for n, v in consts.items() if n in names})
        n = rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16]) if not consts else rng.choice([1, 2, 5, 13, 14, 15, 20, 26, 40])
        if big and k % 4 == 3:
            ints, n = core.near(ints, n, big, rng)
            ints.update({q: v for q, v in consts.items() if q in names})
        d = O.data(kinds, opts, k, n=n, ints=ints)
        if gaps:
            p = rng.choice([0, 1, 3, 8, 10])
            d.cells.update({c + "?": [F(int(rng.randint(0, 9) < p)) for _ in range(n)] for c in list(d.cells)})
        env = d.env()
        for rows in combos(extra, n, rng):
            try:
                if not all(G.pv(p, env, rows) >= 0 for p in e.facts):
                    continue
                if need is not None:
                    v = G.pv(need, env, rows)
                    if v is X.NAN or v is X.INF or v >= 0:
                        continue
                if guard is not None:
                    g = G.ev(guard, env, rows)
                    if not (g is True or (not isinstance(g, bool) and g not in (X.NAN, X.INF) and g != 0)):
                        continue
            except SOFT:
                unknown = True
                continue
            return d
    return False if unknown else None


def combos(syms, n, rng):
    if not syms:
        return [{}]
    if len(syms) == 1:
        return [{syms[0].id: i} for i in range(-1, n + 1)]
    return [{s.id: rng.randint(0, n) for s in syms} for _ in range(12)]


# ------------------------------------------------------------------ C16
def raised_witness(c, kinds, opts):
    rng = random.Random(3)
    big = core.limits(c.facts)
    for k in range(500):
        hi = (3, 6, 12)[k % 3]
        ints = {n: rng.randint(0 if kk == "int0" else 1, hi) for n, kk in kinds
                if kk in ("int", "int0") or (kk == "optint" and opts.get(n) is not None)}
        n = rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16])
        if big and k % 3 == 2:
            ints, n = core.near(ints, n, big, rng)
        d = O.data(kinds, opts, k, n=n, ints=ints)
        try:
            if O.holds(c.facts, d.env()):
                return d
        except SOFT:
            return None
    return None


def c16(cls):
    out = []
    rule = "no reachable exception for any history of at least one row; as many rows as the history"
    kinds = core.kinds_of(cls)
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            try:
                cases = lower.code(cls, r.acc, fill, o)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            out.append(exceptions(cases, rule, con, where, kinds, o))
    return out


def exceptions(cases, rule, con, where, kinds, o):
    bad, open_, n = None, None, 0
    for c in cases:
        n += 1
        if getattr(c, "raised", None) is not None:
            d = raised_witness(c, kinds, o)
            if d:
                bad = "%s: %s" % (d.show(), c.error)
                break
            open_ = c.error
        elif c.error:
            open_ = c.error
        for e in c.events:
            if e.kind not in ("bound", "raise"):
                continue
            n += 1
            d = witness(e, kinds, o, need=e.data.get("need") if e.kind == "bound" else None)
            if d:
                bad = "%s: %s (%s) at %s" % (d.show(), e.detail, e.data.get("exc", "exception"), e.where())
                break
            if d is False:
                open_ = "%s at %s" % (e.detail, e.where())
        if bad:
            break
        if not c.error and not getattr(c, "raised", None) and not o.get("dropnans"):
            if not core.full_length(c.res.length, c.facts):
                w = length_witness(c, kinds, o)
                if w:
                    bad = w
                    break
                open_ = "length %s" % X.show_idx(c.res.length)
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=n, what="%d region(s) of the parameter space, no open obligation" % len(cases))


def length_witness(c, kinds, o):
    for k in range(60):
        d = O.data(kinds, o, k)
        env = d.env()
        try:
            if not O.holds(c.facts, env):
                continue
            ln = int(G.pv(c.res.length, env, {}))
        except SOFT:
            return None
        if ln != d.n:
            return "%s: the result has %d rows" % (d.show(), ln)
    return None


# ------------------------------------------------------------------ C02
def c02(cls):
    out = []
    rule = "no write reaches storage, labels or name of a series passed in, and no result shares its storage"
    kinds = core.kinds_of(cls)
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            try:
                cases = lower.code(cls, r.acc, fill, o)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            x = effects(cases, rule, con, where, kinds, o)
            if x["status"] != VIOLATION and (cls not in SLOW or r.acc == results(cls)[0].acc):
                x = gap_effects(r, o, fill, kinds, x)
            out.append(x)
    return out


SLOW = ("ADXIndicator", "PSARIndicator")


def gap_effects(r, o, fill, kinds, x):
    """the same rule on series with missing rows anywhere; what this world leaves open is left open."""
    try:
        cases = lower.code(r.cls, r.acc, fill, o, gaps=True)
    except SOFT:
        return x
    n = 0
    for c in cases:
        for e in c.events:
            if e.kind in ("mutate", "mutate_col"):
                n += 1
                if witness(e, kinds, o, gaps=True):
                    return dict(x, status=VIOLATION, msg="%s at %s, when the series has missing rows" % (e.detail, e.where()))
        if not c.error and getattr(c, "origin", None) is not None:
            return dict(x, status=VIOLATION, msg="the returned series shares the storage of the caller's %s column, when it has "
                        "missing rows" % c.origin)
    return x


def effects(cases, rule, con, where, kinds, o, consts=None):
    bad, open_, n = None, None, 0
    for c in cases:
        n += 1
        for e in c.events:
            if e.kind == "mutate_maybe":
                open_ = open_ or "%s at %s" % (e.detail, e.where())
            if e.kind not in ("mutate", "mutate_col"):
                continue
            n += 1
            d = witness(e, kinds, o, consts)
            if d:
                bad = "%s at %s" % (e.detail, e.where())
                break
            if d is False:
                open_ = "%s at %s" % (e.detail, e.where())
        if c.error:
            open_ = open_ or c.error
        elif getattr(c, "origin", None) is not None:
            bad = bad or "the returned series shares the storage of the caller's %s column" % c.origin
        elif changed(c):
            bad = bad or changed(c)
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=n, what="%d region(s), every write goes to storage the call created" % len(cases))


def changed(c):
    """input objects of the caller after the run."""
    ins = getattr(c, "inputs", None)
    if not ins:
        return None
    st = c.st
    for n, (ref, arr, stor) in ins.items():
        a = st.heap.get(ref.id)
        if a is not arr:
            if a.name != arr.name:
                return "the name of the caller's %s series is changed" % n
            if a.index != arr.index:
                return "the labels of the caller's %s series are changed" % n
            if a.length != arr.length:
                return "the rows of the caller's %s series are changed" % n
        s = st.heap.get(arr.st.id)
        if s is not stor and s.e is not stor.e:
            return "the values of the caller's %s series are changed" % n
    return None


# ------------------------------------------------------------------ C03
def accessors(cls):
    return [r.acc for r in results(cls)]


def c03(cls):
    out = []
    kinds = core.kinds_of(cls)
    accs = accessors(cls)
    mod = spec.CLASSES[cls][0]
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            # 1. reading again, and after every other result, gives the same graph
            rule = "the same value graph when read first, again, and after every other result"
            try:
                base = lower.code(cls, r.acc, fill, o)
                orders = [tuple(a for a in accs if a != r.acc) + (r.acc,)]
                if len(accs) > 2:
                    orders.append(tuple(reversed(accs)))
                n, why, wit = 0, None, None
                for b in orders:
                    k, why, wit = same_cases(r, o, fill, base, b)
                    n += k
                    if why:
                        break
            except SOFT as ex:
                n, why, wit = 0, "%s %s" % (type(ex).__name__, ex), None
            if wit:
                out.append(rec(VIOLATION, rule, con, where, wit, steps=[why]))
            elif why:
                out.append(rec(UNDECIDED, rule, con, where, why))
            else:
                out.append(rec(OK, rule, con, where, n=n, what="%d read orders" % len(orders)))
            # 2. environment and shared state
            out.append(ambient(r, o, fill, base if n or why else [], con, where))
    return out


def same_cases(r, o, fill, base, before):
    n = 0
    for c in base:
        if c.error:
            return n, c.error, None
        for d in lower.code(r.cls, r.acc, fill, o, c.facts, None, before):
            if d.error:
                if getattr(d, "raised", None) is not None:
                    w = raised_witness(d, core.kinds_of(r.cls), o)
                    if w:
                        return n, d.error, "%s: reading it after %s %s" % (w.show(), ", ".join(before), d.error)
                return n, d.error, None
            n += 1
            if d.value is c.value and d.res.length == c.res.length:
                continue
            ds = D.diffs(c.value, d.value, d.facts, limit=1)
            if ds or d.res.length != c.res.length:
                why = "after reading %s: differs where %s" % (", ".join(before), ds[0].where()[:200] if ds else "length")
                return n, why, order_witness(r, o, fill, base, before)
    return n, None, None


def order_witness(r, o, fill, base, before):
    other = lower.code(r.cls, r.acc, fill, o, (), None, before)
    for k in range(24):
        d = O.data(core.kinds_of(r.cls), o, k)
        a, b = values_of(base, d.env()), values_of(other, d.env())
        if a is None or b is None:
            continue
        if len(a) != len(b):
            return "%s: %d rows at first, %d rows after reading %s" % (d.show(), len(a), len(b), ", ".join(before))
        for t, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                continue
            if not O.same(x, y) and not (O.undef(x) and O.undef(y)):
                return "%s: %s at first, %s after reading %s" % (d.show(t), O.show(x), O.show(y), ", ".join(before))
    return None


def ambient(r, o, fill, cases, con, where):
    rule = "draws on no random source, clock, environment or state shared between objects"
    kinds = core.kinds_of(r.cls)
    n, bad, open_ = 0, None, None
    shared = None
    src = next((e for c in cases for e in c.events if e.kind == "impure"), None)
    if src is not None:
        w = surroundings(lambda m: lower.code(r.cls, r.acc, fill, o, ambient=m), r, o)
        if w:
            return rec(VIOLATION, rule, con, where, "%s; %s at %s" % (w, src.detail, src.where()))
    for c in cases:
        n += 1
        if c.error:
            open_ = c.error
            continue
        for e in c.events:
            if e.kind == "impure":
                n += 1
                key = e.detail.split()[-1].rstrip("()")
                if has_atom(c.value, lambda a: a.kind == "opq" and tainted(a, key)):
                    bad = "the result depends on %s (%s)" % (key, e.where())
                else:
                    dep = has_atom(c.value, lambda a: a.kind == "opq")
                    if dep:
                        open_ = "%s at %s" % (e.detail, e.where())
            elif e.kind == "ambient_write":
                n += 1
                bad = "%s (%s)" % (e.detail, e.where())
            elif e.kind == "shared_write":
                shared = e
    if bad is None and shared is not None:
        n += 1
        try:
            w = interference(r, o, fill)
        except SOFT as ex:
            w, open_ = None, "%s at %s (%s)" % (shared.detail, shared.where(), ex)
        if w is True:
            pass
        elif w:
            bad = "%s; %s at %s" % (w, shared.detail, shared.where())
        else:
            open_ = open_ or "%s at %s" % (shared.detail, shared.where())
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=max(1, n), what="no such source is reached, nothing shared is written")


def tainted(a, key):
    return key in str(a.a)


def surroundings(run, r, o):
    """text when the result differs between two states of environment, clock and random source."""
    import lib
    try:
        base = run(lib.AMBIENT_MODES[0])
        w = differs_after(r, o, base, (run(m) for m in lib.AMBIENT_MODES[1:]),
                          ("in one environment", "in another"))
    except SOFT:
        return None
    return w if isinstance(w, str) else None


def other_settings(cls, opts):
    """switches of the other object: as asked, and each one turned."""
    out = [dict(opts)]
    for n, k in spec.CLASSES[cls][2]:
        if k == "bool":
            out.append(dict(opts, **{n: not opts[n]}))
    return out


def two_objects(cls, acc, fill, opts, same_data, first=None, order="before", fill1=None, opts1=None):
    """value of an object's result when another object of the class is built and read before it, or between its
    construction and the reading."""
    mod = "ta." + spec.CLASSES[cls][0]
    fill1 = fill if fill1 is None else fill1

    def run(it, st, c):
        it.load_module(st, mod)
        it.seal(st)
        k = lower.need(it, st, mod, cls)
        ins = lower.inputs(it, st, cls)
        kw = lower.param_values(cls, opts)
        # other object: other parameters on the same data, or the same parameters on other data
        kw1 = lower.param_values(cls, opts1 or opts)
        in1 = ins
        if same_data:
            for n, kk in spec.CLASSES[cls][2]:
                if n in kw1 and isinstance(kw1[n], Num):
                    kw1[n] = DR.int_param(n + "'", 0 if kk == "int0" else 1) if kk != "real" else DR.real_param(n + "'")
        else:
            in1 = {n: new_input(it, st, n, cell=n + "'") for n in ins}

        def other():
            o1 = it.call(st, k, [], dict(in1, **kw1, fillna=fill1))
            for a in (first or [r.acc for r in results(cls)]):
                it.call(st, lower.need_attr(it, st, o1, a, cls), [], {})
        if order == "before":
            other()
            it.ids = {}
        o2 = it.call(st, k, [], dict(ins, **kw, fillna=fill))
        if order == "between":
            other()
        v = it.call(st, lower.need_attr(it, st, o2, acc, cls), [], {})
        c.value, c.res = result_of(it, st, v, c)
    return explore(run)


def interference(r, o, fill):
    """True: proved independent; text: confirmed dependence; None: open."""
    base = lower.code(r.cls, r.acc, fill, o)
    others = (two_objects(r.cls, r.acc, fill, o, sd, order=od, fill1=f1, opts1=o1)
              for o1 in other_settings(r.cls, o) for f1 in (fill, not fill)
              for od in ("before", "between") for sd in (False, True))
    return differs_after(r, o, base, others, "another " + r.cls)


def differs_after(r, o, base, others, what):
    ok = True
    for other in others:
        if any(c.error for c in list(other) + list(base)):
            ok = False
            continue
        proved = True
        for c in other:
            for b in base:
                f = tuple(c.facts) + tuple(b.facts)
                if any(D.decide_rows(p, tuple(q for q in f if q is not p)) is False for p in f):
                    continue
                if c.value is not b.value and D.diffs(b.value, c.value, f, limit=1):
                    proved = False
        if proved:
            continue
        ok = False
        for k in range(24):
            d = O.data(core.kinds_of(r.cls), o, k)
            e = O.data(core.kinds_of(r.cls), o, k + 500, n=d.n)
            cells = dict(d.cells)
            cells.update({n + "'": v for n, v in e.cells.items()})
            ps = dict(d.params)
            ps.update({n + "'": v for n, v in e.params.items()})
            a = values_of(base, d.env())
            b = values_of(other, d.env(params=ps, cells=cells))
            if a is None or b is None:
                continue
            if len(a) != len(b):
                return "%s: an earlier call changes the number of rows" % d.show()
            for t, (x, y) in enumerate(zip(a, b)):
                if x is None or y is None:
                    continue
                if not O.same(x, y) and not (O.undef(x) and O.undef(y)):
                    a, b = what if isinstance(what, tuple) else ("alone", "after %s was read" % what)
                    return "%s: %s %s, %s %s" % (d.show(t), O.show(x), a, O.show(y), b)
    return True if ok else None


# ------------------------------------------------------------------ C05
HARD = ("selects", "slices", "assigns", "sorts", "label of the extreme")


def c05(cls):
    out = []
    kinds = core.kinds_of(cls)
    rule = "rows are addressed by position only; the result carries the labels of the input"
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            try:
                cases = lower.code(cls, r.acc, fill, o)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            x = alignment(cases, rule, con, where, kinds, o, bool(o.get("dropnans")),
                          worlds=(r, lambda w: lower.code(cls, r.acc, fill, o, labels=w)))
            if not o.get("dropnans") and cls not in SLOW:
                x = gap_rows(x, lambda: lower.code(cls, r.acc, fill, o, gaps=True))
            out.append(x)
    return out


def gap_rows(x, run):
    """one value per input row also for series with missing rows; what this world leaves open is left open."""
    if x["status"] == VIOLATION:
        return x
    try:
        cases = run()
    except SOFT:
        return x
    for c in cases:
        if not c.error and c.res.index != INPUT and derived(c.res.index):
            return dict(x, status=VIOLATION, msg="when the series has missing rows, the result is labelled by %s instead of the "
                        "input's labels" % token_text(c.res.index))
    return x


def label_worlds(r, o, run):
    """text when two kinds of labels give different values or one kind gives an exception."""
    import lib
    try:
        base = run(lib.WORLDS[0])
    except SOFT:
        return None
    if any(c.error for c in base):
        return None
    for w in lib.WORLDS[1:]:
        try:
            other = run(w)
        except SOFT:
            continue
        for c in other:
            if c.error and getattr(c, "raised", None) is not None and not c.facts:
                return "%s labels: %s" % (w, c.error)
        d = differs_after(r, o, base, [other], ("with labels 0..n-1", "with %s labels" % w))
        if isinstance(d, str):
            return d
    return None


def alignment(cases, rule, con, where, kinds, o, shorter=False, consts=None, worlds=None):
    bad, open_, n = None, None, 0
    for c in cases:
        n += 1
        for e in c.events:
            if e.kind not in ("label", "misaligned"):
                continue
            n += 1
            d = witness(e, kinds, o, consts)
            if d and (e.kind == "misaligned" or e.detail.startswith(HARD)):
                bad = "%s at %s" % (e.detail, e.where())
                break
            if d or d is False:
                open_ = "%s at %s" % (e.detail, e.where())
        if c.error:
            open_ = open_ or c.error
            continue
        if c.res.kind != "series":
            bad = bad or "the result is a %s without labels" % c.res.kind
        elif c.res.index != INPUT and not (shorter and derived(c.res.index)):
            bad = bad or "the result is labelled by %s instead of the input's labels" % token_text(c.res.index)
        elif not shorter and not core.full_length(c.res.length, c.facts):
            w = length_witness(c, kinds, o)
            if w:
                bad = bad or w
            else:
                open_ = open_ or "length %s" % X.show_idx(c.res.length)
    if open_ and not bad and worlds is not None and any(e.kind == "label" for c in cases for e in c.events):
        w = label_worlds(worlds[0], o, worlds[1])
        if w:
            e = next(e for c in cases for e in c.events if e.kind == "label")
            bad = "%s; %s at %s" % (w, e.detail, e.where())
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=n, what="no label is used to address a row; index carried through")


def derived(tok):
    """labels of some of the input's rows."""
    while isinstance(tok, tuple) and tok and tok[0] in ("part", "keep"):
        tok = tok[1]
    return tok == INPUT


def token_text(tok):
    if tok == INPUT:
        return "the input's labels"
    if isinstance(tok, tuple) and tok:
        return {"range": "0..n-1", "rev": "reversed labels", "sorted": "the labels in sorted order", "part": "a part of the labels", "keep": "a selection of the labels"}.get(
            tok[0], str(tok[0]))
    return str(tok)


# ------------------------------------------------------------------ C25 / C09 (classes)
def c25(cls):
    out = []
    rule = "no pass over the rows, or over a window of them in Python, is nested in a pass over the rows"
    kinds = core.kinds_of(cls)
    for r in results(cls):
        for o, fill in configs(r):
            con, where = label(r, o, fill), core.place(r.mod, r.cls, r.acc)
            try:
                cases = lower.code(cls, r.acc, fill, o)
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            out.append(nested(cases, rule, con, where, kinds, o))
    return out


def nested(cases, rule, con, where, kinds, o, consts=None):
    bad, open_, n, loops = None, None, 0, 0
    for c in cases:
        n += 1
        for e in c.events:
            if e.kind == "perrow":
                loops += 1
            if e.kind != "nested":
                continue
            d = witness(e, kinds, o, consts)
            if d:
                bad = "%s at %s" % (e.detail, e.where())
                break
            if d is False:
                open_ = "%s at %s" % (e.detail, e.where())
        if c.error:
            open_ = open_ or c.error
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=n + loops, what="%d pass(es) over the rows, none nested" % loops)


# ------------------------------------------------------------------ C06
def functions():
    return [r for r in spec.RESULTS if r.fn]


def fn_name(r):
    return r.fn


_FN = {}


def in_world(run, labels=None, gaps=False, ints=False):
    import lib
    lib.LABELS, DR.GAPS, DR.INTS = labels, gaps, ints
    try:
        return run()
    finally:
        lib.LABELS = None
        DR.GAPS = DR.INTS = False


def fn_worlds(r, o, fill, how):
    """the function and the class on series with missing rows, and on whole numbers: (obligations, text or None)."""
    n = 0
    for kw, what in (({"gaps": True}, "series with missing rows"), ({"ints": True}, "whole numbers")):
        if "gaps" in kw and r.cls in SLOW:
            continue
        try:
            a = in_world(lambda: fn_cases(r, fill, o, how), **kw)
            cls = lambda f=(): lower.code(r.cls, r.acc, fill, o, f, r.extra or None, **kw)
            if any(c.error for c in a) or any(c.error for c in cls()):
                continue
            m, why = compare_cases(a, cls, "function", stop=kw)
        except SOFT:
            continue
        if why is None:
            n += m
            continue
        for c in a:
            for d in cls(c.facts):
                if not d.error and c.res.index != d.res.index and (derived(c.res.index) or derived(d.res.index)):
                    return n, "for %s: %s" % (what, why)
        w = fn_witness(r, o, a, cls(), world=kw)
        if w:
            return n, "for %s: %s" % (what, w)
    return n, None


def fn_cases(r, fill, opts, how, facts=()):
    """one-shot function called by keyword ("kw"), with its inputs by position ("pos") or with its defaults ("none")."""
    mod = "ta." + r.mod

    def run(it, st, c):
        it.load_module(st, mod)
        it.seal(st)
        f = lower.need(it, st, mod, r.fn)
        ins = lower.inputs(it, st, r.cls)
        pv = {n: v for n, v in lower.param_values(r.cls, opts).items() if n not in r.extra}
        c.inputs = {n: (v, it.get(st, v), it.get(st, it.get(st, v).st)) for n, v in ins.items()}
        if how == "kw":
            v = it.call(st, f, [], dict(ins, **pv, fillna=fill))
        elif how == "pos":
            v = it.call(st, f, [ins[n] for n in spec.CLASSES[r.cls][1].split()], dict(pv, fillna=fill))
        else:
            v = it.call(st, f, [], dict(ins))
        c.value, c.res = result_of(it, st, v, c)
        c.origin = it.origin(st, v)
    return explore(run, facts)


def cls_default_cases(r, facts=()):
    mod = "ta." + r.mod

    def run(it, st, c):
        it.load_module(st, mod)
        it.seal(st)
        k = lower.need(it, st, mod, r.cls)
        o = it.call(st, k, [], lower.inputs(it, st, r.cls))
        v = it.call(st, lower.need_attr(it, st, o, r.acc, r.cls), [], {})
        c.value, c.res = result_of(it, st, v, c)
    return explore(run, facts)


def default_table(r):
    """{parameter: (function default, class default)} where they differ."""
    out = {}
    mod = "ta." + r.mod

    def run(it, st, c):
        it.load_module(st, mod)
        f = lower.need(it, st, mod, r.fn)
        k = lower.need(it, st, mod, r.cls)
        ini = it.class_attr(st, k, "__init__") if hasattr(it, "class_attr") else it.getattr(st, k, "__init__")
        a, b = defaults_of(it, st, f), defaults_of(it, st, ini)
        for n in a:
            if n in b and a[n] != b[n]:
                out[n] = (show_default(a[n]), show_default(b[n]))
        c.value = True
    for c in explore(run):
        if c.error:
            return {"?": (c.error, "")}
    return out


def defaults_of(it, st, f):
    if isinstance(f, Decor):
        f = f.fn
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    ds = list(f.defaults or ())
    out = dict(zip(names[len(names) - len(ds):], ds))
    kw = f.kwdefaults or {}
    out.update(kw if isinstance(kw, dict) else dict(zip([x.arg for x in a.kwonlyargs], kw)))
    return out


def show_default(v):
    return str(v)


def compare_cases(a, b, what, stop=None):
    """(obligations, reason or None)"""
    n = 0
    for c in a:
        if c.error:
            return n, "%s: %s" % (what, c.error)
        for d in b(c.facts):
            if d.error:
                return n, "class: " + d.error
            n += 1
            if c.value is d.value and c.res.length == d.res.length and c.res.index == d.res.index:
                continue
            if c.res.length != d.res.length:
                return n, "%s rows instead of %s" % (X.show_idx(c.res.length), X.show_idx(d.res.length))
            if c.res.index != d.res.index:
                return n, "labelled by %s instead of %s" % (token_text(c.res.index), token_text(d.res.index))
            if stop is not None:
                return n, "the graph differs"
            ds = D.diffs(c.value, d.value, d.facts, limit=1)
            if ds:
                return n, "differs where " + ds[0].where()[:300]
    return n, None


def fn_witness(r, o, fcases, ccases, ints=None, n=None, tries=24, world=None):
    rng = random.Random(5)
    for k in range(tries):
        d = O.data(core.kinds_of(r.cls), o, k, n=n)
        if world and world.get("gaps"):
            p = rng.choice([1, 3, 5])
            d.cells.update({c + "?": [F(int(rng.randint(0, 9) < p)) for _ in v] for c, v in list(d.cells.items())})
        if world and world.get("ints"):
            d.cells.update({c: [F(max(1, round(float(x)))) for x in v] for c, v in d.cells.items()})
        ps = dict(d.params)
        ps.update(ints or {})
        ps.update({a: F(b) for a, b in r.extra.items()})
        a, b = values_of(fcases, d.env(params=ps)), values_of(ccases, d.env(params=ps))
        if a is None or b is None:
            continue
        if len(a) != len(b):
            return "%s: the function gives %d rows, the class %d" % (d.show(), len(a), len(b))
        for t, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                continue
            if not O.same(x, y) and not (O.undef(x) and O.undef(y)):
                return "%s: the function gives %s, the class %s" % (d.show(t), O.show(x), O.show(y))
    return None


def c06(unit):
    out = []
    r = [x for x in functions() if x.fn == unit][0]
    where = core.place(r.mod, r.fn)
    rule = "the function's value graph is the class's value graph for the same arguments"
    for o in lower.options(r.cls):
        for fill in (False, True):
            for how in ("kw", "pos"):
                con = "%s(%s%s%s)" % (r.fn, "" if how == "kw" else "inputs by position, ", core.opt_text(o) + ", " if o else "",
                                      "fillna=%s" % fill)
                try:
                    a = fn_cases(r, fill, o, how)
                    n, why = compare_cases(a, lambda f: lower.code(r.cls, r.acc, fill, o, f, r.extra or None), "function")
                except SOFT as ex:
                    n, why, a = 0, "%s %s" % (type(ex).__name__, ex), None
                if why is None:
                    m, bad = fn_worlds(r, o, fill, how)
                    if bad:
                        out.append(rec(VIOLATION, rule, con, where, bad))
                        continue
                    out.append(rec(OK, rule, con, where, n=n + m, what="equals %s for every argument" % r.name))
                    continue
                w = None
                if a is not None:
                    try:
                        for c in a:
                            if getattr(c, "raised", None) is not None:
                                d = raised_witness(c, core.kinds_of(r.cls), o)
                                b = lower.code(r.cls, r.acc, fill, o, c.facts, r.extra or None)
                                if d and not any(x.error for x in b):
                                    w = "%s: the function %s" % (d.show(), c.error)
                        b = lower.code(r.cls, r.acc, fill, o, (), r.extra or None)
                        if w is None and not any(c.error for c in a + b) and any(c.res.index != b[0].res.index for c in a):
                            w = why
                        w = w or fn_witness(r, o, a, b)
                    except SOFT as ex:
                        why += "; %s" % ex
                out.append(rec(VIOLATION if w else UNDECIDED, rule, con, where, "%s; %s" % (w, why) if w else why, steps=[why]))
    out += c06_defaults(r, where)
    return out


def c06_defaults(r, where):
    rule = "arguments left out mean the same on both sides"
    if r.cls == "SMAIndicator":
        return []
    con = r.fn + "(defaults)"
    try:
        a = fn_cases(r, False, lower.options(r.cls)[0], "none")
        n, why = compare_cases(a, lambda f: cls_default_cases(r, f), "function")
    except SOFT as ex:
        return [rec(UNDECIDED, rule, con, where, "%s %s" % (type(ex).__name__, ex))]
    if why is None:
        return [rec(OK, rule, con, where, n=max(1, n), what="equals %s built with its defaults" % r.name)]
    tab = {}
    try:
        tab = default_table(r)
    except SOFT:
        pass
    try:
        w = None
        for n in (70, 120, 40):
            w = w or fn_witness(r, {}, a, cls_default_cases(r), n=n, tries=4)
    except SOFT as ex:
        w = None
    detail = ", ".join("%s: function %s, class %s" % (k, x, y) for k, (x, y) in sorted(tab.items()))
    x = rec(VIOLATION if w else UNDECIDED, rule, con, where, "%s; %s; %s" % (detail, w, why))
    x["detail"] = detail
    return [x]


# ------------------------------------------------------------------ the one-shot functions' own effects
def fn_units(prop, unit):
    """C02, C03, C05, C16, C25 of one function."""
    out = []
    r = [x for x in functions() if x.fn == unit][0]
    where = core.place(r.mod, r.fn)
    kinds = [(n, k) for n, k in core.kinds_of(r.cls) if n not in r.extra]
    for o in lower.options(r.cls):
        for fill in (False, True):
            con = "%s(%sfillna=%s)" % (r.fn, core.opt_text(o) + ", " if o else "", fill)
            rule = FN_RULES[prop]
            try:
                cases = fn_cases(r, fill, o, "kw")
            except SOFT as ex:
                out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
                continue
            if prop == "C02":
                out.append(effects(cases, rule, con, where, kinds, o))
            elif prop == "C05":
                x = alignment(cases, rule, con, where, kinds, o, bool(o.get("dropnans")),
                              worlds=(r, lambda w: in_world(lambda: fn_cases(r, fill, o, "kw"), labels=w)))
                if not o.get("dropnans") and r.cls not in SLOW:
                    x = gap_rows(x, lambda: in_world(lambda: fn_cases(r, fill, o, "kw"), gaps=True))
                out.append(x)
            elif prop == "C25":
                out.append(nested(cases, rule, con, where, kinds, o))
            elif prop == "C16":
                out.append(exceptions(cases, rule, con, where, kinds, o))
            else:
                out.append(fn_ambient(r, o, fill, cases, rule, con, where))
    return out


FN_RULES = {
    "C02": "no write reaches storage, labels or name of a series passed in, and no result shares its storage",
    "C03": "draws on no random source, clock, environment or state shared between calls",
    "C05": "rows are addressed by position only; the result carries the labels of the input",
    "C16": "no reachable exception for any history of at least one row; as many rows as the history",
    "C25": "no pass over the rows, or over a window of them in Python, is nested in a pass over the rows",
}


def fn_ambient(r, o, fill, cases, rule, con, where):
    bad, open_, shared, n = None, None, None, 0
    src = next((e for c in cases for e in c.events if e.kind == "impure"), None)
    if src is not None:
        import lib

        def run(m):
            lib.AMBIENT = m
            try:
                return fn_cases(r, fill, o, "kw", ())
            finally:
                lib.AMBIENT = None
        w = surroundings(run, r, o)
        if w:
            return rec(VIOLATION, rule, con, where, "%s; %s at %s" % (w, src.detail, src.where()))
    for c in cases:
        n += 1
        if c.error:
            open_ = c.error
            continue
        for e in c.events:
            if e.kind == "impure":
                key = e.detail.split()[-1].rstrip("()")
                if has_atom(c.value, lambda a: a.kind == "opq" and tainted(a, key)):
                    bad = "the result depends on %s (%s)" % (key, e.where())
                elif has_atom(c.value, lambda a: a.kind == "opq"):
                    open_ = "%s at %s" % (e.detail, e.where())
            elif e.kind == "ambient_write":
                bad = "%s (%s)" % (e.detail, e.where())
            elif e.kind == "shared_write":
                shared = e
    if bad is None and shared is not None:
        try:
            w = fn_interference(r, o, fill, cases)
        except SOFT as ex:
            w = None
        if w is None:
            open_ = "%s at %s" % (shared.detail, shared.where())
        elif w is not True:
            bad = "%s; %s at %s" % (w, shared.detail, shared.where())
    if bad:
        return rec(VIOLATION, rule, con, where, bad)
    if open_:
        return rec(UNDECIDED, rule, con, where, open_)
    return rec(OK, rule, con, where, n=n, what="no such source is reached, nothing shared is written")


def fn_interference(r, o, fill, base):
    mod = "ta." + r.mod

    def run(same, fill1):
        def go(it, st, c):
            it.load_module(st, mod)
            it.seal(st)
            f = lower.need(it, st, mod, r.fn)
            ins = lower.inputs(it, st, r.cls)
            pv = {n: v for n, v in lower.param_values(r.cls, o).items() if n not in r.extra}
            in1, pv1 = ins, dict(pv)
            if same:
                for n, kk in spec.CLASSES[r.cls][2]:
                    if n in pv1 and isinstance(pv1[n], Num):
                        pv1[n] = DR.int_param(n + "'", 0 if kk == "int0" else 1) if kk != "real" else DR.real_param(n + "'")
            else:
                in1 = {n: new_input(it, st, n, cell=n + "'") for n in ins}
            it.call(st, f, [], dict(in1, **pv1, fillna=fill1))
            v = it.call(st, f, [], dict(ins, **pv, fillna=fill))
            c.value, c.res = result_of(it, st, v, c)
        return explore(go)
    return differs_after(r, o, base, (run(sd, f1) for f1 in (fill, not fill) for sd in (False, True)), r.fn)
