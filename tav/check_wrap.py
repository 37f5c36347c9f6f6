"""Properties of the add-features functions (C02, C05, C07, C08, C09, C16, C25, C03) and of the cleaning helper (C23)."""
import random
import core
import lower
import spec
import oracle as O
import expr as X
import evalg as G
import domain as D
import driver as DR
import wrap
from driver import explore, new_input
from fractions import Fraction as F
from expr import NotUnderstood
from values import *
from interp import INPUT
from core import SOFT
from report import rec, OK, VIOLATION, UNDECIDED
import check_flow as CF
from check_rel import values_of, has_atom

FILE = "ta/wrapper.py"
DEFAULT = object()
# a prefix nobody knows: a proof with it holds for every prefix
ANYP = StrV((("text", "colprefix"),))


def where_of(fn):
    return core.place("wrapper", fn)


def prefix_text(p):
    return "any prefix" if p is ANYP else ("defaults" if p is DEFAULT else "prefix %r" % p)


def con_of(fn, p, vec, fill):
    t = [prefix_text(p)]
    if p is not DEFAULT:
        if wrap.ENTRY[fn][2]:
            t.append("vectorized=%s" % vec)
        t.append("fillna=%s" % fill)
    return "%s[%s]" % (fn, ", ".join(t))


def settings(fn, vec_only=False):
    """(prefix, vectorized, fillna): any prefix, the empty one, and the defaults."""
    for vec in ((False, True) if wrap.ENTRY[fn][2] else (False,)):
        if vec_only and wrap.ENTRY[fn][2] and not vec:
            continue
        for fill in (False, True):
            for p in (ANYP, ""):
                yield p, vec, fill
    if not vec_only:
        yield DEFAULT, False, False


def run(fn, p, vec, fill):
    """with a symbolic prefix; when the code looks inside the prefix, with concrete ones."""
    cs = wrap.run(fn, p, vec, fill)
    if p is ANYP and any(c.error for c in cs):
        alt = wrap.run(fn, "§P_", vec, fill)
        if not any(c.error for c in alt):
            return "§P_", alt
    return p, cs


def name_of(p, n):
    from interp import mk_str
    return n if p is DEFAULT else mk_str([p, n])


def peeks(cases):
    return any(e.kind == "peek" for c in cases for e in c.events)


def in_worlds(fn, p, vec, fill, cases, worlds):
    """cases, and when the code looks at which columns there are: the same on tables that have more of them."""
    out = list(cases)
    if peeks(cases):
        for w in worlds:
            out += wrap.run(fn, p, vec, fill, world=w)
    return out


def in_world(c):
    return {"stale": "the table has columns of these names already: ", "decoy": "the table has columns under other names the code uses: "}.get(c.world, "")


def columns_of(c):
    return [(k, e, a) for k, e, a in c.columns]


def documented(fn, p, vec):
    return [(name_of(p, n), n, cls, acc, args, fam) for n, cls, acc, args, fam in wrap.documented(fn, "", vec)]


def consts(cls, args):
    d = dict(spec.DEFAULTS[cls])
    d.update(args)
    return d


def split_args(cls, args):
    """(constants, switches) of a documented column's parameters."""
    d = consts(cls, args)
    kinds = dict(spec.CLASSES[cls][2])
    cst = {k: v for k, v in d.items() if kinds[k] in ("int", "int0", "real")}
    opt = {k: v for k, v in d.items() if kinds[k] in ("bool", "optint")}
    return cst, opt


def refs(cls, acc, args, fill, facts=()):
    cst, opt = split_args(cls, args)
    return lower.code(cls, acc, fill, opt, facts, {k: num(v) for k, v in cst.items()})


def num(v):
    return v if isinstance(v, int) else F(str(v))


# ------------------------------------------------------------------ C07
def c07(fn):
    out = []
    rule = "the column's value graph is the documented indicator's over the caller's columns"
    for p0, vec, fill in settings(fn):
        try:
            p, cases = run(fn, p0, vec, fill)
        except SOFT as ex:
            out.append(rec(UNDECIDED, rule, con_of(fn, p0, vec, fill), where_of(fn), "lowering: %s" % ex))
            continue
        shared = next((e for c in cases for e in c.events if e.kind == "shared_write"), None)
        if shared is not None:
            w = twice(fn, p0)
            t = "%s; %s at %s" % (w, shared.detail, shared.where())
            if w or w is None:
                out.append(rec(VIOLATION if w else UNDECIDED, rule, con_of(fn, p0, vec, fill) + " after another call", where_of(fn), t))
        cases = in_worlds(fn, p, vec, fill, cases, ("stale", "decoy"))
        for name, n, cls, acc, args, fam in documented(fn, p, vec):
            con = "%s %s" % (con_of(fn, p0, vec, fill), n)
            where = where_of(fn)
            bad, open_, k = None, None, 0
            for c in cases:
                if bad:
                    break
                if c.error:
                    open_ = c.error
                    continue
                got = [(e, o) for m, e, o in columns_of(c) if m == name]
                if len(got) != 1:
                    k += 1          # the set of columns is C08's matter
                    continue
                e, o = got[0]
                if e is None:
                    open_ = "content of the column is not understood"
                    continue
                try:
                    rs = refs(cls, acc, args, fill, c.facts)
                except SOFT as ex:
                    open_ = "indicator: %s" % ex
                    continue
                for r in rs:
                    k += 1
                    if r.error:
                        open_ = r.error
                        continue
                    if e is r.value or bad:
                        continue
                    if sum(1 for q in out if q["status"] == VIOLATION) >= ENOUGH:
                        open_ = "not examined further after %d violations" % ENOUGH
                        continue
                    w = col_witness(e, rs, cls, acc, n, c, TRY[:2])
                    if w:
                        bad = in_world(c) + w
                        continue
                    try:
                        ds = D.diffs(r.value, e, r.facts, limit=1)
                    except SOFT as ex:
                        ds = None
                        open_ = str(ex)
                    if ds == []:
                        continue
                    w = col_witness(e, rs, cls, acc, n, c, TRY[2:])
                    if w:
                        bad = in_world(c) + w
                    else:
                        open_ = "differs where " + ds[0].where()[:200] if ds else open_
            if bad:
                out.append(rec(VIOLATION, rule, con, where, bad))
            elif open_:
                out.append(rec(UNDECIDED, rule, con, where, open_))
            else:
                out.append(rec(OK, rule, con, where, n=max(1, k), what="equals %s.%s(%s)" % (
                    cls, acc, ", ".join("%s=%s" % q for q in sorted(consts(cls, args).items())))))
    return out


class Col:
    def __init__(self, e):
        self.value, self.facts, self.error = e, (), None

    class res:
        length = X.NP_


def table_data(k, n, c=None):
    d = O.data([], {}, k, n=n)
    rng = random.Random(k + 17)
    for nm in ["§" + nm for nm in wrap.EXTRA] + ([x for x in c.cells.values() if x not in d.cells] if c else []):
        d.cells[nm] = [F(rng.randint(50, 5000), 7) for _ in range(n)]
    return d


ENOUGH = 12
TRY = ((2, 20), (0, 60), (0, 90), (1, 130), (3, 110), (4, 40), (5, 7), (8, 60))     # (data, rows)


def col_witness(e, rs, cls, acc, n, c=None, tries=TRY):
    for k, rows in tries:
        d = table_data(k, rows, c)
        a = values_of([Col(e)], d.env())
        b = values_of(rs, d.env())
        if a is None or b is None:
            continue
        for t, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                continue
            if not O.same(x, y) and not (O.undef(x) and O.undef(y)):
                return "%s: column %s holds %s, %s.%s gives %s" % (d.show(t), n, O.show(x), cls, acc, O.show(y))
    return None


# ------------------------------------------------------------------ C08
def c08(fn):
    out = []
    where = where_of(fn)
    for p0, vec, fill in settings(fn):
        con = con_of(fn, p0, vec, fill)
        try:
            p, cases = run(fn, p0, vec, fill)
        except SOFT as ex:
            out.append(rec(UNDECIDED, "column set", con, where, "lowering: %s" % ex))
            continue
        cases = in_worlds(fn, p, vec, fill, cases, ("decoy",))
        want = [d[0] for d in documented(fn, p, vec)]
        plain = {d[0]: d[1] for d in documented(fn, p, vec)}
        probs = {RULES[0]: None, RULES[1]: None, RULES[2]: None}
        open_, k = None, 0
        for c in cases:
            if c.error:
                open_ = c.error
                continue
            orig = c.names
            have = [m for m, e, o in columns_of(c)]
            k += 1
            kept = have[: len(orig)]
            if kept != orig:
                lost = [n for n in orig if n not in have]
                probs[RULES[0]] = in_world(c) + "the original columns %s" % ("%s are missing" % lost if lost else "are moved: %s" % have[:8])
            if c.table.index != INPUT:
                probs[RULES[0]] = "the rows are labelled by %s" % CF.token_text(c.table.index)
            if not core.full_length(c.table.length, c.facts):
                probs[RULES[0]] = "the table has %s rows" % X.show_idx(c.table.length)
            for m, e, o in columns_of(c):
                if m in orig and e is not None:
                    if e is not X.at_in(c.cells[m]):
                        probs[RULES[0]] = in_world(c) + "original column %s is changed" % m
            new = [m for m in have if m not in orig]
            miss = [plain[m] for m in want if m not in new]
            extra = [m for m in new if m not in want]
            if miss or extra:
                probs[RULES[1]] = in_world(c) + "; ".join(x for x in (
                    "documented column(s) %s missing" % ", ".join(miss) if miss else "",
                    "undocumented column(s) %s" % ", ".join(str(m) for m in extra) if extra else "") if x)
            dup = sorted({str(m) for m in have if have.count(m) > 1})
            if dup:
                probs[RULES[2]] = "column(s) %s appear twice" % ", ".join(dup)
        for rule, bad in probs.items():
            if bad:
                out.append(rec(VIOLATION, rule, con, where, bad))
            elif open_:
                out.append(rec(UNDECIDED, rule, con, where, open_))
            else:
                out.append(rec(OK, rule, con, where, n=max(1, k) * max(1, len(want)), what="%d documented column(s)" % len(want)))
    return out


RULES = ("the original columns and rows are in place", "exactly the documented columns, named with the prefix", "no column twice")


# ------------------------------------------------------------------ C09
def c09(fn):
    out = []
    rule = "no Python loop over rows and no Python call per row or window is reached in vectorized mode"
    where = where_of(fn)
    for p0, vec, fill in settings(fn, vec_only=True):
        con = con_of(fn, p0, vec, fill)
        try:
            p, cases = run(fn, p0, vec, fill)
        except SOFT as ex:
            out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
            continue
        bad, open_, n, reads = None, None, 0, 0
        for c in cases:
            n += len(getattr(c, "columns", ()) or ()) + 1
            reads += sum(1 for e in c.events if e.kind == "colset")
            if c.error:
                open_ = c.error
            for e in c.events:
                if e.kind in ("perrow", "nested", "pywindow"):
                    d = CF.witness(e, [], {}, consts={"": 0})
                    if d:
                        bad = "%s at %s" % (e.detail, e.where())
                    elif d is False:
                        open_ = "%s at %s" % (e.detail, e.where())
        if bad:
            out.append(rec(VIOLATION, rule, con, where, bad))
        elif open_:
            out.append(rec(UNDECIDED, rule, con, where, open_))
        else:
            out.append(rec(OK, rule, con, where, n=n, what="call graph below %d column assignments" % reads))
    return out


# ------------------------------------------------------------------ effects, labels, exceptions, nesting of the wrapper
def each(fn, rule, judge):
    out = []
    for p0, vec, fill in settings(fn):
        con, where = con_of(fn, p0, vec, fill), where_of(fn)
        try:
            p, cases = run(fn, p0, vec, fill)
            out.append(judge(cases, rule, con, where))
        except SOFT as ex:
            out.append(rec(UNDECIDED, rule, con, where, "lowering: %s" % ex))
    return out


def c02(fn):
    def judge(cases, rule, con, where):
        bad, open_, n = None, None, 0
        for c in cases:
            n += 1
            for e in c.events:
                if e.kind in ("mutate", "mutate_col"):
                    n += 1
                    d = CF.witness(e, [], {}, {"": 0})
                    if d:
                        bad = "%s at %s" % (e.detail, e.where())
                    elif d is False:
                        open_ = "%s at %s" % (e.detail, e.where())
            if c.error:
                open_ = open_ or c.error
                continue
            now = {m: a for m, a in c.caller.cols}
            for m, a in c.before.cols:
                n += 1
                if m not in now:
                    bad = "the caller's column %s is removed" % m
                elif now[m] != a:
                    bad = bad or "the caller's column %s is replaced" % m
                elif c.st.heap.get(a.id) is not c.heap0.get(a.id) or \
                        c.st.heap.get(c.heap0[a.id].st.id) is not c.heap0.get(c.heap0[a.id].st.id):
                    bad = bad or "the caller's column %s is changed" % m
            if c.caller.index != c.before.index or c.caller.length != c.before.length:
                bad = bad or "rows or labels of the caller's table are changed"
        if bad:
            return rec(VIOLATION, rule, con, where, bad)
        if open_:
            return rec(UNDECIDED, rule, con, where, open_)
        return rec(OK, rule, con, where, n=n, what="only new columns are set")
    return each(fn, "no column, row or label that was already there is changed", judge)


def c05(fn):
    def judge(cases, rule, con, where):
        for c in cases:
            if not c.error:
                class res:
                    kind, index, length = "series", c.table.index, c.table.length
                c.res = res
        return CF.alignment(cases, rule, con, where, [], {}, consts={"": 0})
    return each(fn, "rows are addressed by position only; the table keeps its labels", judge)


def c16(fn):
    def judge(cases, rule, con, where):
        bad, open_, n = None, None, 0
        for c in cases:
            n += 1
            if getattr(c, "raised", None) is not None:
                d = CF.raised_witness(c, [], {})
                if d:
                    bad = "%s: %s" % (d.show(), c.error)
                else:
                    open_ = c.error
            elif c.error:
                open_ = c.error
            for e in c.events:
                if e.kind in ("bound", "raise"):
                    n += 1
                    d = CF.witness(e, [], {}, {"": 0}, need=e.data.get("need") if e.kind == "bound" else None)
                    if d:
                        bad = "%s: %s at %s" % (d.show(), e.detail, e.where())
                    elif d is False:
                        open_ = "%s at %s" % (e.detail, e.where())
            if not c.error and not core.full_length(c.table.length, c.facts):
                open_ = "length %s" % X.show_idx(c.table.length)
        if bad:
            return rec(VIOLATION, rule, con, where, bad)
        if open_:
            return rec(UNDECIDED, rule, con, where, open_)
        return rec(OK, rule, con, where, n=n, what="no open obligation")
    return each(fn, "no reachable exception for any table of at least one row; as many rows as the table", judge)


def c25(fn):
    def judge(cases, rule, con, where):
        return CF.nested(cases, rule, con, where, [], {}, {"": 0})
    return each(fn, "no pass over the rows, or over a window of them in Python, is nested in a pass over the rows", judge)


def c03(fn):
    """environment and shared state: nothing impure reaches a column; a call on another table in between changes nothing."""
    def judge(cases, rule, con, where):
        bad, open_, shared, n = None, None, None, 0
        for c in cases:
            n += 1
            if c.error:
                open_ = c.error
                continue
            for e in c.events:
                if e.kind == "impure":
                    key = e.detail.split()[-1].rstrip("()")
                    for m, x, o in columns_of(c):
                        if x is not None and has_atom(x, lambda a: a.kind == "opq" and CF.tainted(a, key)):
                            bad = "column %s depends on %s (%s)" % (m, key, e.where())
                        elif x is not None and has_atom(x, lambda a: a.kind == "opq"):
                            open_ = "%s at %s" % (e.detail, e.where())
                elif e.kind == "shared_write":
                    shared = e
        src = next((e for c in cases for e in c.events if e.kind == "impure"), None)
        if not bad and src is not None:
            w = other_surroundings(fn)
            if w:
                bad = "%s; %s at %s" % (w, src.detail, src.where())
        if not bad and shared is not None:
            w = twice(fn, con)
            if w:
                bad = "%s; %s at %s" % (w, shared.detail, shared.where())
            elif w is None:
                open_ = "%s at %s" % (shared.detail, shared.where())
        if bad:
            return rec(VIOLATION, rule, con, where, bad)
        if open_:
            return rec(UNDECIDED, rule, con, where, open_)
        return rec(OK, rule, con, where, n=n, what="nothing impure is reached, nothing shared is written")
    return each(fn, "draws on no random source, clock, environment or state shared between calls", judge)


def differing(base, other, note):
    """text: a column differs between the runs; False: proved not; None: open."""
    if any(c.error for c in base + other):
        return None
    ok = True
    for c in other:
        for b in base:
            bc = {m: e for m, e, o in columns_of(b)}
            for m, e, o in columns_of(c):
                if e is bc.get(m):
                    continue
                ok = None
                if e is None or bc.get(m) is None:
                    continue
                for k in range(3):
                    d = table_data(k, 60)
                    q = table_data(k + 50, 60)
                    d.cells.update({n + "'": v for n, v in q.cells.items()})
                    x, y = values_of([Col(bc[m])], d.env()), values_of([Col(e)], d.env())
                    if x is None or y is None:
                        continue
                    for t, (u, v) in enumerate(zip(x, y)):
                        if u is None or v is None:
                            continue
                        if not O.same(u, v) and not (O.undef(u) and O.undef(v)):
                            return "column %s row %d is %s %s, %s %s" % (m, t, O.show(u), note[0], O.show(v), note[1])
    return False if ok else None


def twice(fn, con):
    """text: a first call on another table changes the second's columns; False: proved not; None: open."""
    out = False
    for fill in (False, True):
        base = wrap.run(fn, "", False, fill)
        for first in ((fill, False), (not fill, False), (fill, True)):
            w = differing(base, wrap.run(fn, "", False, fill, first=first), ("alone", "after a call on another table"))
            if w:
                return w
            if w is None:
                out = None
    return out


def other_surroundings(fn):
    import lib
    try:
        runs = []
        for m in lib.AMBIENT_MODES:
            lib.AMBIENT = m
            runs.append(wrap.run(fn, "", False, False))
    except SOFT:
        return None
    finally:
        lib.AMBIENT = None
    for o in runs[1:]:
        w = differing(runs[0], o, ("in one environment", "in another"))
        if w:
            return w
    return None


# ------------------------------------------------------------------ the cleaning helper
TABLES = {
    "numeric, text and flag columns": (("a", "num"), ("s", "obj"), ("b", "num"), ("f", "bool")),
    "one numeric column": (("a", "num"),),
    "integer and fractional columns": (("i", "int"), ("x", "float"), ("a", "num")),
    "text only": (("s", "obj"), ("u", "obj")),
}


def cell(n, dt):
    """a cell that may be missing; numeric ones have either sign."""
    if dt == "bool":
        return X.compare(">", X.at_in(n), X.L0)
    if dt == "int":
        return X.sub(X.at_in(n + "+"), X.at_in(n + "-"))
    miss = X.compare(">", X.at_in(n + "?"), X.L0)
    v = X.at_in(n) if dt == "obj" else X.sub(X.at_in(n + "+"), X.at_in(n + "-"))
    return X.ite(miss, X.LNAN, v)


_DN = {}


def clean_cases(table):
    if table in _DN:
        return _DN[table]
    cols_ = TABLES[table]

    def go(it, st, c):
        it.load_module(st, "ta.utils")
        it.seal(st)
        f = lower.need(it, st, "ta.utils", "dropna")
        cols = []
        for n, dt in cols_:
            a = it.arr(st, cell(n, dt), X.NP_, "series", INPUT, n, dt, origin=n)
            it.caller_refs.add(a.id)
            cols.append((n, a))
        df = it.new(st, DF(cols, INPUT, X.NP_, "table"))
        it.caller_refs.add(df.id)
        c.before = it.get(st, df)
        c.heap0 = dict(st.heap)
        r = it.call(st, f, [df], {})
        c.same = r == df
        t = it.obj(st, r)
        if not isinstance(t, DF):
            raise NotUnderstood("result is not a table")
        c.table = t
        c.cols = [(n, it.simp(it.rowwise(st, a)), it.get(st, a)) for n, a in t.cols]
        c.caller = it.get(st, df)
        c.origins = [it.origin(st, a) for n, a in t.cols]
        c.value = True
    r = explore(go)
    _DN[table] = r
    return r


def kept(tok):
    """condition under which a row of the input is kept, or None when the labels are not the input's."""
    acc = X.LT
    while isinstance(tok, tuple) and len(tok) == 3 and tok[0] == "keep":
        acc = X.b_and(acc, X.ALL_E[tok[2]])
        tok = tok[1]
    return acc if tok == INPUT else None


def usable(cols):
    """documented condition: every column present, numeric ones not zero and below exp(709)."""
    big = X.fn1("exp", X.const(709))
    acc = X.LT
    for n, dt in cols:
        e = cell(n, dt)
        acc = X.b_and(acc, X.b_not(X.isna(e)))
        if dt in ("num", "int", "float"):
            acc = X.b_and(acc, X.compare("!=", e, X.L0))
            acc = X.b_and(acc, X.compare("<", e, big))
    return acc


R23 = ("keeps exactly the usable rows", "kept rows are unchanged, in order and under their labels; every column is kept")


def sizes(*es):
    """values about the constants that a row's cells are compared with."""
    out, seen, todo = set(), set(), list(es)
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        todo += x.kids
        if not x.leaf and x.pred.kind == "sign":
            env = G.Env({}, {}, 1)
            rest, ks = F(0), []
            for m, c in x.pred.p.d.items():
                try:
                    v = G.pv(X.Poly({m: c}), env, {})
                    rest += F(v)
                except Exception:
                    if len(m) == 1 and m[0][1] == 1:
                        ks.append(abs(F(c)))
            for k in set(ks):
                v = abs(rest / k)
                if v:
                    out |= {v, v * F(1001, 1000), v * F(999, 1000)}
    return sorted(out)[:30]


def sample_rows(cols, k, extra=()):
    rng = random.Random(k)
    more = list(extra) + [F(1, 10 ** 13), F(1, 10 ** 300), F(10 ** 308), F(17, 10 ** 6)]
    cells = {}
    for n, dt in cols:
        if dt in ("num", "int", "float"):
            r = rng.random()
            v = 0 if r < .2 else (10 ** 308 if r < .4 and dt != "int" else rng.choice([-3, -1, 1, 2, 8, F(1, 3) if dt != "int" else 5, -10 ** 300, 10 ** 300]))
            if dt != "int" and k % 2 and rng.random() < .4:
                v = rng.choice(more) * rng.choice([1, -1])
            cells[n + "+"], cells[n + "-"] = [F(max(v, 0))], [F(max(-v, 0))]
        else:
            cells[n] = [F(rng.choice([0, 1, 4]))]
        cells[n + "?"] = [F(rng.choice([0, 0, 0, 1]))]
    cells["@label"], cells["@row"] = [F(k % 3 == 1)], [F(k % 5 == 1)]      # repeats the label, all cells, of another row
    return cells


def show_row(cols, cells):
    out = []
    for n, dt in cols:
        if dt in ("num", "int", "float", "obj") and cells[n + "?"][0] > 0 and dt != "int":
            out.append("%s=missing" % n)
        elif dt in ("num", "int", "float"):
            out.append("%s=%s" % (n, float(cells[n + "+"][0] - cells[n + "-"][0])))
        elif dt == "bool":
            out.append("%s=%s" % (n, cells[n][0] > 0))
        else:
            out.append("%s=text" % n)
    if cells["@label"][0]:
        out.append("the label of an earlier row")
    if cells["@row"][0]:
        out.append("the content of an earlier row")
    return ", ".join(out)


def truthy(g):
    return g is True or (not isinstance(g, bool) and g not in (X.NAN, X.INF) and g != 0)


def c23(table):
    out = []
    cols = TABLES[table]
    where = core.place("utils", "dropna")
    con = "dropna[%s]" % table
    try:
        cases = clean_cases(table)
    except SOFT as ex:
        return [rec(UNDECIDED, R23[0], con, where, "lowering: %s" % ex)]
    want = usable(cols)
    for rule in R23:
        bad, open_, n = None, None, 0
        for c in cases:
            n += 1
            if c.error:
                if getattr(c, "raised", None) is not None:
                    bad = c.error
                else:
                    open_ = c.error
                continue
            cond = kept(c.table.index)
            if cond is None:
                if rule is R23[1]:
                    bad = "the result is labelled by %s" % CF.token_text(c.table.index)
                else:
                    open_ = "labels are not the input's"
                continue
            if rule is R23[0]:
                n += len(cols)
                if cond is want or not D.diffs(want, cond, c.facts, limit=1):
                    continue
                w = None
                extra = sizes(cond, want)
                for k in range(3000):
                    cells = sample_rows(cols, k, extra)
                    env = G.Env(cells, {}, 1)
                    try:
                        a, b = truthy(core.eval_rows(want, env, [0])[0]), truthy(core.eval_rows(cond, env, [0])[0])
                    except SOFT:
                        continue
                    if a != b:
                        w = "a row with %s is %s" % (show_row(cols, cells), "dropped" if a else "kept")
                        break
                if w:
                    bad = w
                else:
                    open_ = "condition differs: %s" % X.show(cond)[:200]
                continue
            names = [m for m, e, a in c.cols]
            if names != [m for m, dt in cols]:
                bad = "the result has columns %s instead of %s" % (names, [m for m, dt in cols])
                continue
            for (m, e, a), (m2, dt) in zip(c.cols, cols):
                n += 1
                x, y = X.ite(cond, cell(m, dt), X.LNAN), X.ite(cond, e, X.LNAN)
                if x is y or not D.diffs(x, y, c.facts, limit=1):
                    continue
                w = None
                extra = sizes(x, y)
                for k in range(2000):
                    cells = sample_rows(cols, k, extra)
                    env = G.Env(cells, {}, 1)
                    try:
                        p, q = core.eval_rows(x, env, [0])[0], core.eval_rows(y, env, [0])[0]
                    except SOFT:
                        continue
                    if p is None or q is None:
                        continue
                    if not O.same(p, q) and not (O.undef(p) and O.undef(q)):
                        w = "in a row with %s column %s becomes %s" % (show_row(cols, cells), m, O.show(q))
                        break
                if w:
                    bad = w
                else:
                    open_ = "content of column %s differs" % m
        if bad:
            out.append(rec(VIOLATION, rule, con, where, bad))
        elif open_:
            out.append(rec(UNDECIDED, rule, con, where, open_))
        else:
            out.append(rec(OK, rule, con, where, n=n, what="condition %s" % X.show(want)[:200]))
    return out


def clean_effects(table):
    """C02 for the cleaning helper."""
    rule = "the table passed in is left as it was"
    con, where = "dropna[%s]" % table, core.place("utils", "dropna")
    try:
        cases = clean_cases(table)
    except SOFT as ex:
        return [rec(UNDECIDED, rule, con, where, "lowering: %s" % ex)]
    bad, open_, n = None, None, 0
    for c in cases:
        n += 1
        for e in c.events:
            if e.kind in ("mutate", "mutate_col"):
                d = CF.witness(e, [], {}, {"": 0})
                if d:
                    bad = "%s at %s" % (e.detail, e.where())
                elif d is False:
                    open_ = "%s at %s" % (e.detail, e.where())
        if c.error:
            open_ = c.error
            continue
        if c.same:
            bad = bad or "the table passed in is returned"
        if c.caller is not c.before:
            bad = bad or "the caller's table is changed"
        for m, a in c.before.cols:
            n += 1
            if c.st.heap.get(a.id) is not c.heap0.get(a.id) or \
                    c.st.heap.get(c.heap0[a.id].st.id) is not c.heap0.get(c.heap0[a.id].st.id):
                bad = bad or "the caller's column %s is changed" % m
        for m, o in zip([m for m, e, a in c.cols], c.origins):
            if o is not None:
                bad = bad or "the result's column %s shares the storage of the caller's" % m
    if bad:
        return [rec(VIOLATION, rule, con, where, bad)]
    if open_:
        return [rec(UNDECIDED, rule, con, where, open_)]
    return [rec(OK, rule, con, where, n=n, what="works on a copy")]
