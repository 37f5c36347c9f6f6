"""Properties decided by comparing every published result with its reference definition."""
import core
import lower
import spec
import oracle as O
import expr as X
import evalg as G
from core import SOFT
from report import rec, OK, VIOLATION, UNDECIDED

EQ = "value graph equals the definition's value graph"


def results(cls):
    return [r for r in spec.RESULTS if r.cls == cls]


def configs(r):
    for o in lower.options(r.cls):
        for fill in (False, True):
            yield o, fill


def label(r, o, fill):
    t = core.opt_text(o)
    return r.name + "[" + (t + ", " if t else "") + "fillna=%s]" % fill


def witness_text(ws, k=3):
    return "; ".join(w.text() for w in ws[:k])


def chain(cmp_):
    """where the two graphs were found to part."""
    return [x for x in cmp_.reasons[:6]]


def by_core(prop, cls):
    out = []
    for r in results(cls):
        if prop in ("C17", "C18", "C19", "C20", "C21", "C22") and r.group != prop:
            continue
        for o, fill in configs(r):
            if prop in ("C14",) and fill:
                continue
            c = core.compare(cls, r.acc, fill, o)
            con = label(r, o, fill)
            if prop in GROUPS:
                out.append(whole(r, o, fill, con, c.place))
                if not fill and cls not in UNSIGNED:
                    out.append(signed(r, o, con, c.place))
            if c.status == "equal":
                out.append(rec(OK, EQ, con, c.place, n=max(1, c.obligations), what="all rows, %d region(s)" % c.obligations))
                continue
            ws = SELECT[prop](c) if c.status == "differs" else []
            if ws:
                out.append(rec(VIOLATION, RULE[prop], con, c.place, witness_text(ws), steps=chain(c)))
            elif c.lengths and prop in ("C14",) + GROUPS:
                d, a, b = c.lengths[0]
                out.append(rec(VIOLATION, RULE[prop], con, c.place, "%s: the result has %d rows instead of %d" % (d.show(), a, b),
                               steps=chain(c)))
            else:
                why = "; ".join(c.reasons[:2])
                if c.status == "differs":
                    why = "the differences found concern another property; " + why
                out.append(rec(UNDECIDED, EQ, con, c.place, why + " (%d histories agree)" % c.sampled))
    return out


WHOLE = "the same for data of an integer type"


def whole(r, o, fill, con, place):
    """the caller's numbers are of an integer type: nothing computed from them is cut to whole numbers."""
    base, ints = lower.code(r.cls, r.acc, fill, o), lower.code(r.cls, r.acc, fill, o, ints=True)
    if len(base) == len(ints) and all(not y.error and x.value is y.value for x, y in zip(base, ints)):
        return rec(OK, WHOLE, con, place, n=len(ints), what="same graph")
    why = next((y.error for y in ints if y.error), "the graph differs")
    refs = lower.ref(r.cls, r.acc, fill, o)
    kinds = core.kinds_of(r.cls)
    for k in range(24):
        d = O.data(kinds, o, k, modes=("swing", "generic", "grid", "up"))
        cells = {c: [O.F(max(1, round(float(x)))) for x in v] for c, v in d.cells.items()}
        env = d.env(cells=cells)
        try:
            y = O.pick(ints, env)
            x = O.pick(base, env)
        except SOFT:
            continue
        if y is None or x is None or x.error:
            continue
        if y.error:
            if getattr(y, "raised", None) is not None:
                return rec(VIOLATION, WHOLE, con, place, "%s, whole numbers: %s" % (d.show(), y.error))
            continue
        for cs, which in ((base, "value"), (refs, "value"), (refs, "raw")):
            a, b = values(ints, env), values(cs, d.env(cells=cells), which)
            if a is None or b is None or len(a) != len(b):
                break
            bad = next((t for t, (u, v) in enumerate(zip(a, b)) if u is not None and v is not None and
                        not O.same(u, v) and not (O.undef(u) and O.undef(v))), None)
            if bad is None:
                break
        else:
            p = values(base, d.env(cells=cells))
            return rec(VIOLATION, WHOLE, con, place, "%s, whole numbers: row %d is %s, for the same numbers as fractions %s" % (
                d.show(), bad, O.show(a[bad]), O.show(p[bad]) if p and p[bad] is not None else "other"))
    return rec(UNDECIDED, WHOLE, con, place, why)


ZERO = "the same for prices that may be zero or negative"
# the split of money flow by its sign and logarithms speak about positive prices
UNSIGNED = ("MFIIndicator", "DailyLogReturnIndicator")


def signed(r, o, con, place):
    """series that cross zero (spreads): the definition still holds; what this world leaves open is left open."""
    try:
        code = lower.code(r.cls, r.acc, False, o, signed=True)
        refs = lower.ref(r.cls, r.acc, False, o, signed=True)
        if all(not c.error and all(not x.error and x.raw is c.value for x in lower.ref(r.cls, r.acc, False, o, c.facts, signed=True))
               for c in code):
            return rec(OK, ZERO, con, place, n=len(code), what="same graph")
    except SOFT:
        return rec(OK, ZERO, con, place, what="left open")
    kinds = core.kinds_of(r.cls)
    for k in range(14):
        d = O.data(kinds, o, k, modes=("swing", "generic", "up", "down"))
        prices = [x for c, v in d.cells.items() if c != "volume" for x in v]
        level = O.F(sum(prices)) / len(prices) + O.F(1, 7) if k % 2 == 0 else O.F(max(prices)) * 2
        env = d.env(params=dict(d.params, pricelevel=level))
        a, b = values(code, env), values(refs, env, "raw")
        if a is None or b is None or len(a) != len(b):
            continue
        bad = next((t for t, (u, v) in enumerate(zip(a, b)) if u is not None and v is not None and not O.undef(v) and
                    not O.same(u, v)), None)
        if bad is not None:
            return rec(VIOLATION, ZERO, con, place, "%s, all prices lowered by %s: row %d is %s, definition gives %s" % (
                d.show(), O.show(level), bad, O.show(a[bad]), O.show(b[bad])))
    return rec(OK, ZERO, con, place, what="left open")


GROUPS = ("C17", "C18", "C19", "C20", "C21", "C22")


def sel_formula(c):
    return core.formula_rows(c)


def sel_gap(c):
    if c.fill:
        return core.gap_rows(c)
    out = []
    refs = None
    for w in c.witnesses:
        if O.undef(w.raw) and not O.undef(w.code) and c.r.fill != spec.NOFILL:
            refs = refs or lower.ref(c.r.cls, c.r.acc, True, c.opts)
            env = w.data.env()
            s = O.pick(refs, env)
            if s is None or s.error:
                continue
            p = core.eval_rows(s.value, env, [w.t])[0]
            if p is not None and O.same(p, w.code):
                out.append(w)
    return out


SELECT = {"C04": sel_gap, "C14": core.warmup_rows, "C15": core.degenerate_rows}
SELECT.update({g: sel_formula for g in GROUPS})
RULE = {
    "C04": "gap-filled rows hold the documented fill of the unfilled result",
    "C14": "a row is defined exactly when its look-back is complete; warm-up rows hold the documented convention",
    "C15": "vanishing denominators and zero ranges take the documented outcome",
}
RULE.update({g: "defined rows equal the published formula" for g in GROUPS})


# ------------------------------------------------------------------ C13: exactly the documented inputs and parameters
def cells_of(e):
    got = set()
    for s in support(e):
        if s[0] == "cell":
            got.add(s[1])
    return got


def support(e):
    """parameters and input columns a diagram mentions."""
    seen, out = set(), set()

    def expr(x):
        if x is None or ("e", x.id) in seen:
            return
        seen.add(("e", x.id))
        if x.leaf:
            rat(x.v)
            return
        p = x.pred
        if p.kind in ("row", "sign"):
            poly(p.p)
        elif p.kind == "bool":
            atom(p.p)
        else:
            rat(p.p)
        for k in x.kids:
            expr(k)

    def rat(v):
        if hasattr(v, "n") and hasattr(v, "d"):
            poly(v.n)
            poly(v.d)

    def poly(p):
        for i in p.atoms():
            atom(X.ATOMS[i] if hasattr(X, "ATOMS") else i)

    def atom(a):
        if isinstance(a, int):
            from poly import ATOMS
            a = ATOMS[a]
        if ("a", a.id) in seen:
            return
        seen.add(("a", a.id))
        k = a.kind
        if k == "sym":
            out.add(("sym", a.a[0]))
        elif k == "in":
            out.add(("cell", a.a[0]))
            poly(a.a[1])
        elif k == "agg":
            expr(a.a[1])
            poly(a.a[2])
            poly(a.a[3])
        elif k == "rec":
            s = a.a[0]
            poly(s.start)
            poly(a.a[2])
            for x in s.inits:
                expr(x)
            for x in s.updates:
                expr(x)
        elif k == "fill":
            expr(a.a[1])
            poly(a.a[2])
        elif k == "fn":
            for x in a.a[1:]:
                rat(x)
        elif k == "opq":
            out.add(("unknown",))
    expr(e)
    return out


def mentions(cases, which):
    out = set()
    for c in cases:
        if c.error:
            out.add(("unknown",))
            continue
        e = getattr(c, which)
        out |= support(e)
        for f in c.facts:
            for i in f.atoms():
                from poly import ATOMS
                a = ATOMS[i]
                if a.kind == "sym":
                    out.add(("sym", a.a[0]))
    return out


def values(cases, env, which="value"):
    try:
        c = O.pick(cases, env)
        if c is None or c.error:
            return None
        n = int(G.pv(c.res.length, env, {}))
        return core.eval_rows(getattr(c, which), env, range(n))
    except SOFT:
        return None


def agree(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    for x, y in zip(a, b):
        if x is None or y is None:
            return None
        if not (O.same(x, y) or (O.undef(x) and O.undef(y))):
            return False
    return True


def perturbed(d, name, rng_v):
    ps = dict(d.params)
    ps[name] = rng_v
    return ps


def influence(r, cases, opts, name, which="value", tries=14):
    """does changing one parameter (or column) ever change the result?  data witness or None."""
    kinds = dict(core.kinds_of(r.cls))
    for k in range(tries):
        d = O.data(core.kinds_of(r.cls), opts, k)
        a = values(cases, d.env(), which)
        if name in kinds:
            if d.params.get(name) is None:
                continue
            v = d.params[name]
            alts = [v + 1, v + 2, max(1, v - 1)] if kinds[name] != "real" else [v * 2, v / 3]
            for x in alts:
                b = values(cases, d.env(params=perturbed(d, name, x)), which)
                if agree(a, b) is False:
                    return d
        else:
            cells = dict(d.cells)
            cells[name] = [x * (1 + O.F(i % 3, 17)) + O.F(i % 5, 3) for i, x in enumerate(cells[name])]
            b = values(cases, d.env(cells=cells), which)
            if agree(a, b) is False:
                return d
    return None


def mappings(r, opts):
    """misassignments worth testing: parameter swapped with, or replaced by, another one of its kind; the same for columns."""
    ps = [(n, k) for n, k in core.kinds_of(r.cls) if k in ("int", "int0", "real") or (k == "optint" and opts.get(n) is not None)]
    for i, (a, ka) in enumerate(ps):
        for b, kb in ps[i + 1:]:
            if (ka == "real") == (kb == "real"):
                yield "%s and %s are interchanged" % (a, b), {a: b, b: a}, {}
    for a, ka in ps:
        for b, kb in ps:
            if a != b and (ka == "real") == (kb == "real"):
                yield "%s is used in place of %s" % (b, a), {a: b}, {}
    cs = r.inputs
    for i, a in enumerate(cs):
        for b in cs[i + 1:]:
            yield "%s and %s are interchanged" % (a, b), {}, {a: b, b: a}
    for a in cs:
        for b in cs:
            if a != b:
                yield "%s is used in place of %s" % (b, a), {}, {a: b}


def c13(cls):
    out = []
    opts = lower.options(cls)
    kinds = dict(core.kinds_of(cls))
    for r in results(cls):
        for o, fill in configs(r):
            c = core.compare(cls, r.acc, fill, o)
            con = label(r, o, fill)
            rule = "depends on all and only its documented inputs and parameters"
            if c.status == "equal":
                ref = lower.ref(cls, r.acc, fill, o)
                ms = mentions(ref, "value")
                out.append(rec(OK, rule, con, c.place, n=max(1, len(ms)),
                               what="graph equals the definition, which uses " + ", ".join(sorted(m[-1] for m in ms))))
                continue
            try:
                bad = c13_diff(r, c, o, fill, kinds, opts)
            except SOFT as ex:
                bad = None
                c.reasons.append("%s %s" % (type(ex).__name__, ex))
            if bad:
                out.append(rec(VIOLATION, rule, con, c.place, bad, steps=chain(c)))
            else:
                out.append(rec(UNDECIDED, rule, con, c.place, "; ".join(c.reasons[:2])))
    return out


def default_only(r, c, o, code, ref):
    """is the result right for the documented defaults of some parameters and wrong for other values of them?"""
    ks = core.kinds_of(r.cls)
    dflt = {n: (O.F(str(v)) if k == "real" else v) for n, k in ks for v in [spec.DEFAULTS[r.cls].get(n)]
            if k != "bool" and v is not None and o.get(n, 1) is not None}
    groups = [[n] for n in dflt] + [[n for n, k in ks if n in dflt and k == "real"], list(dflt)]
    for g in [x for i, x in enumerate(groups) if x and x not in groups[:i]]:
        n = 26 + 2 * int(max(dflt[x] for x in g))
        wrong, seen = None, 0
        for i in range(18):
            d = O.data(ks, o, i, n=n)
            if d.mode in O.SCALED:
                continue
            ps = dict(d.params, **{x: dflt[x] for x in g})
            a, b = values(code, d.env(params=ps)), values(ref, d.env(params=ps))
            if agree(a, b) is not True:
                wrong = None
                break
            seen += sum(1 for v in b if not O.undef(v) and v != 0)
            if wrong is None and d.params != ps:
                x, y = values(code, d.env()), values(ref, d.env())
                if agree(x, y) is False:
                    wrong = d
        else:
            if wrong is not None and seen >= 20:
                return "right for %s, the default, and wrong for other values (%s)" % (
                    ", ".join("%s = %s" % (x, dflt[x]) for x in g), wrong.show())
    return None


def c13_diff(r, c, o, fill, kinds, opts):
    if c.status != "differs":
        return None
    code = lower.code(r.cls, r.acc, fill, o)
    ref = lower.ref(r.cls, r.acc, fill, o)
    mc, mr = mentions(code, "value"), mentions(ref, "value")
    names = [n for n, k in core.kinds_of(r.cls) if k != "bool" and o.get(n, 1) is not None] + r.inputs
    if ("unknown",) not in mc:
        for n in names:
            inc = ("sym", n) in mc or ("cell", n) in mc
            inr = ("sym", n) in mr or ("cell", n) in mr
            if inr and not inc and influence(r, ref, o, n):
                return "%s has no influence on the result" % n
    for n in names:
        inr = ("sym", n) in mr or ("cell", n) in mr
        inc = ("sym", n) in mc or ("cell", n) in mc
        if inc and not inr:
            d = influence(r, code, o, n)
            if d:
                return "%s influences the result (%s), which it is not documented for" % (n, d.show())
    # a parameter that is mentioned but never matters
    for n in names:
        if (("sym", n) in mr or ("cell", n) in mr) and influence(r, ref, o, n, tries=8) and not influence(r, code, o, n, tries=20):
            return "%s has no influence on the result on any of 20 histories" % n
    # switches
    for n, k in kinds.items():
        if k in ("bool", "optint") and n in o:
            other = dict(o, **{n: (not o[n]) if k == "bool" else (None if o[n] else "sym")})
            c2 = lower.code(r.cls, r.acc, fill, other)
            r2 = lower.ref(r.cls, r.acc, fill, other)
            same_c, diff_r = True, False
            for i in range(12):
                d = O.data(core.kinds_of(r.cls), {k2: (v or "sym") for k2, v in o.items()}, i)
                a, b = values(code, d.env()), values(c2, d.env())
                x, y = values(ref, d.env()), values(r2, d.env())
                if a is None or b is None or agree(a, b) is False or len(a) != len(b):
                    same_c = False
                    break
                if x is not None and y is not None and (len(x) != len(y) or agree(x, y) is False):
                    diff_r = True
            if same_c and diff_r:
                return "the switch %s has no influence on the result" % n
    bad = default_only(r, c, o, code, ref)
    if bad:
        return bad
    # misassignment
    ds = []
    for w in c.witnesses:
        if w.data not in ds and w.data.n <= 40:
            ds.append(w.data)
    more = [O.data(core.kinds_of(r.cls), o, k) for k in range(10)]
    ds = ds[:6]
    if len(ds) >= 2:
        tab = [(d, values(code, d.env())) for d in ds + more]
        if all(v is not None for d, v in tab):
            for text, pm, cm in mappings(r, o):
                ok = True
                for d, v in tab:
                    ps = dict(d.params)
                    for a, b in pm.items():
                        ps[a] = d.params[b]
                    cells = dict(d.cells)
                    for a, b in cm.items():
                        cells[a] = d.cells[b]
                    x = values(ref, d.env(params=ps, cells=cells))
                    if agree(v, x) is not True:
                        ok = False
                        break
                if ok:
                    return "%s (the result equals the definition with that change on %d histories)" % (text, len(tab))
    return None
