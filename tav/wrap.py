"""Lowers the add-features functions on a table with marker column names."""
import driver as DR
from driver import explore, new_input
import lower
import spec
import expr as X
from values import DF, Arr, StrV, Ref
from expr import NotUnderstood
from interp import INPUT

ENTRY = {                 # function -> (family or None for all, input columns, has vectorized switch)
    "add_volume_ta": ("volume", "high low close volume", True),
    "add_volatility_ta": ("volatility", "high low close", True),
    "add_trend_ta": ("trend", "high low close", True),
    "add_momentum_ta": ("momentum", "high low close volume", True),
    "add_others_ta": ("others", "close", False),
    "add_all_ta_features": (None, "open high low close volume", True),
}
# the caller's own column names; two extra columns that belong to nobody, one named like an internal input
NAMES = {"open": "§open", "high": "§high", "low": "§low", "close": "§close", "volume": "§volume"}
EXTRA = ("§note", "close")


def documented(fn, prefix, vectorized):
    fam = ENTRY[fn][0]
    out = []
    for f in spec.COLUMNS if fam is None else (fam,):
        for n, cls, acc, args, vec in spec.COLUMNS[f]:
            if vec or not vectorized:
                out.append((prefix + n, cls, acc, args, f))
    return out


_RUN = {}


FILES = ("wrapper.py", "utils.py", "__init__.py")
_DECOY = {}


def others(world, prefix, vectorized, texts):
    """[(column, cell)] the caller's table has besides, in a world that differs from the plain one."""
    from interp import mk_str
    docs = [d[0] for d in documented("add_all_ta_features", "", False)]
    if world == "stale":          # every documented column is there already, with other content
        return [(mk_str([prefix, n]) if isinstance(prefix, (str, StrV)) else n, "§%s~" % n) for n in docs]
    if world == "decoy":          # a column under every name the code mentions
        return [(n, "§" + n) for n in sorted(texts) if n not in docs and n not in EXTRA and n not in NAMES.values()]
    return []


def run(fn, prefix, vectorized, fill, first=False, world=None):
    """first: (fill, vectorized) of an earlier call on another table; world: see others.  cases; each has .table (DF), .columns {name: (E, Arr)}, .caller (DF after the call), .events."""
    import lib
    key = (fn, prefix, vectorized, fill, first, world, lib.AMBIENT)
    if key in _RUN:
        return _RUN[key]

    def go(it, st, c):
        it.load_module(st, "ta.wrapper")
        it.seal(st)
        f = lower.need(it, st, "ta.wrapper", fn)
        more = others(world, prefix, vectorized, it.name_texts(FILES))
        it.bystander = EXTRA[0]
        c.world, c.names = world, list(NAMES.values()) + list(EXTRA) + [n for n, _ in more]
        c.cells = {v: q for q, v in NAMES.items()}
        c.cells.update({n: "§" + n for n in EXTRA})
        c.cells.update(dict(more))
        def table(mark=""):
            cols = []
            for n in ("open", "high", "low", "close", "volume"):
                cols.append((NAMES[n], new_input(it, st, NAMES[n], cell=n + mark)))
            for n in EXTRA:
                cols.append((n, new_input(it, st, n, cell="§" + n + mark, dtype="num")))
            for n, cell in more:
                cols.append((n, new_input(it, st, n, cell=cell + mark, dtype="num")))
            df = it.new(st, DF(cols, INPUT, X.NP_, "table"))
            it.caller_refs.add(df.id)
            return df, cols
        kw = {}
        if isinstance(prefix, (str, StrV)):      # otherwise every switch is left to its default
            kw = {"fillna": fill, "colprefix": prefix}
            if ENTRY[fn][2]:
                kw["vectorized"] = vectorized
        ins = {n: NAMES[n] for n in ENTRY[fn][1].split()}
        if first:
            kw1 = dict(kw, fillna=first[0])
            if ENTRY[fn][2]:
                kw1["vectorized"] = first[1]
            it.call(st, f, [table("'")[0]], dict(kw1, **ins))
        df, cols = table()
        c.before = it.get(st, df)
        c.heap0 = dict(st.heap)
        if prefix == "":                         # by keyword
            r = it.call(st, f, [], dict(kw, df=df, **ins))
        else:                                    # table and column names by position
            r = it.call(st, f, [df] + [NAMES[n] for n in ENTRY[fn][1].split()], kw)
        c.same = r == df
        t = it.obj(st, r)
        if not isinstance(t, DF):
            raise NotUnderstood("result is not a table")
        c.table = t
        c.columns = []
        for n, a in t.cols:
            o = it.get(st, a)
            try:
                e = it.simp(it.rowwise(st, a))
            except NotUnderstood as ex:
                e = None
            c.columns.append((n, e, o))
        c.original = {n: a for n, a in cols}
        c.caller = it.get(st, df)
        c.df = df
        c.value = True
    r = explore(go)
    _RUN[key] = r
    return r
