"""Loops over a symbolic number of iterations: summarised as recurrences over the iteration number.

The body is interpreted once for a symbolic iteration; every variable, attribute, list item and array row that is carried
from one iteration to the next becomes a component of a recurrence, closed forms are used where they exist."""
import ast
from poly import Poly, Rat, ONE, ZERO
import expr as X
import domain as D
from expr import leaf, TP, T, LNAN, L0, LT, LF, NotUnderstood
from values import *
import interp as I

MISSING = object()


class Loop:
    """One active row loop."""

    def __init__(self, isym, a, b, rows):
        self.isym, self.a, self.b, self.rows = isym, a, b, rows
        self.cells = {}           # ("lag", st, d) -> E placeholder
        self.offs = {}            # st -> write offset (Poly)
        self.lag_atoms = {}
        self.appended = {}        # list id -> True
        self.born = I.fresh_id()
        self.interp = None

    def append(self, st, o, v):
        x = st.heap[o.id]
        it = self.interp
        if not I.is_num(v):
            if isinstance(v, Opaque):
                v = I.from_e(I.opq(v.why), "float")
            else:
                raise NotUnderstood("row list of non-numbers")
        if o.id not in self.appended or isinstance(x, PyList):
            self.appended[o.id] = True
            return None
        s = st.heap[x.st.id]
        if s.loop is not self or s.cur is not None:
            raise NotUnderstood("several values appended per iteration")
        n = x.length
        k = n - Poly.atom(self.isym)
        t = I.ntype(v)
        dt = s.dtype
        if dt is None or dt == "none":
            dt = t
        elif dt != t:
            dt = I.dt_join("+", dt, t)
        st.heap[x.st.id] = s.set(off=k, cur=I.to_e(v), dtype=dt)
        self.offs[x.st.id] = k
        st.heap[o.id] = x.set(length=n + 1)
        return None


def same(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, Num):
        return x.e is y.e and x.t == y.t
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    try:
        return bool(x == y)
    except Exception:
        return False


class Retry(Exception):
    pass


COPIES = ("append", "concatenate", "hstack", "vstack", "concat", "insert", "column_stack", "block")
PASSES = ("sum", "max", "min", "sorted", "list", "tuple", "set", "array", "asarray", "mean", "std", "median", "any", "all", "Series",
          "fsum", "reversed", "prod", "var", "argmax", "argmin", "percentile", "quantile", "DataFrame")
SCANS = ("index", "count", "remove", "insert", "sort", "reverse", "copy", "mean", "max", "min", "sum", "tolist", "std", "median")
SHRINKS = ("pop", "popleft", "clear", "remove")


def growing(body):
    """statements of a loop body whose cost grows with the number of iterations made so far:
    {id(statement): (text of the container, what)}."""
    nodes = [n for s in body for n in ast.walk(s)]
    skip = {id(m) for n in nodes if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.For, ast.While)) for m in ast.walk(n) if m is not n}

    def key(n):
        return ast.unparse(n) if isinstance(n, (ast.Name, ast.Attribute)) else None

    def mentions(n, k):
        return any(key(m) == k for m in ast.walk(n))

    def name_of(f):
        return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
    stores, appended, shrunk = {}, set(), set()
    for s in nodes:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for tg in s.targets if isinstance(s, ast.Assign) else [s.target]:
                for x in ast.walk(tg):
                    if key(x) and isinstance(getattr(x, "ctx", None), ast.Store):
                        stores.setdefault(key(x), []).append(s)
                if isinstance(tg, ast.Subscript) and isinstance(tg.slice, ast.Slice) and key(tg.value):
                    shrunk.add(key(tg.value))
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Subscript) and key(tg.value):
                    shrunk.add(key(tg.value))
        elif isinstance(s, (ast.For, ast.comprehension)):
            for x in ast.walk(s.target):
                if key(x):
                    shrunk.add(key(x))
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and key(s.func.value):
            if s.func.attr in ("append", "insert", "extend"):
                appended.add(key(s.func.value))
            elif s.func.attr in SHRINKS:
                shrunk.add(key(s.func.value))
    out = {}

    def parts(v, k):
        """v is k with something added to it."""
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            for a, b in ((v.left, v.right), (v.right, v.left)):
                if key(a) == k and isinstance(b, (ast.List, ast.Tuple)) and b.elts:
                    return True
        if isinstance(v, (ast.List, ast.Tuple)) and len(v.elts) > 1:
            return any(isinstance(e, ast.Starred) and key(e.value) == k for e in v.elts)
        if isinstance(v, ast.Call) and name_of(v.func) in COPIES and isinstance(v.func, ast.Attribute) and v.args:
            a = v.args[0]
            if key(v.func.value) == k:
                return name_of(v.func) not in ("append", "insert")
            if key(a) == k and name_of(v.func) in ("append", "insert"):
                return True
            if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) > 1:
                return any(key(e) == k for e in a.elts)
        if isinstance(v, ast.Call) and name_of(v.func) in ("array", "asarray", "Series", "list", "tuple") and v.args:
            return parts(v.args[0], k)
        return False

    def visit(stmts):
        for s in stmts:
            if id(s) in skip:
                continue
            for f in ("body", "orelse", "finalbody"):
                visit(getattr(s, f, []) or [])
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and key(s.targets[0]):
                k = key(s.targets[0])
                if len(stores.get(k, ())) == 1 and k not in shrunk and parts(s.value, k):
                    out[id(s)] = (s.targets[0], "makes a longer copy of %s in every pass" % k)
            # lists that only grow
            heads = [s] if not hasattr(s, "body") else [getattr(s, "test", None) or getattr(s, "iter", None)]
            for h in heads:
                for n in ast.walk(h) if h is not None else ():
                    if id(n) in skip:
                        continue
                    k, what = None, None
                    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                        k, what = n.comparators[0], "searches"
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SCANS and key(n.func.value) \
                            in appended:
                        if n.func.attr == "insert" and not (n.args and isinstance(n.args[0], ast.Constant)):
                            continue
                        k, what = n.func.value, n.func.attr + "() walks over"
                    elif isinstance(n, ast.Call) and name_of(n.func) in PASSES and len(n.args) >= 1:
                        k, what = n.args[0], name_of(n.func) + "() walks over"
                    if k is not None and key(k) in appended and key(k) not in shrunk and not stores.get(key(k)):
                        out[id(s)] = (k, "%s the list %s, which grows in every pass" % (what, key(k)))
    visit(body)
    return out


class RowLoop:
    def __init__(self, interp, st, a, b, bind, body, orelse):
        self.it, self.st, self.a, self.b = interp, st, a, b
        self.bind, self.body, self.orelse = bind, body, orelse

    # ---- helpers on cells
    def slots(self, heap, ids):
        """scalar slots of the given objects: key -> value."""
        out = {}

        def put(key, v):
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    put(key + (i,), x)
            out[key] = v
        for i in ids:
            o = heap.get(i)
            if isinstance(o, Frame):
                for k, v in o.vars.items():
                    put(("var", i, k), v)
            elif isinstance(o, Inst):
                for k, v in o.attrs.items():
                    put(("attr", i, k), v)
            elif isinstance(o, PyList):
                for k, v in enumerate(o.items):
                    put(("item", i, k), v)
            elif isinstance(o, PyDict):
                for k, v in o.items:
                    put(("key", i, k), v)
        return out

    def set_slot(self, heap, key, v):
        kind, i, k = key[:3]
        o = heap[i]
        if len(key) > 3:
            cur = self.get_slot(heap, key[:3])
            v = self._tset(cur, key[3:], v)
        if kind == "var":
            heap[i] = o.set(vars={**o.vars, k: v})
        elif kind == "attr":
            heap[i] = o.set(attrs={**o.attrs, k: v})
        elif kind == "item":
            its = list(o.items)
            its[k] = v
            heap[i] = o.set(items=tuple(its))
        else:
            heap[i] = o.set(items=tuple((p, v if p == k else q) for p, q in o.items))

    def _tset(self, cur, path, v):
        if not path:
            return v
        if not isinstance(cur, tuple):
            raise NotUnderstood("loop state shape")
        l = list(cur)
        l[path[0]] = self._tset(l[path[0]], path[1:], v)
        return tuple(l)

    def get_slot(self, heap, key):
        kind, i, k = key[:3]
        o = heap.get(i)
        if kind == "var":
            v = o.vars.get(k, MISSING)
        elif kind == "attr":
            v = o.attrs.get(k, MISSING)
        elif kind == "item":
            v = o.items[k] if k < len(o.items) else MISSING
        else:
            v = next((q for p, q in o.items if p == k), MISSING)
        for p in key[3:]:
            if not isinstance(v, tuple) or p >= len(v):
                return MISSING
            v = v[p]
        return v

    # ---- main
    def run(self):
        it = self.it
        n = self.b - self.a
        d = it.decide(n - 1)
        if d is False:
            return self.finish(self.st)
        if d is None:
            raise I.NeedSplit(n - 1)
        rows = it.is_rows(n)
        if rows and not it.quiet:
            it.event("perrow", "a Python loop runs once per row", self.st)
            if it.inrow:
                it.event("nested", "a loop over the rows inside a loop over the rows", self.st)
        start = self.a
        st = self.st
        if rows and self.body:
            it.kept_asts.append(self.body)
            for sid, (k, what) in growing(self.body).items():
                try:
                    v = it.ev(st, ast.parse(ast.unparse(k), mode="eval").body)
                except (NotUnderstood, I.PyRaise):
                    continue
                o = it.obj(st, v) if isinstance(v, Ref) else v
                if isinstance(o, (Arr, tuple)) or isinstance(o, PyList) and o.kind in ("list", "nd1"):
                    it.growing[sid] = what
        # one pass that only looks at which kinds of value are carried
        for peel in range(4):
            try:
                return self.summarise(st, start, rows)
            except Retry:
                if peel == 3:
                    raise NotUnderstood("loop state changes its kind")
                d = it.decide(self.b - start - 1)
                if d is False:
                    return self.finish(st)
                if d is None:
                    raise I.NeedSplit(self.b - start - 1)
                st = self.peel(st, start, rows)
                start = start + 1
                d = it.decide(self.b - start - 1)
                if d is False:
                    return self.finish(st)
                if d is None:
                    raise I.NeedSplit(self.b - start - 1)

    def finish(self, st):
        if self.orelse:
            return self.it.block(st, self.orelse)
        return st, []

    def peel(self, st, start, rows):
        it = self.it
        st = st.fork()
        it.inrow += 1 if rows else 0
        try:
            self.bind(st, start)
            cur, outs = it.block(st, self.body)
            return self.join(cur, outs, st)
        finally:
            it.inrow -= 1 if rows else 0

    def join(self, cur, outs, base):
        for kind, v, s in outs:
            if kind == "cont":
                cur = s if cur is None else self.it.merge(s.guard, s, cur, base)
            elif kind == "raise":
                continue
            elif kind == "break":
                raise NotUnderstood("break out of a loop over rows")
            else:
                raise NotUnderstood("return inside a loop over rows")
        if cur is None:
            raise I.PyRaise("Exception", "every path of the loop body raises")
        return cur

    def one_pass(self, st0, lp, start, rows, plan):
        """interpret the body once; returns the state at the end of the iteration."""
        it = self.it
        isym = Poly.atom(lp.isym)
        st = st0.fork()
        st.guard = LT
        for key, ph in plan.items():
            self.set_slot(st.heap, key, ph)
        for sid in list(lp.offs):
            s = st.heap.get(sid)
            if s is not None and (s.loop is None or s.loop is lp) and sid in self.written:
                st.heap[sid] = s.set(loop=lp, off=None, cur=None)
        for oid in self.lists:
            x = st.heap[oid]
            st.heap[oid] = x.set(length=self.lists[oid] + isym - start)
        for sid, ph in self.curs.items():
            s = st.heap[sid]
            st.heap[sid] = s.set(cur=ph)
        saved = it.ctx, it.inrow
        it.loops.append(lp)
        it.ctx = list(it.ctx) + [isym - start, self.b - 1 - isym]
        it.inrow += 1 if rows else 0
        try:
            self.bind(st, isym)
            cur, outs = it.block(st, self.body)
            return self.join(cur, outs, st)
        finally:
            it.loops.pop()
            it.ctx, it.inrow = saved

    def summarise(self, st0, start, rows):
        it = self.it
        depth = len(it.loops)
        lb = 0 if it.decide(start) is True else None
        isym_atom = X.sym("i%d" % depth if lb == 0 else "j%d" % depth, "row" if rows else "int", lb)
        lp = Loop(isym_atom, start, self.b, rows)
        lp.interp = it
        st0 = st0.fork()
        plan = {}             # slot key -> placeholder value
        kinds = {}            # slot key -> type
        nullable = set()
        self.written = set()
        self.lists = {}
        self.curs = {}        # storages of outer loops: current row value
        curk = {}
        nev, nno = len(it.events), len(it.notes)
        for rounds in range(14):
            del it.events[nev:]
            del it.notes[nno:]
            ids = list(st0.heap)
            end = self.one_pass(st0, lp, start, rows, plan)
            changed = False
            # lists appended to
            for oid in list(lp.appended):
                if oid not in self.lists:
                    x = st0.heap[oid]
                    if isinstance(x, PyList):
                        if any(not I.is_num(v) for v in x.items):
                            raise NotUnderstood("row list of non-numbers")
                        if x.items:
                            r = it.lib.list_arr(st0, Ref(oid))
                            y = it.get(st0, r)
                            st0.heap[oid] = Arr("list", y.st, y.length, None, None)
                        else:
                            s = it.new(st0, Stor(LNAN, None, "none"))
                            st0.heap[oid] = Arr("list", s, ZERO, None, None)
                    x = st0.heap[oid]
                    self.lists[oid] = x.length
                    self.written.add(x.st.id)
                    lp.offs[x.st.id] = x.length - start
                    changed = True
            # storages written
            for sid in list(lp.offs):
                if sid not in self.written and sid in st0.heap:
                    s = st0.heap[sid]
                    if s.loop is not None and s.loop is not lp:
                        raise NotUnderstood("array filled by two nested loops")
                    self.written.add(sid)
                    changed = True
            if changed:
                continue
            # slots
            a, b = self.slots(st0.heap, ids), self.slots(end.heap, ids)
            for key, v in b.items():
                if key not in a:
                    continue          # created by the body
                if key in plan:
                    old, base = plan[key], a[key]
                else:
                    old = base = a[key]
                if same(old, v):
                    continue
                if isinstance(v, tuple) and isinstance(base, tuple) and len(v) == len(base):
                    continue          # compared item by item
                if any(key[:j] in plan for j in range(3, len(key))):
                    continue
                if I.is_num(v) and I.is_num(base):
                    t = self.kind_of(base, v)
                    if key not in plan or kinds[key] != t:
                        if key in kinds and kinds[key] != t:
                            t = "float" if "bool" not in (kinds[key], t) else "float"
                            if kinds[key] == t:
                                continue
                        kinds[key] = t
                        plan[key] = self.fresh(t, key in nullable)
                        changed = True
                elif key not in plan:
                    if (base is None or isinstance(base, str)) and (I.is_num(v)):
                        raise Retry()
                    kinds[key] = None
                    plan[key] = Opaque("value carried round the loop")
                    changed = True
            # rows of an outer loop's array
            for sid in ids:
                s0, s1 = st0.heap.get(sid), end.heap.get(sid)
                if isinstance(s0, Stor) and s1 is not None and s0.loop is not None and s0.loop is not lp and \
                        sid not in self.written:
                    if s1.cur is not None and s1.cur is not (self.curs.get(sid) if sid in self.curs else s0.cur):
                        if sid not in self.curs:
                            t = "bool" if s1.dtype == "bool" else "float"
                            curk[sid] = t
                            ph = self.fresh(t, False)
                            self.curs[sid] = I.to_e(ph)
                            if s0.off is None:
                                st0.heap[sid] = s0.set(off=s1.off)
                            changed = True
            if changed:
                continue
            # missing values carried round the loop
            for key in plan:
                if kinds[key] not in ("float", "int") or key in nullable:
                    continue
                v, base = b.get(key), a[key]
                if v is None or not I.is_num(v):
                    continue
                if self.has_nan(I.to_e(v)):
                    nullable.add(key)
                    plan[key] = self.fresh(kinds[key], True)
                    changed = True
                elif self.has_nan(I.to_e(base)):
                    if self.mentions(end, plan[key]):
                        raise Retry()
            if changed:
                continue
            for (k, sid, d) in list(lp.cells):
                s = end.heap[sid]
                if ("null", sid) in lp.lag_atoms:
                    continue
                upd = s.cur if s.cur is not None else self.base_at(st0, sid, Poly.atom(isym_atom) + lp.offs[sid])
                ini = self.base_at(st0, sid, start + lp.offs[sid] - d)
                if s.dtype == "bool":
                    continue
                if self.has_nan(upd):
                    lp.lag_atoms[("null", sid)] = True
                    for key2 in list(lp.cells):
                        if key2[1] == sid:
                            lp.cells[key2] = I.to_e(self.fresh("float", True))
                    changed = True
                elif self.has_nan(ini):
                    raise Retry()
            if not changed:
                break
        else:
            raise NotUnderstood("loop state does not settle")
        self.check_objects(st0, end, lp)
        return self.build(st0, end, lp, start, plan, kinds, curk)

    def check_objects(self, st0, end, lp):
        """every change the body makes to an object that outlives it must be one the recurrence describes."""
        for i, x in st0.heap.items():
            y = end.heap.get(i)
            if y is x or y is None or isinstance(x, (Frame, Inst)):
                continue
            if isinstance(y, Lost):
                if not isinstance(x, Lost):
                    raise NotUnderstood(y.why)
            elif type(x) is not type(y):
                raise NotUnderstood("object changes its kind in a loop")
            elif isinstance(x, Stor):
                if i in self.written:
                    if y.loop is not lp:
                        raise NotUnderstood("array filled in a loop is lost")
                elif x.e is not y.e:
                    raise NotUnderstood("whole array changed in a loop")
            elif isinstance(x, PyList):
                if len(x.items) != len(y.items):
                    raise NotUnderstood("list changes its length in a loop")
            elif isinstance(x, Arr):
                if i not in self.lists and (x.st != y.st or x.length != y.length or x.index != y.index):
                    raise NotUnderstood("array replaced in a loop")
            elif isinstance(x, DF):
                if x.cols is not y.cols and list(x.cols) != list(y.cols):
                    raise NotUnderstood("table changed in a loop")

    def base_at(self, st0, sid, idx):
        s = st0.heap[sid]
        return self.it.simp(X.subst(s.e, {T.id: idx}))

    def mentions(self, end, v):
        return True

    def has_nan(self, e):
        return any(l.v is X.NAN for l in X.leaves(e))

    def kind_of(self, x, y):
        a, b = I.ntype(x), I.ntype(y)
        if a == b:
            return a
        if "bool" in (a, b):
            return "float" if "float" in (a, b) else "int"
        return "float"

    def fresh(self, t, nullable):
        e = I.placeholder("bool" if t == "bool" else ("int" if t == "int" else "real"))
        if nullable:
            f = I.placeholder("bool")
            e = X.ite(f, LNAN, e)
        return Num(e, t)

    # ---- the recurrence
    def build(self, st0, end, lp, start, plan, kinds, curk):
        it = self.it
        isym = Poly.atom(lp.isym)
        comps = []            # (placeholder atom id or None, init, update, is_bool)

        def atoms_of(ph):
            """placeholder -> (flag atom or None, value atom)."""
            e = I.to_e(ph) if not isinstance(ph, X.E) else ph
            if e.leaf:
                return None, next(iter(e.v.atoms()))
            if e.kids[0] is LF and e.kids[1] is LT:
                return None, e.pred.p.id
            flag = e.pred.p.id
            for k in e.kids:
                if k.v is not X.NAN:
                    return flag, next(iter(k.v.atoms()))

        def add_cell(ph, ini, upd, bool_):
            fl, va = atoms_of(ph)
            if bool_:
                comps.append([va, I.nb(ini) if I.boolish(ini) else X.tobool(ini), I.nb(upd) if I.boolish(upd) else X.tobool(upd), True])
                return len(comps) - 1
            if fl is not None:
                comps.append([fl, X.isna(ini), X.isna(upd), True])
                comps.append([va, X.fillna(I.numify(ini), L0), X.fillna(I.numify(upd), L0), False])
            else:
                comps.append([va, I.numify(ini), I.numify(upd), False])
            return len(comps) - 1
        slotc = {}
        for key, ph in plan.items():
            if isinstance(ph, Opaque):
                continue
            base = self.get_slot(st0.heap, key)
            v = self.get_slot(end.heap, key)
            if v is MISSING or not I.is_num(v):
                # unknown after the loop; the carried value is unknown as well
                fl, va = atoms_of(ph)
                comps.append([va, I.opq("carried value"), I.opq("carried value"), False])
                continue
            slotc[key] = (add_cell(ph, I.to_e(base), I.to_e(v), kinds[key] == "bool"), I.to_e(v))
        for (k, sid, d), ph in lp.cells.items():
            s = end.heap[sid]
            isb = ph is not None and not ph.leaf and ph.kids[0] is LF and ph.kids[1] is LT
            ini = self.base_at(st0, sid, start + lp.offs[sid] - d)
            if d == 1:
                upd = s.cur if s.cur is not None else self.base_at(st0, sid, isym + lp.offs[sid])
            else:
                upd = lp.cells[("lag", sid, d - 1)]
            add_cell(ph, ini, upd, isb)
        for sid, ph in self.curs.items():
            s = end.heap[sid]
            s0 = st0.heap[sid]
            outer = s0.loop
            base = s0.cur if s0.cur is not None else it.simp(X.subst(s0.e, {T.id: Poly.atom(outer.isym) + s0.off}))
            slotc[("cur", sid)] = (add_cell(ph, base, s.cur, curk[sid] == "bool"), s.cur)
        writes = []
        for sid in self.written:
            s = end.heap[sid]
            k = lp.offs[sid]
            w = s.cur if s.cur is not None else self.base_at(st0, sid, isym + k)
            writes.append((sid, k, w))
        mp_ph = {}
        # merge equal components
        seen = {}
        order = []
        ren = {}
        changed = True
        live = list(range(len(comps)))
        alias = {}
        while changed:
            changed = False
            seen = {}
            for i in live:
                key = (comps[i][1].id, comps[i][2].id, comps[i][3])
                if key in seen and comps[i][0] is not None:
                    j = seen[key]
                    alias[i] = j
                    to = self.value_of(comps[j])
                    mp = {comps[i][0]: to}
                    for c in comps:
                        if D.expr_mentions(c[2], mp.keys()):
                            c[2] = D.repl_atoms(c[2], mp)
                    writes = [(s_, k_, D.repl_atoms(w_, mp) if D.expr_mentions(w_, mp.keys()) else w_)
                              for s_, k_, w_ in writes]
                    slotc = {q: (c_, D.repl_atoms(e_, mp) if D.expr_mentions(e_, mp.keys()) else e_)
                             for q, (c_, e_) in slotc.items()}
                    live.remove(i)
                    changed = True
                    break
                seen[key] = i
        num = {c: i for i, c in enumerate(live)}
        inits, upds, bools = [], [], []
        for c in live:
            inits.append(comps[c][1])
            upds.append(comps[c][2])
            bools.append(comps[c][3])
        # values observed after an iteration
        outs_e = []
        where = {}

        def want(e):
            if e.id in where:
                return where[e.id]
            where[e.id] = len(outs_e)
            outs_e.append(e)
            return where[e.id]
        wslots = {key: want(e) for key, (c, e) in slotc.items()}
        wwrites = [(sid, k, want(w)) for sid, k, w in writes]
        mp = {}
        for c in live:
            i = num[c]
            pa = X.prev_atom(i)
            if comps[c][3]:
                mp[comps[c][0]] = X.node(X.mk_pred("bool", pa), (LF, LT))
            else:
                mp[comps[c][0]] = leaf(Rat.atom(pa))

        def prep(e):
            if D.expr_mentions(e, mp.keys()):
                e = D.repl_atoms(e, mp)
            return X.subst(e, {lp.isym.id: TP})
        U = [prep(e) for e in upds]
        vals = self.solve_out(start, inits, U, bools, [prep(e) for e in outs_e])
        res = State(dict(end.heap), st0.guard)
        h = res.heap
        last = self.b - 1
        for key in plan:
            v = self.get_slot(h, key)
            if key in wslots:
                t = I.ntype(v)
                e = it.simp(X.subst(vals[wslots[key]], {T.id: last}))
                self.set_slot(h, key, I.from_e(e, t))
            elif v is not MISSING and I.is_num(v):
                self.set_slot(h, key, Opaque("value after a loop"))
        for key, w in wslots.items():
            if key[0] == "cur":
                sid = key[1]
                h[sid] = h[sid].set(cur=it.simp(X.subst(vals[w], {T.id: last})))
        # loop-local names and objects keep values of the last iteration
        for i in list(h):
            o = h[i]
            if isinstance(o, Frame) and i in st0.heap:
                vs = dict(o.vars)
                ch = False
                for k, v in vs.items():
                    if ("var", i, k) in plan:
                        continue
                    nv = self.last_value(v, lp, mp, num, start, inits, U, bools, last, h, st0)
                    if nv is not v:
                        vs[k] = nv
                        ch = True
                if ch:
                    h[i] = o.set(vars=vs)
            elif isinstance(o, Inst) and i in st0.heap:
                vs = dict(o.attrs)
                ch = False
                for k, v in vs.items():
                    if ("attr", i, k) in plan:
                        continue
                    nv = self.last_value(v, lp, mp, num, start, inits, U, bools, last, h, st0)
                    if nv is not v:
                        vs[k] = nv
                        ch = True
                if ch:
                    h[i] = o.set(attrs=vs)
        for sid, k, w in wwrites:
            base = st0.heap[sid].e
            v = X.subst(vals[w], {T.id: TP - k}) if not k.is_zero() else vals[w]
            if base is LNAN and sid in [st0.heap[o].st.id for o in self.lists]:
                e = v if (start + k).is_zero() else X.row(TP - start - k, v, base)
            else:
                e = X.row(TP - start - k, X.row(last + k - TP, v, base), base)
            s = h[sid]
            h[sid] = s.set(e=it.simp(e), loop=st0.heap[sid].loop, off=st0.heap[sid].off, cur=st0.heap[sid].cur,
                           dtype="float" if s.dtype in (None, "none") else s.dtype)
        for oid, n0 in self.lists.items():
            x = h[oid]
            if x.length != n0 + isym - start + 1:
                raise NotUnderstood("rows are appended only in some iterations")
            h[oid] = x.set(length=n0 + self.b - start)
        return self.finish(res)

    def last_value(self, v, lp, mp, num, start, inits, U, bools, last, h, st0):
        if isinstance(v, Num):
            free = v.e.free
            if lp.isym.id not in free and not D.expr_mentions(v.e, mp.keys()):
                return v
            if D.expr_mentions(v.e, mp.keys()):
                return Opaque("loop-local value used after the loop")
            return I.from_e(self.it.simp(X.subst(v.e, {lp.isym.id: last})), v.t)
        if isinstance(v, tuple):
            n = tuple(self.last_value(x, lp, mp, num, start, inits, U, bools, last, h, st0) for x in v)
            return v if all(a is b for a, b in zip(n, v)) else n
        if isinstance(v, Ref) and v.id not in st0.heap:
            return Opaque("loop-local object used after the loop")
        if isinstance(v, RangeV) or isinstance(v, SliceV):
            return v
        return v

    def value_of(self, comp):
        a = X.ATOMS[comp[0]]
        if comp[3]:
            return X.node(X.mk_pred("bool", a), (LF, LT))
        return leaf(Rat.atom(a))

    def solve_out(self, start, inits, U, bools, outs):
        """values after iteration t of the expressions `outs` (in t and the previous states)."""
        vals = D.solve(start, inits, U, bools)
        before = {X.prev_atom(k).id: D._before(vals[k], inits[k], start) for k in range(len(U))}
        res = []
        for e in outs:
            j = next((i for i in range(len(U)) if U[i] is e), None)
            if j is not None:
                res.append(vals[j])
                continue
            if D.expr_mentions(e, before.keys()):
                e = D.repl_atoms(e, before)
            res.append(X.restrict_rows(e, (TP - start,)))
        return res
