"""Abstract interpreter: lowers the Python source of /repo/ta to row functions (expr diagrams) and effect records.

The source is parsed with `ast`; nothing of it is imported or executed."""
import ast
import os
from fractions import Fraction
from poly import Poly, Rat, ATOMS, ONE, ZERO
import expr as X
import series as S
import domain as D
from expr import leaf, TP, NP_, T, LNAN, L0, L1, LT, LF, NotUnderstood
from values import *

INPUT = ("input",)
RANGE = ("range",)


class NeedSplit(Exception):
    def __init__(self, p):
        self.p = p


class PyRaise(Exception):
    """the analysed code certainly raises on this path."""

    def __init__(self, name, msg=""):
        self.name, self.msg = name, msg


class Event:
    __slots__ = ("kind", "file", "line", "func", "detail", "facts", "guard", "data", "chain")

    def __init__(self, kind, loc, detail, facts=(), guard=None, data=None, chain=()):
        self.kind, (self.file, self.line, self.func), self.detail = kind, loc, detail
        self.facts, self.guard, self.data, self.chain = facts, guard, data, chain

    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)


class Loop:
    def __init__(self, isym, a, b, rows):
        self.isym, self.a, self.b, self.rows = isym, a, b, rows
        self.lag_syms = {}        # (st, d) -> E placeholder
        self.lag_atoms = {}
        self.cells = {}           # key -> (atom, bool?)
        self.offs = {}            # st -> write offset (Poly)
        self.appends = {}         # st -> start length n0


_CNT = [0]


def fresh_id():
    _CNT[0] += 1
    return _CNT[0]


def opq(why):
    return leaf(Rat.atom(X.mk_atom("opq", fresh_id(), why)))


def is_num(v):
    return isinstance(v, (bool, int, Fraction, Num, SpecialFloat))


def to_e(v):
    if isinstance(v, Num):
        return v.e
    if isinstance(v, bool):
        return LT if v else LF
    if isinstance(v, (int, Fraction)):
        return X.const(v)
    if v is FNAN:
        return LNAN
    if v is FINF or v is FNINF:
        return X.LINF
    raise NotUnderstood("number expected, got %r" % (v,))


def from_e(e, t):
    """scalar value of an expression."""
    if e.leaf:
        v = e.v
        if isinstance(v, bool):
            return v
        if v is X.NAN:
            return FNAN
        if v is X.INF:
            return FINF
        if v.is_const():
            c = v.cval()
            if t == "int" and c.denominator == 1:
                return int(c)
            if t == "bool":
                return bool(c)
            return Fraction(c)
    return Num(e, t)


def ntype(v):
    if isinstance(v, Num):
        return v.t
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    return "float"


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def e_binop(op, a, b):
    if op == "+":
        return X.add(a, b)
    if op == "-":
        return X.sub(a, b)
    if op == "*":
        return X.mul(a, b)
    if op == "/":
        return X.div(a, b)
    if op == "**":
        return X.power(a, b)
    if op == "//":
        return X.fn1("floor", X.div(a, b))
    if op == "%":
        return X.sub(a, X.mul(b, X.fn1("floor", X.div(a, b))))
    if op in ("<", "<=", ">", ">=", "==", "!="):
        return X.compare(op, a, b)
    if op in "&|^":
        if not (boolish(a) and boolish(b)):
            raise NotUnderstood("bit operation on numbers")
        if op == "&":
            return X.b_and(nb(a), nb(b))
        if op == "|":
            return X.b_or(nb(a), nb(b))
        return X.ite(nb(a), X.b_not(nb(b)), nb(b))
    raise NotUnderstood("operator " + op)


def boolish(e):
    return all(isinstance(l.v, bool) or l.v is X.NAN for l in X.leaves(e))


def nb(e):
    """missing truth values count as False."""
    return X.lift("nb", lambda v: LF if v is X.NAN else leaf(v), e)


def dt_join(op, a, b):
    if op == "/":
        return "float"
    if op in ("<", "<=", ">", ">=", "==", "!=", "&", "|", "^"):
        return "bool"
    for k in ("obj", "float", "num"):
        if k in (a, b):
            return k
    return "int"


MUTATORS = ("append", "extend", "insert", "pop", "update", "setdefault", "appendleft", "popleft", "extendleft", "rotate",
            "remove", "clear", "sort", "reverse", "fill", "put", "itemset", "partition", "resize", "discard",
            "popitem", "copyto", "place", "putmask", "insort", "heappush", "heappop", "heapify", "shuffle",
            "put_along_axis", "fill_diagonal", "setflags", "__setitem__", "__setattr__", "__delitem__")


# methods of numpy arrays that write into the array
SURE_MUT = ("fill", "put", "itemset", "partition", "sort", "resize", "byteswap")
MUTATORS_ = ("append", "extend", "pop", "insert", "remove", "clear", "popleft", "appendleft")


class Interp:
    def __init__(self, root, facts=(), modules=None):
        self.aligned, self.selections = 0, {}
        self.parts, self.namespaces, self.growing = {}, set(), {}
        self.kept_asts = []
        self.root = root
        self.ctx = list(facts)
        self.ids = {}
        self.bystander = None        # a column that marks the caller's table
        self.events = []
        self.loops = []
        self.loc = ("?", 0, "?")
        self.frames = []
        self.depth = 0
        self.modcache = {}
        self.boundary = 0
        self.either = {}          # storage of "x or y, by a condition": (condition, x, y)
        self.notes = []
        self.quiet = 0
        self.inrow = 0
        self.trydepth = 0
        self.chain = ()
        self.budget = 400000
        self.analysed = set()
        from lib import Lib
        self.lib = Lib(self)

    # ------------------------------------------------------------ events
    def event(self, kind, detail, st=None, **data):
        self.events.append(Event(kind, self.loc, detail, tuple(self.ctx), st.guard if st is not None else None, data,
                                 self.chain))

    def note(self, why):
        self.notes.append("%s:%s (%s): %s" % (self.loc + (why,)))

    # ------------------------------------------------------------ heap
    def new(self, st, obj):
        i = fresh_id()
        st.heap[i] = obj
        return Ref(i)

    def get(self, st, ref):
        o = st.heap[ref.id]
        if isinstance(o, Lost):
            raise NotUnderstood(o.why)
        return o

    def put(self, st, ref, obj):
        if ref.id in self.namespaces:
            self.event("shared_write", "writes into globals() or vars()", st)
            raise NotUnderstood("write into globals() or vars()")
        if ref.id < self.boundary and not self.quiet:
            self.event("shared_write", "writes to an object shared between calls (module, class or default value)", st)
        st.heap[ref.id] = obj

    def arr(self, st, e, length, kind="series", index=None, name=None, dtype="float", origin=None):
        s = self.new(st, Stor(e, origin, dtype))
        return self.new(st, Arr(kind, s, length, index, name))

    def is_arr(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), Arr)

    def obj(self, st, v):
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, Lost):
            raise NotUnderstood(o.why)
        return o

    def content(self, st, v):
        """content diagram of a whole array."""
        a = self.get(st, v) if isinstance(v, Ref) else v
        s = self.get(st, a.st)
        if s.loop is not None:
            self.touch(st, a.length, "a calculation")
            raise NotUnderstood("whole array used inside the loop that fills it")
        if is_kept(a.index) and not self.aligned:
            raise NotUnderstood("positions among selected rows")
        return s.e

    def rowwise(self, st, v):
        """content of an array that may be a selection: the value at the original row."""
        self.aligned += 1
        try:
            return self.content(st, v)
        finally:
            self.aligned -= 1

    def dtype(self, st, v):
        a = self.get(st, v) if isinstance(v, Ref) else v
        return self.get(st, a.st).dtype

    def origin(self, st, v):
        a = self.get(st, v) if isinstance(v, Ref) else v
        return self.get(st, a.st).origin

    def simp(self, e):
        return X.restrict_rows(e, self.ctx) if self.ctx else X.prune(e)

    # ------------------------------------------------------------ integers
    def poly(self, v, what="integer"):
        """polynomial of an integer value."""
        if isinstance(v, bool):
            return Poly.const(int(v))
        if isinstance(v, int):
            return Poly.const(v)
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return Poly.const(v)
            raise NotUnderstood("fractional " + what)
        if isinstance(v, Num):
            e = self.simp(v.e)
            while not e.leaf:
                p = e.pred
                if p.kind != "row":
                    raise NotUnderstood(what + " depends on data")
                if T.id in p.free or any(l.isym.id in p.free for l in self.loops):
                    raise NotUnderstood(what + " depends on the row")
                raise NeedSplit(p.p)
            if isinstance(e.v, bool):
                return Poly.const(int(e.v))
            if isinstance(e.v, Rat) and e.v.d.is_const() and X.is_int_poly(e.v.n):
                p = e.v.n
                if all(c.denominator == 1 for c in p.d.values()):
                    return p
            if isinstance(e.v, Rat) and all(ATOMS[i].kind == "opq" for i in e.v.atoms()):
                raise NotUnderstood("unknown " + what)
        raise NotUnderstood("%s is not an integer form: %r" % (what, v))

    def decide(self, p):
        return X.row_decide(p, tuple(sorted(set(self.ctx), key=lambda q: q.key())))

    def truth(self, st, v):
        """True/False or a Boolean diagram."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, StrV):
            return any(isinstance(p, str) and p for p in v.parts) or opq("text truth")
        if v is FNAN or v is FINF or v is FNINF:
            return True
        if isinstance(v, Num):
            e = self.simp(X.tobool(nb(v.e)) if boolish(v.e) else X.compare("!=", v.e, L0))
            if e.leaf:
                return bool(e.v)
            return e
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, PyList) or isinstance(o, PyDict):
                return bool(o.items)
            if isinstance(o, Arr):
                if o.kind == "list":
                    d = self.decide(o.length - 1)
                    if d is None:
                        return X.row(o.length - 1, LT, LF)
                    return d
                if o.length.is_const() and o.length.cval() == 1 and o.kind != "series":
                    return self.truth(st, self.read(st, v, ZERO))
                if o.kind == "series" or self.decide(o.length - 2) is True:
                    raise PyRaise("ValueError", "truth value of an array is ambiguous")
                self.event("raise", "truth value of an array is ambiguous", st)
                raise NotUnderstood("truth value of an array")
            return True
        if isinstance(v, (Func, LibFn, ModV)):
            return True
        return nbo(v)

    # ------------------------------------------------------------ reading / writing elements
    def bounds(self, st, idx, length, what):
        """obligation -length <= idx < length."""
        if self.trydepth:
            return
        hi = self.decide(length - 1 - idx)
        lo = self.decide(idx)
        if hi is not True:
            self.event("bound", what, st, need=length - 1 - idx)
        if lo is not True:
            low2 = self.decide(idx + length)
            if low2 is not True:
                self.event("bound", what, st, need=idx + length)

    def norm_idx(self, st, idx, length):
        """position of a possibly negative index."""
        d = self.decide(idx)
        if d is True:
            return idx
        if self.decide(-idx - 1) is True:
            return idx + length
        free_rows = [l for l in self.loops if l.isym.id in X._free_poly(idx)]
        if free_rows or T.id in X._free_poly(idx):
            # wraps around for some rows
            return None
        raise NeedSplit(idx)

    def read(self, st, ref, idx, what="index"):
        a = self.get(st, ref)
        if is_kept(a.index):
            raise NotUnderstood("position among selected rows")
        self.bounds(st, idx, a.length, "%s [%s] of %s rows" % (what, X.show_idx(idx), X.show_idx(a.length)))
        p = self.norm_idx(st, idx, a.length)
        s = self.get(st, a.st)
        if p is None:
            e0 = self.read_stor(st, a.st, idx + a.length)
            e1 = self.read_stor(st, a.st, idx)
            e = X.row(idx, e1, e0)
        else:
            e = self.read_stor(st, a.st, p)
        return from_e(self.simp(e), {"int": "int", "bool": "bool"}.get(s.dtype, "float"))

    def read_stor(self, st, sref, idx):
        s = self.get(st, sref)
        if s.loop is None:
            return self.simp(X.subst(s.e, {T.id: idx}))
        lp = s.loop
        base = lambda: self.simp(X.subst(s.e, {T.id: idx}))
        off = idx - Poly.atom(lp.isym)
        if lp.isym.id in X._free_poly(off):
            # does not move with the loop: only rows never written
            k = lp.offs.get(sref.id)
            if k is None or self.decide(lp.a + k - idx - 1) is True:
                return base()
            raise NotUnderstood("fixed row of an array read in the loop that fills it")
        k = s.off if s.off is not None else lp.offs.get(sref.id)
        if k is None:
            lp.lag_atoms.setdefault(("seen", sref.id), set()).add(off)
            return base()
        d = k - off
        if d.is_const():
            d = d.cval()
            if d == 0:
                return s.cur if s.cur is not None else base()
            if d < 0:
                return base()
            if d > 6:
                raise NotUnderstood("long lag in a loop")
            return self.lag(lp, sref, int(d), s.dtype)
        after = self.decide(-d - 1)
        if after is True:
            return base()
        if after is None and not self.rowbound(d):
            raise NeedSplit(-d - 1)
        if after is False and self.decide(-d) is True:
            return s.cur if s.cur is not None else base()
        raise NotUnderstood("array read at a variable distance in the loop that fills it")

    def rowbound(self, p):
        """does p depend on a row counter?"""
        return T.id in X._free_poly(p) or any(l.isym.id in X._free_poly(p) for l in self.loops)

    def lag(self, lp, sref, d, dtype):
        for j in range(1, d + 1):
            key = ("lag", sref.id, j)
            if key not in lp.cells:
                lp.cells[key] = placeholder("bool" if dtype == "bool" else "real")
        return lp.cells[("lag", sref.id, d)]

    def write(self, st, ref, idx, val, what="write"):
        a = self.get(st, ref)
        self.mutated(st, ref)
        self.bounds(st, idx, a.length, "%s [%s] of %s rows" % (what, X.show_idx(idx), X.show_idx(a.length)))
        p = self.norm_idx(st, idx, a.length)
        s = self.get(st, a.st)
        e = to_e(val)
        e = self.check_trunc(st, a, s, ntype(val) if not (isinstance(val, Num) and val.t == "num") else "num", e)
        if a.kind == "series" and s.dtype in ("int", "num", "bool") and ntype(val) == "float":
            s = s.set(dtype="float")
        if p is None:
            raise NotUnderstood("write wraps around")
        if s.loop is not None:
            lp = s.loop
            off = p - Poly.atom(lp.isym)
            if lp.isym.id in X._free_poly(off):
                raise NotUnderstood("fixed row written inside a loop")
            k = s.off if s.off is not None else lp.offs.get(a.st.id)
            if k is not None and k != off:
                raise NotUnderstood("several rows written per iteration")
            st.heap[a.st.id] = s.set(off=off, cur=e)
            return
        if self.loops and any(l.isym.id in X._free_poly(p) for l in self.loops):
            # first pass over a loop: remember the offset
            lp = [l for l in self.loops if l.isym.id in X._free_poly(p)][-1]
            off = p - Poly.atom(lp.isym)
            if lp.isym.id in X._free_poly(off):
                raise NotUnderstood("index of a write in a loop")
            lp.offs[a.st.id] = off
            st.heap[a.st.id] = s.set(e=s.e, off=off, cur=e)
            return
        new = X.row(TP - p, X.row(p - TP, e, s.e), s.e)
        st.heap[a.st.id] = s.set(e=self.simp(new))

    def check_trunc(self, st, a, s, vt, e=None):
        """what an array that keeps its type holds after a store; e None: the store is a calculation's, which does not convert."""
        if a.kind == "ndarray" and s.dtype in ("int", "num", "bool") and vt == "float":
            self.event("trunc", "a fractional value is stored in an array that keeps the integer type of its data", st,
                       dtype=s.dtype)
            if s.dtype == "int":
                if e is None:
                    raise PyRaise("TypeError", "cannot cast a float result to an integer array")
                return self.lib.trunc_e(numify(e))
        return e

    def mutated(self, st, ref, either=True):
        a = self.get(st, ref)
        if either:
            if a.st.id in self.either:
                raise NotUnderstood("write into one of two arrays")
            for m, (c, x, y) in self.either.items():
                if m in st.heap and any(isinstance(st.heap.get(q.id), Arr) and st.heap[q.id].st.id == a.st.id for q in (x, y)):
                    st.heap[m] = st.heap[m].set(e=opq("one of two arrays, written later"))
        o = self.origin(st, ref)
        if o is not None:
            self.event("mutate", "writes into the caller's data (%s)" % o, st, origin=o)
        if ref.id < self.boundary or a.st.id < self.boundary:
            self.event("shared_write", "writes into an array shared between calls", st)

    # ------------------------------------------------------------ modules
    def load_module(self, st, name):
        if name in self.modcache:
            return self.modcache[name]
        path = os.path.join(self.root, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(self.root, *name.split("."), "__init__.py")
        if not os.path.exists(path):
            raise NotUnderstood("module %s not found" % name)
        src = open(path).read()
        tree = ast.parse(src, path)
        fr = self.new(st, Frame({}, None, name))
        self.modcache[name] = fr
        self.analysed.add(os.path.relpath(path, self.root))
        if not self.root.endswith("ref"):
            import driver
            driver.ANALYSED.add(os.path.relpath(path, self.root))
        saved = self.loc
        self.loc = (os.path.relpath(path, self.root), 0, "<module>")
        self.frames.append(fr)
        try:
            self.block(st, tree.body)
        finally:
            self.frames.pop()
            self.loc = saved
        return fr

    def peek(self, st, x):
        """the code asks which other columns the caller's table has."""
        if self.bystander is not None and any(n == self.bystander for n, _ in x.cols):
            self.event("peek", "looks at the table's other columns", st)

    def name_texts(self, files=None):
        """texts in the package's source that could name a setting or a column."""
        import re
        out = set()
        d = os.path.join(self.root, "ta")
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith(".py") and (files is None or f in files):
                for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_.]*", n.value):
                        out.add(n.value)
        return out

    def seal(self, st):
        """objects created so far are shared between calls."""
        self.boundary = fresh_id()

    # ------------------------------------------------------------ names
    def lookup(self, st, name):
        fr = self.frames[-1]
        while fr is not None:
            f = self.get(st, fr)
            if name in f.vars and not (name in f.globals_):
                return f.vars[name]
            fr = f.parent
        m = self.modcache.get(self.get(st, self.frames[-1]).module)
        if m is not None and name in self.get(st, m).vars:
            return self.get(st, m).vars[name]
        return self.lib.builtin(name)

    def assign_name(self, st, name, v):
        fr = self.frames[-1]
        f = self.get(st, fr)
        if name in f.globals_:
            m = self.modcache[f.module]
            self.event("shared_write", "assigns the module variable %s" % name, st)
            fm = self.get(st, m)
            st.heap[m.id] = fm.set(vars={**fm.vars, name: v})
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                fp = self.get(st, p)
                if name in fp.vars:
                    st.heap[p.id] = fp.set(vars={**fp.vars, name: v})
                    return
                p = fp.parent
        st.heap[fr.id] = f.set(vars={**f.vars, name: v})

    # ------------------------------------------------------------ statements
    def block(self, st, stmts):
        """returns (state or None, outs) where outs = list of (kind, value, state)."""
        outs = []
        cur = st
        for s in stmts:
            self.loc = (self.loc[0], s.lineno, self.loc[2])
            self.budget -= 1
            if self.budget < 0:
                raise NotUnderstood("analysis budget exceeded")
            if self.growing and id(s) in self.growing and self.inrow:
                self.event("nested", self.growing[id(s)], cur)
            try:
                cur, o = self.stmt(cur, s)
            except NotUnderstood as ex:
                self.note(str(ex))
                self.havoc_stmt(cur, s, str(ex))
                o = []
            except PyRaise as ex:
                self.event("raise", "%s %s" % (ex.name, ex.msg), cur, exc=ex.name)
                outs.append(("raise", ExcV(ex.name, ()), cur))
                cur = None
                o = []
            outs.extend(o)
            if cur is None:
                break
        return cur, outs

    def havoc_stmt(self, st, s, why):
        """after a statement outside the modelled subset: everything it may assign is unknown."""
        names, attrs, subs, lost, sure = set(), set(), [], [], []
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not s:
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords):
                    sure.append((n.func.value, n.func.attr))
                elif n.func.attr in SURE_MUT:
                    sure.append((n.func.value, n.func.attr))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                attrs.add((n.value.id, n.attr))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                subs.append(n.value)
            elif isinstance(n, ast.Call):
                inpl = any(k.arg == "inplace" and not (isinstance(k.value, ast.Constant) and k.value.value is False)
                           for k in n.keywords)
                if isinstance(n.func, ast.Attribute) and (inpl or n.func.attr in MUTATORS):
                    lost.append(n.func.value)
                    if n.func.attr in ("put", "copyto", "place", "putmask", "insort", "heappush", "shuffle", "heappop",
                                       "put_along_axis", "fill_diagonal", "heapify") and n.args:
                        lost.append(n.args[1] if n.func.attr == "insort" and len(n.args) > 9 else n.args[0])
                elif isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr", "copyto", "heappush", "insort",
                                                                    "heappop", "heapify", "next") and n.args:
                    lost.append(n.args[0])
                subs += [k.value for k in n.keywords if k.arg == "out"]
            elif isinstance(n, ast.Delete):
                lost += [x.value for x in n.targets if isinstance(x, (ast.Subscript, ast.Attribute))]
        for n in names:
            self.assign_name(st, n, Opaque(why))
        for o, a in attrs:
            try:
                r = self.lookup(st, o)
                if isinstance(r, Ref) and isinstance(st.heap[r.id], Inst):
                    i = st.heap[r.id]
                    st.heap[r.id] = i.set(attrs={**i.attrs, a: Opaque(why)})
            except NotUnderstood:
                pass
        if not hasattr(s, "body"):
            for n in ast.walk(s):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    self.part_written(st, n)
            for e, what in sure:
                try:
                    r = self.ev(st, e)
                    if isinstance(r, IndexV) and r.own:
                        self.event("mutate", "%s in place on the labels of the caller's series" % what, st)
                        continue
                    if self.is_arr(st, r) and self.origin(st, r) is not None:
                        k = self.get(st, r).kind
                        if k == "series" and what not in SURE_MUT and self.is_caller_object(st, r) or \
                                k == "ndarray" and what in SURE_MUT:
                            self.event("mutate", "%s in place on the caller's data (%s)" % (what, self.origin(st, r)), st,
                                       origin=self.origin(st, r))
                    elif isinstance(r, Ref) and isinstance(st.heap.get(r.id), DF) and self.is_caller_object(st, r):
                        self.event("mutate", "%s in place on the caller's table" % what, st)
                except (NotUnderstood, PyRaise):
                    pass
        for e in subs:
            try:
                while isinstance(e, ast.Attribute) and e.attr in ("iloc", "loc", "at", "iat", "values"):
                    e = e.value
                r = self.ev(st, e)
                self.havoc_ref(st, r, why)
            except (NotUnderstood, PyRaise):
                pass
        for e in lost:
            try:
                r = self.ev(st, e)
                if isinstance(r, Ref) and not isinstance(st.heap.get(r.id), (Frame, Stor)):
                    st.heap[r.id] = Lost(why)
            except (NotUnderstood, PyRaise):
                pass
        if any(isinstance(n, ast.Return) for n in ast.walk(s)):
            raise NotUnderstood(why)

    def part_written(self, st, n):
        """store into a part (attrs, flags, labels, name) of one of the caller's objects."""
        chain, e = [], n
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            chain.append(e.attr if isinstance(e, ast.Attribute) else "[]")
            e = e.value
            try:
                r = self.ev(st, e)
            except (NotUnderstood, PyRaise):
                continue
            if isinstance(r, (Opaque, Meth)):
                continue
            if chain[-1] in ("attrs", "flags", "index", "name", "_name", "_index", "array", "values"):
                if isinstance(r, Ref) and self.is_caller_object(st, r):
                    self.event("mutate", "writes %s of the caller's object" % chain[-1], st)
            return

    def havoc_ref(self, st, r, why):
        o = self.obj(st, r)
        if isinstance(o, Arr):
            s = self.get(st, o.st)
            st.heap[o.st.id] = s.set(e=opq(why), loop=None, cur=None, off=None)
        elif isinstance(o, PyList):
            st.heap[r.id] = o.set(items=tuple(Opaque(why) for _ in o.items))
        elif isinstance(o, (PyDict, DF)):
            st.heap[r.id] = Lost(why)

    def stmt(self, st, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise NotUnderstood("statement " + type(s).__name__)
        return m(st, s)

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.ev(st, s.value)
        return st, []

    def s_Pass(self, st, s):
        return st, []

    def s_Import(self, st, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == "ta":
                self.load_module(st, a.name)
                self.load_module(st, top)
                self.assign_name(st, a.asname or top, ModV(a.name if a.asname else top))
            else:
                self.assign_name(st, a.asname or top, ModV(a.name if a.asname else top))
        return st, []

    def s_ImportFrom(self, st, s):
        mod = s.module or ""
        if s.level:
            cur = self.get(st, self.frames[-1]).module.split(".")
            base = cur[:len(cur) - s.level] if not self.is_pkg(".".join(cur)) else cur[:len(cur) - s.level + 1]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            nm = a.asname or a.name
            if mod.split(".")[0] == "ta":
                if self.is_module(mod + "." + a.name):
                    self.load_module(st, mod + "." + a.name)
                    self.assign_name(st, nm, ModV(mod + "." + a.name))
                    continue
                fr = self.load_module(st, mod)
                vs = self.get(st, fr).vars
                if a.name == "*":
                    for k, v in vs.items():
                        if not k.startswith("_"):
                            self.assign_name(st, k, v)
                    continue
                if a.name not in vs:
                    raise PyRaise("ImportError", a.name)
                self.assign_name(st, nm, vs[a.name])
            elif mod == "__future__":
                pass
            else:
                self.assign_name(st, nm, self.lib.from_module(mod, a.name, st))
        return st, []

    def is_pkg(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split(".")))

    def is_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        return os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py"))

    def s_FunctionDef(self, st, s):
        f = self.mkfunc(st, s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(st, d)
            v = self.decorate(st, dv, v)
        self.assign_name(st, s.name, v)
        return st, []

    def decorate(self, st, dv, v):
        if isinstance(dv, LibFn):
            if dv.name in ("builtins.staticmethod", "builtins.classmethod", "builtins.property"):
                return Decor(dv.name.split(".")[1], v)
            if dv.name in ("functools.lru_cache", "functools.cache"):
                self.event("cache", "results are cached across calls", st)
                return v
            if dv.name in ("functools.wraps", "abc.abstractmethod", "functools.cached_property"):
                return Decor("property", v) if dv.name.endswith("cached_property") else v
        if isinstance(dv, Opaque) and "functools.lru_cache" in dv.why:
            self.event("cache", "results are cached across calls", st)
            return v
        if isinstance(dv, Func):
            return self.call(st, dv, [v], {})
        return Opaque("decorator")

    def mkfunc(self, st, s, name):
        a = s.args
        defaults = [self.ev(st, d) for d in a.defaults]
        kwd = {k.arg: self.ev(st, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        f = self.get(st, fr)
        is_mod = f.parent is None and fr == self.modcache.get(f.module)
        qual = name if is_mod else self.loc[2] + "." + name
        if isinstance(f.vars.get("__class_body__"), str):
            qual = f.vars["__class_body__"] + "." + name
        closure = None if is_mod else fr
        if "__class_body__" in f.vars:
            closure = f.parent
        return Func(s, f.module, closure, defaults, kwd, name, qual)

    def s_ClassDef(self, st, s):
        bases = [self.ev(st, b) for b in s.bases]
        fr0 = self.frames[-1]
        mod = self.get(st, fr0).module
        is_mod = fr0 == self.modcache.get(mod)
        fr = self.new(st, Frame({"__class_body__": s.name}, None if is_mod else fr0, mod))
        self.frames.append(fr)
        try:
            self.block(st, s.body)
        finally:
            self.frames.pop()
        attrs = {k: v for k, v in self.get(st, fr).vars.items() if k != "__class_body__"}
        c = self.new(st, ClassO(s.name, mod, tuple(bases), attrs))
        for k, v in attrs.items():
            f = v.fn if isinstance(v, Decor) else v
            if isinstance(f, Func):
                f.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = Opaque("class decorator")
        self.assign_name(st, s.name, v)
        return st, []

    def s_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else None
        return None, [("ret", v, st)]

    def s_Assign(self, st, s):
        v = self.ev_u(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)
        return st, []

    def s_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev_u(st, s.value))
        return st, []

    def ev_u(self, st, e):
        """evaluate; unknown constructs give an unknown value instead of stopping the analysis."""
        try:
            return self.ev(st, e)
        except NotUnderstood as ex:
            self.note(str(ex))
            return Opaque(str(ex))

    def s_AugAssign(self, st, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id)
            self.assign_name(st, t.id, self.inplace(st, op, old, self.ev_u(st, s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value)
            old = self.getattr(st, o, t.attr)
            self.setattr(st, o, t.attr, self.inplace(st, op, old, self.ev_u(st, s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value)
            k = self.ev(st, t.slice)
            old = self.getitem(st, o, k)
            new = self.inplace(st, op, old, self.ev_u(st, s.value), item=True)
            self.setitem(st, o, k, new)
        else:
            raise NotUnderstood("augmented assignment")
        return st, []

    def inplace(self, st, op, old, val, item=False):
        new = self.binop(st, op, old, val)
        if self.is_arr(st, old) and not item:
            a = self.get(st, old)
            if a.kind in ("series", "ndarray"):
                self.mutated(st, old)
                if self.is_arr(st, new):
                    n = self.get(st, new)
                    s = self.get(st, a.st)
                    ns = self.get(st, n.st)
                    if n.index != a.index and a.kind == "series":
                        return new
                    if a.kind == "ndarray":
                        self.check_trunc(st, a, s, ns.dtype)
                    st.heap[a.st.id] = s.set(e=ns.e, dtype=ns.dtype if a.kind == "series" else s.dtype)
                    return old
                self.havoc_ref(st, old, "in-place operation")
                return old
        if isinstance(old, Ref) and isinstance(st.heap[old.id], PyList) and op == "+" and isinstance(new, Ref):
            self.put(st, old, st.heap[new.id])
            return old
        return new

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(st, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(st, self.ev(st, t.value), self.ev(st, t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                for x in t.elts:
                    self.assign(st, x, v)
                return
            items = self.concrete_items(st, v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                if items is None or len(items) < len(t.elts) - 1 or any(isinstance(x, Opaque) for x in items):
                    raise NotUnderstood("starred target")
                j = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                m = len(items) - len(t.elts) + 1
                mid = self.new(st, PyList(list(items[j:j + m])))
                for x, y in zip(t.elts[:j], items[:j]):
                    self.assign(st, x, y)
                self.assign(st, t.elts[j].value, mid)
                for x, y in zip(t.elts[j + 1:], items[j + m:]):
                    self.assign(st, x, y)
                return
            if items is None or len(items) != len(t.elts):
                raise NotUnderstood("unpacking")
            for x, y in zip(t.elts, items):
                self.assign(st, x, y)
        else:
            raise NotUnderstood("assignment target")

    def s_If(self, st, s):
        c = self.truth(st, self.ev_u(st, s.test))
        if c is True or c is False:
            return self.block(st, s.body if c else s.orelse)
        return self.fork(st, c, lambda x: self.block(x, s.body), lambda x: self.block(x, s.orelse), s)

    def fork(self, st, c, fa, fb, node=None):
        a, b = st.fork(), st.fork()
        a.guard = X.b_and(st.guard, c)
        b.guard = X.b_and(st.guard, X.b_not(c))
        fa_, fb_ = self.cond_facts(c)
        saved = self.ctx
        try:
            self.ctx = saved + fa_
            sa, oa = fa(a)
            self.ctx = saved + fb_
            sb, ob = fb(b)
        finally:
            self.ctx = saved
        if sa is None:
            return sb, oa + ob
        if sb is None:
            return sa, oa + ob
        return self.merge(c, sa, sb, st), oa + ob

    def cond_facts(self, c):
        """row facts implied by c and by not c."""
        if not c.leaf and c.pred.kind == "row":
            lo, hi = c.kids
            if lo is LF:
                f1 = [c.pred.p] + self.cond_facts(hi)[0]
                f0 = [-c.pred.p - 1] if hi is LT else []
                return f1, f0
            if hi is LF:
                return [-c.pred.p - 1] + self.cond_facts(lo)[0], ([c.pred.p] if lo is LT else [])
            if lo is LT:
                return [], [c.pred.p] + self.cond_facts(hi)[1]
            if hi is LT:
                return [], [-c.pred.p - 1] + self.cond_facts(lo)[1]
        return [], []

    def merge(self, c, a, b, base):
        """state holding a's values where c, b's otherwise."""
        out = State(a.heap, X.b_or(a.guard, b.guard) if a.guard is not b.guard else a.guard)
        h = dict(a.heap)
        out.heap = h
        for i, ob in b.heap.items():
            oa = a.heap.get(i)
            if oa is None:
                h[i] = ob
            elif oa is not ob:
                h[i] = self.merge_obj(c, oa, ob, out, i)
        return out

    def merge_obj(self, c, x, y, out, i):
        if isinstance(x, Lost) or isinstance(y, Lost):
            return x if isinstance(x, Lost) else y
        if type(x) is not type(y):
            if isinstance(x, Obj) and isinstance(y, Obj):
                return Lost("objects differ between branches")
        if isinstance(x, Frame):
            vs = dict(x.vars)
            for k, v in y.vars.items():
                vs[k] = self.merge_val(c, x.vars[k], v, out) if k in x.vars else v
            return x.set(vars=vs)
        if isinstance(x, Inst):
            vs = dict(x.attrs)
            for k, v in y.attrs.items():
                vs[k] = self.merge_val(c, x.attrs[k], v, out) if k in x.attrs else v
            return x.set(attrs=vs)
        if isinstance(x, Stor):
            dt = x.dtype if x.dtype == y.dtype else dt_join("+", x.dtype, y.dtype)
            og = x.origin if x.origin == y.origin else (x.origin or y.origin)
            if x.off is not None or y.off is not None or x.loop is not None:
                off = x.off if x.off is not None else y.off
                if x.off is not None and y.off is not None and x.off != y.off:
                    raise NotUnderstood("rows written differ between branches")
                lp = x.loop
                if lp is None:
                    lp = [l for l in self.loops if l.isym.id not in ()][-1]
                idx = Poly.atom(lp.isym) + off if off is not None else None
                b0 = lambda s: s.cur if s.cur is not None else self.simp(X.subst(s.e, {T.id: idx}))
                if off is None:
                    return x
                return x.set(off=off, cur=self.simp(X.ite(c, b0(x), b0(y))), dtype=dt, origin=og)
            return x.set(e=self.simp(X.ite(c, x.e, y.e)), dtype=dt, origin=og)
        if isinstance(x, Arr):
            if x.st == y.st and x.kind == y.kind and x.length == y.length and x.index == y.index:
                return x.set(name=x.name if x.name == y.name else None)
            raise NotUnderstood("arrays differ between branches")
        if isinstance(x, PyList):
            if len(x.items) == len(y.items) and x.kind == y.kind:
                return x.set(items=tuple(self.merge_val(c, p, q, out) for p, q in zip(x.items, y.items)))
            return Lost("lists differ between branches")
        if isinstance(x, PyDict):
            if len(x.items) == len(y.items) and all(p[0] == q[0] for p, q in zip(x.items, y.items)):
                return x.set(items=tuple((p[0], self.merge_val(c, p[1], q[1], out)) for p, q in zip(x.items, y.items)))
            return Lost("dicts differ between branches")
        if isinstance(x, DF):
            if [n for n, _ in x.cols] == [n for n, _ in y.cols] and x.length == y.length and x.index == y.index:
                return x.set(cols=[(n, self.merge_val(c, p, q, out)) for (n, p), (_, q) in zip(x.cols, y.cols)])
            raise NotUnderstood("tables differ between branches")
        raise NotUnderstood("values differ between branches")

    def merge_val(self, c, x, y, st):
        if x is y:
            return x
        try:
            if type(x) is type(y) and not isinstance(x, (Num, bool)) and x == y:
                return x
        except Exception:
            pass
        if is_num(x) and is_num(y):
            t = ntype(x) if ntype(x) == ntype(y) else ("float" if "float" in (ntype(x), ntype(y)) else "int")
            ex, ey = to_e(x), to_e(y)
            if t != "bool":
                ex, ey = numify(ex), numify(ey)
            return from_e(self.simp(X.ite(c, ex, ey)), t)
        if isinstance(x, Ref) and isinstance(y, Ref):
            ax, ay = st.heap.get(x.id), st.heap.get(y.id)
            if isinstance(ax, Arr) and isinstance(ay, Arr) and ax.kind == ay.kind and ax.length == ay.length \
                    and ax.index == ay.index:
                sx, sy = st.heap[ax.st.id], st.heap[ay.st.id]
                inloop = not (sx.loop is None and sy.loop is None and sx.off is None and sy.off is None)
                e = opq("one of two arrays the loop fills") if inloop else self.simp(X.ite(c, sx.e, sy.e))
                r = self.arr(st, e, ax.length, ax.kind, ax.index, ax.name if ax.name == ay.name else None,
                             dt_join("+", sx.dtype, sy.dtype), sx.origin or sy.origin)
                self.either[self.get(st, r).st.id] = (c, x, y)
                return r
            if isinstance(ax, Inst) and isinstance(ay, Inst) and ax.cls == ay.cls:
                vs = {k: self.merge_val(c, v, ay.attrs[k], st) for k, v in ax.attrs.items() if k in ay.attrs}
                return self.new(st, Inst(ax.cls, vs))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(c, p, q, st) for p, q in zip(x, y))
        if not isinstance(x, Opaque) and not isinstance(y, Opaque) and not c.leaf and c.pred.kind == "row" and \
                not self.rowbound(c.pred.p) and self.decide(c.pred.p) is None:
            raise NeedSplit(c.pred.p)
        return Opaque("different kinds of value on two branches")

    def s_Raise(self, st, s):
        name = "Exception"
        try:
            v = self.ev(st, s.exc) if s.exc is not None else None
            if isinstance(v, ExcV):
                name = v.name
        except NotUnderstood:
            v = None
        self.event("raise", "raises %s" % name, st, exc=name, explicit=True)
        return None, [("raise", v, st)]

    def s_Assert(self, st, s):
        c = self.truth(st, self.ev_u(st, s.test))
        if c is True:
            return st, []
        self.event("raise", "assertion may fail", st, exc="AssertionError", cond=c)
        return st, []

    def s_Global(self, st, s):
        f = self.get(st, self.frames[-1])
        st.heap[self.frames[-1].id] = f.set(globals_=tuple(f.globals_) + tuple(s.names))
        return st, []

    def s_Nonlocal(self, st, s):
        f = self.get(st, self.frames[-1])
        st.heap[self.frames[-1].id] = f.set(nonlocals=tuple(f.nonlocals) + tuple(s.names))
        return st, []

    def s_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.get(st, self.frames[-1])
                st.heap[self.frames[-1].id] = f.set(vars={k: v for k, v in f.vars.items() if k != t.id})
            elif isinstance(t, ast.Attribute):
                o = self.ev(st, t.value)
                i = self.obj(st, o)
                if isinstance(i, Inst):
                    self.put(st, o, i.set(attrs={k: v for k, v in i.attrs.items() if k != t.attr}))
            elif isinstance(t, ast.Subscript):
                o = self.ev(st, t.value)
                k = self.ev(st, t.slice)
                i = self.obj(st, o)
                if isinstance(i, DF) and isinstance(k, (str, StrV)):
                    self.lib.df_drop(st, o, [k])
                else:
                    raise NotUnderstood("del item")
        return st, []

    def s_With(self, st, s):
        for i in s.items:
            v = self.ev_u(st, i.context_expr)
            if i.optional_vars is not None:
                self.assign(st, i.optional_vars, v)
        return self.block(st, s.body)

    def s_Try(self, st, s):
        self.trydepth += 1
        n = len(self.events)
        try:
            cur, outs = self.block(st, s.body)
        finally:
            self.trydepth -= 1
        raised = [o for o in outs if o[0] == "raise"]
        outs = [o for o in outs if o[0] != "raise"]
        if raised:
            if len(raised) > 1 or not s.handlers:
                raise NotUnderstood("exception handling")
            ev = [e for e in self.events[n:] if e.kind != "raise"]
            self.events[n:] = ev
            hs, ho = self.block(raised[0][2], s.handlers[0].body)
            outs += ho
            if cur is None:
                cur = hs
            elif hs is not None:
                cur = self.merge(X.b_not(hs.guard), cur, hs, st)
        elif cur is not None and s.orelse:
            cur, o = self.block(cur, s.orelse)
            outs += o
        if s.finalbody and cur is not None:
            cur, o = self.block(cur, s.finalbody)
            outs += o
        return cur, outs

    def s_Break(self, st, s):
        return None, [("break", None, st)]

    def s_Continue(self, st, s):
        return None, [("cont", None, st)]

    # ------------------------------------------------------------ loops
    def s_For(self, st, s):
        it = self.ev(st, s.iter)
        return self.for_loop(st, it, lambda x, v: self.assign(x, s.target, v), s.body, s.orelse)

    def iter_len(self, st, it):
        """(length Poly, item function idx Poly -> value) or a list of concrete items."""
        items = self.concrete_items(st, it)
        if items is not None:
            return items, None
        if isinstance(it, RangeV):
            if it.step != 1:
                if it.step == -1:
                    n = it.a - it.b
                    return n, (lambda x, i: from_e(leaf(Rat(it.a - i, ONE)), "int"))
                raise NotUnderstood("range step")
            return it.b - it.a, (lambda x, i: from_e(leaf(Rat(it.a + i, ONE)), "int"))
        if isinstance(it, IterV):
            if it.kind == "enumerate":
                n, f = self.iter_len(st, it.args[0])
                if f is None:
                    return [(i, v) for i, v in enumerate(n)], None
                k = it.args[1] if len(it.args) > 1 else 0
                return n, (lambda x, i: (from_e(leaf(Rat(i + self.poly(k), ONE)), "int"), f(x, i)))
            if it.kind == "zip":
                parts = [self.iter_len(st, a) for a in it.args]
                if all(f is None for _, f in parts):
                    return [tuple(x) for x in zip(*[n for n, _ in parts])], None
                if any(f is None for _, f in parts):
                    raise NotUnderstood("zip of mixed lengths")
                n = None
                for m, _ in parts:
                    if n is None or self.decide(n - m) is True:
                        n = m
                    elif self.decide(m - n) is not True:
                        raise NotUnderstood("zip lengths")
                return n, (lambda x, i: tuple(f(x, i) for _, f in parts))
            if it.kind == "reversed":
                n, f = self.iter_len(st, it.args[0])
                if f is None:
                    return list(reversed(n)), None
                return n, (lambda x, i: f(x, n - 1 - i))
            if it.kind == "items":
                r = it.args[0]
                a = self.get(st, r)
                return a.length, (lambda x, i: (IndexLabel(a.index, i, x, self), self.read(x, r, i)))
            if it.kind == "map":
                n, f = self.iter_len(st, it.args[1])
                if f is None:
                    return [self.call(st, it.args[0], [v], {}) for v in n], None
                return n, (lambda x, i: self.call(x, it.args[0], [f(x, i)], {}))
            if it.kind == "starmap":
                n, f = self.iter_len(st, it.args[1])
                if f is None:
                    return [self.call(st, it.args[0], list(v), {}) for v in n], None
                return n, (lambda x, i: self.call(x, it.args[0], list(f(x, i)), {}))
            if it.kind == "skip":
                n, f = self.iter_len(st, it.args[0])
                k = it.args[1]
                if f is None:
                    return list(n)[k:], None
                return n - k, (lambda x, i: f(x, i + k))
        if isinstance(it, IndexV):
            return it.length, (lambda x, i: IndexLabel(it.token, i, x, self))
        if self.is_arr(st, it):
            a = self.get(st, it)
            return a.length, (lambda x, i: self.read(x, it, i))
        raise NotUnderstood("iteration over %r" % (it,))

    def concrete_items(self, st, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (str,)):
            return list(v)
        if isinstance(v, RangeV):
            if v.a.is_const() and v.b.is_const():
                a, b = int(v.a.cval()), int(v.b.cval())
                r = range(a, b, v.step)
                if len(r) <= 200:
                    return list(r)
            d = v.b - v.a
            if v.step == 1 and d.is_const() and d.cval() <= 64:
                return [from_e(leaf(Rat(v.a + k, ONE)), "int") for k in range(max(0, int(d.cval())))]
            return None
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, PyList):
                return list(o.items)
            if isinstance(o, PyDict):
                return [k for k, _ in o.items]
            if isinstance(o, DF):
                self.peek(st, o)
                return [n for n, _ in o.cols]
            if isinstance(o, Arr) and o.length.is_const() and o.length.cval() <= 64 and self.get(st, o.st).loop is None:
                return [self.read(st, v, Poly.const(i)) for i in range(int(o.length.cval()))]
        if isinstance(v, IterV):
            subs = {"enumerate": v.args[:1], "reversed": v.args[:1], "map": v.args[1:], "zip": v.args}.get(v.kind)
            parts = [self.concrete_items(st, a) for a in subs] if subs else [None]
            if all(p is not None for p in parts):
                if v.kind == "zip":
                    return [tuple(x) for x in zip(*parts)]
                if v.kind == "reversed":
                    return list(reversed(parts[0]))
                if v.kind == "map":
                    return [self.call(st, v.args[0], list(x), {}) for x in zip(*parts)]
                k = v.args[1] if len(v.args) > 1 else 0
                if isinstance(k, int):
                    return [(i + k, x) for i, x in enumerate(parts[0])]
                if len(parts[0]) == 0:
                    return []
        return None

    def for_loop(self, st, it, bind, body, orelse=(), comp=None):
        n, f = self.iter_len(st, it)
        if f is None:
            return self.unrolled(st, n, bind, body, orelse)
        # the loop variable counts from the range's own start when it is a range (keeps indices simple)
        if isinstance(it, RangeV) and it.step == 1:
            return self.row_loop(st, it.a, it.b, lambda x, i: bind(x, from_e(leaf(Rat(i, ONE)), "int")), body, orelse)
        return self.row_loop(st, ZERO, n, lambda x, i: bind(x, f(x, i)), body, orelse)

    def unrolled(self, st, items, bind, body, orelse):
        outs = []
        brk = []
        cur = st
        for v in items:
            bind(cur, v)
            cur, o = self.block(cur, body)
            conts = []
            for k, val, s2 in o:
                if k == "cont":
                    conts.append(s2)
                elif k == "break":
                    brk.append(s2)
                else:
                    outs.append((k, val, s2))
            for s2 in conts:
                cur = s2 if cur is None else self.merge(s2.guard, s2, cur, st)
            if cur is None:
                break
        if cur is not None and orelse:
            cur, o = self.block(cur, orelse)
            outs += o
        for s2 in brk:
            cur = s2 if cur is None else self.merge(s2.guard, s2, cur, st)
        return cur, outs

    def s_While(self, st, s):
        conv = self.while_counter(st, s)
        if conv is None:
            return self.while_known(st, s)
        name, bound, incl, step = conv
        a = self.poly(self.lookup(st, name))
        b = self.poly(self.ev(st, bound))
        if (b - a).is_const() and abs((b - a).cval()) <= 64:
            return self.while_known(st, s)
        num = lambda p: from_e(leaf(Rat(p, ONE)), "int")
        if step == 1:
            b = b + (1 if incl else 0)
            cur, outs = self.row_loop(st, a, b, lambda x, i: self.assign_name(x, name, num(i)), s.body, s.orelse)
        else:
            b = b - (1 if incl else 0)
            cur, outs = self.row_loop(st, ZERO, a - b, lambda x, i: self.assign_name(x, name, num(a - i)), s.body, s.orelse)
        if cur is not None:
            self.assign_name(cur, name, num(b))
        return cur, outs

    def while_known(self, st, s):
        """a loop whose test is known each time it is evaluated."""
        outs, brk, cur = [], [], st
        for _ in range(300):
            c = self.truth(cur, self.ev_u(cur, s.test))
            if c is False:
                if s.orelse:
                    cur, o = self.block(cur, s.orelse)
                    outs += o
                break
            if c is not True:
                raise NotUnderstood("while loop")
            cur, o = self.block(cur, s.body)
            for k, val, s2 in o:
                if k == "cont":
                    cur = s2 if cur is None else self.merge(s2.guard, s2, cur, st)
                elif k == "break":
                    brk.append(s2)
                else:
                    outs.append((k, val, s2))
            if cur is None:
                break
        else:
            raise NotUnderstood("while loop")
        for s2 in brk:
            cur = s2 if cur is None else self.merge(s2.guard, s2, cur, st)
        return cur, outs

    def while_counter(self, st, s):
        """a test `name < bound` and one unconditional `name += 1` (or the downward form) in the body."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        left, op, right = t.left, t.ops[0], t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        if type(op) not in flip:
            return None

        def change(n, name):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                op, v = n.op, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id == name and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and \
                    n.value.left.id == name:
                op, v = n.value.op, n.value.right
            else:
                return 0
            if not (isinstance(v, ast.Constant) and v.value == 1 and type(v.value) is int):
                return 0
            return 1 if isinstance(op, ast.Add) else -1 if isinstance(op, ast.Sub) else 0

        for name, o, bound in ((left, type(op), right), (right, flip[type(op)], left)):
            if not isinstance(name, ast.Name):
                continue
            nm = name.id
            at = [(k, change(n, nm)) for k, n in enumerate(s.body) if change(n, nm)]
            if len(at) != 1:
                continue
            k, step = at[0]
            if o is ast.NotEq:
                v = self.ev_u(st, bound)
                a, b = self.poly(self.lookup(st, nm)), self.poly(v)
                if self.decide((b - a) * step) is not True:
                    continue
                o = ast.Lt if step == 1 else ast.Gt
            if (step == 1) != (o in (ast.Lt, ast.LtE)):
                continue
            bad = False
            names = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)} | {nm}
            for j, n in enumerate(s.body):
                if j == k:
                    continue
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, (ast.Store, ast.Del)):
                        bad = True
                    if isinstance(x, ast.Continue) and j < k:
                        bad = True
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and any(
                            isinstance(y, ast.Attribute) and y.attr == x.attr for y in ast.walk(bound)):
                        bad = True
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS_ and any(
                            isinstance(y, ast.Call) for y in ast.walk(bound)):
                        bad = True
            if not bad:
                return nm, bound, o in (ast.LtE, ast.GtE), step
        return None

    def is_rows(self, p):
        return any(i == X.N.id or (ATOMS[i].kind == "sym" and ATOMS[i].a[1] == "row") for i in p.atoms())

    def bounded(self, p):
        """at most the sum of the window parameters plus a constant."""
        b = Poly.const(4096)
        for q in [p] + list(self.ctx):
            for i in q.atoms():
                a = ATOMS[i]
                for x in ([a] if a.kind == "sym" else [ATOMS[j] for r in a.a[1:] if isinstance(r, X.Rat) for j in r.atoms()]
                          if a.kind == "fn" else []):
                    if x.kind == "sym" and x.a[1] == "int" and x is not X.N and x.a[2] is not None and x.a[2] >= 0:
                        b = b + Poly.atom(x).scale(4)
        return self.decide(b - p) is True

    def touch(self, st, length, what):
        """a pass over `length` elements."""
        if self.inrow and self.is_rows(length) and not self.bounded(length):
            self.event("nested", "%s over %s elements inside a loop over the rows" % (what, X.show_idx(length)), st)

    def row_loop(self, st, a, b, bind, body, orelse=()):
        from loops import RowLoop
        return RowLoop(self, st, a, b, bind, body, orelse).run()

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise NotUnderstood("expression " + type(e).__name__)
        if hasattr(e, "lineno"):
            self.loc = (self.loc[0], e.lineno, self.loc[2])
        return m(st, e)

    def e_Constant(self, st, e):
        v = e.value
        if isinstance(v, float):
            if v != v:
                return FNAN
            if v in (float("inf"), float("-inf")):
                return FINF if v > 0 else FNINF
            return Fraction(repr(v))
        return v

    def e_Name(self, st, e):
        return self.lookup(st, e.id)

    def e_Tuple(self, st, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_items(st, self.ev(st, x.value))
                if it is None:
                    raise NotUnderstood("starred")
                out += it
            else:
                out.append(self.ev(st, x))
        return tuple(out)

    def e_List(self, st, e):
        return self.new(st, PyList(self.e_Tuple(st, e)))

    def e_Set(self, st, e):
        return self.new(st, PyList(self.e_Tuple(st, e), "set"))

    def e_Dict(self, st, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.obj(st, self.ev(st, v))
                if not isinstance(o, PyDict):
                    raise NotUnderstood("dict unpacking")
                items = [x for x in items if all(x[0] != y[0] for y in o.items)] + list(o.items)
            else:
                kk = self.ev(st, k)
                items = [x for x in items if x[0] != kk] + [(kk, self.ev(st, v))]
        return self.new(st, PyDict(items))

    def e_JoinedStr(self, st, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(st, v.value)
                parts.append(self.to_str(x))
        return mk_str(parts)

    def to_str(self, x):
        if isinstance(x, StrV):
            return x
        if isinstance(x, str):
            return x
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, int):
            return str(x)
        if isinstance(x, Fraction):
            return repr(float(x))
        if isinstance(x, Num):
            return StrV((("num", x.e.id),))
        return StrV((("val", repr(x)),))

    def e_BinOp(self, st, e):
        return self.binop(st, BIN[type(e.op)], self.ev(st, e.left), self.ev(st, e.right))

    def e_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(st, v)
            return (not c) if isinstance(c, bool) else from_e(self.simp(X.b_not(c)), "bool")
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, Opaque):
            return v
        if isinstance(e.op, ast.USub):
            if v is FINF:
                return FNINF
            if v is FNINF:
                return FINF
            if is_num(v):
                if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
                    return -v
                return from_e(X.neg(numify(to_e(v))), ntype(v))
            return self.map1(st, v, X.neg, "neg")
        if isinstance(e.op, ast.Invert):
            if is_num(v):
                if ntype(v) != "bool":
                    raise NotUnderstood("~ on a number")
                if isinstance(v, bool):
                    # ~True is -2
                    raise NotUnderstood("~ on a Python bool")
                return from_e(X.b_not(v.e), "bool")
            return self.map1(st, v, lambda x: X.b_not(nb(x)), "not", dtype="bool")
        raise NotUnderstood("unary operator")

    def map1(self, st, v, f, what, dtype=None):
        if isinstance(v, Opaque):
            return v
        o = self.obj(st, v)
        if isinstance(o, Arr):
            self.touch(st, o.length, what)
            s = self.get(st, o.st)
            return self.arr(st, self.simp(f(self.rowwise(st, v))), o.length, o.kind if o.kind != "list" else "ndarray",
                            o.index, o.name, dtype or s.dtype)
        if isinstance(o, DF):
            cols = [(n, self.map1(st, c, f, what, dtype)) for n, c in o.cols]
            return self.new(st, DF(cols, o.index, o.length))
        if isinstance(o, PyList):
            return self.new(st, PyList([self.map1(st, x, f, what, dtype) for x in o.items], "nd2"))
        if is_num(v):
            return from_e(self.simp(f(to_e(v))), dtype or ntype(v))
        raise NotUnderstood("%s of %r" % (what, v))

    def e_BoolOp(self, st, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            v = self.ev(st, x)
            c = self.truth(st, v)
            if isinstance(c, bool):
                if c != isand:
                    return v if acc is None else (from_e(acc, "bool") if False else (LFv(acc, isand)))
                if k == len(e.values) - 1 and acc is None:
                    return v
                continue
            if acc is None:
                acc = c
            else:
                acc = X.b_and(acc, c) if isand else X.b_or(acc, c)
        if acc is None:
            return isand
        return from_e(self.simp(acc), "bool")

    def e_Compare(self, st, e):
        left = self.ev(st, e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r)
            v = self.compare(st, op, left, right)
            if res is None:
                res = v
            else:
                a, b = self.truth(st, res), self.truth(st, v)
                if a is False or b is False:
                    res = False
                elif a is True:
                    res = v
                elif b is True:
                    pass
                else:
                    res = from_e(X.b_and(a, b), "bool")
            left = right
        return res

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque("identity of an unknown value")
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a == b
            elif isinstance(b, bool) or isinstance(a, bool):
                r = False if not (isinstance(a, Num) or isinstance(b, Num)) else Opaque("identity")
            elif (isinstance(a, (LibFn, Func))) and type(a) is type(b):
                r = a is b or a == b
            else:
                r = Opaque("identity")
            if isinstance(r, Opaque):
                return r
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            if isinstance(r, Opaque):
                return r
            if isinstance(r, Num):
                return r if isinstance(op, ast.In) else from_e(X.b_not(r.e), "bool")
            return r if isinstance(op, ast.In) else not r
        return self.binop(st, CMP[type(op)], a, b)

    def contains(self, st, a, b):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        o = self.obj(st, b)
        if isinstance(o, DF):
            self.peek(st, o)
            return any(n == a for n, _ in o.cols)
        items = self.concrete_items(st, b)
        if items is None or isinstance(a, Opaque):
            return Opaque("membership")
        acc = False
        for x in items:
            r = self.same(st, a, x)
            if r is None:
                return Opaque("membership")
            if r is True:
                return True
            if r is not False:
                acc = r if acc is False else X.ite(acc, LT, r)
        return acc if acc is False else from_e(self.simp(acc), "bool")

    def same(self, st, a, b):
        """equality as the language's containers use it: True, False, a diagram, or None when open."""
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        if is_num(a) and is_num(b):
            return self.truth(st, self.scalar_op("==", a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = True
            for x, y in zip(a, b):
                r = self.same(st, x, y)
                if r is False:
                    return False
                if r is None or isinstance(r, Opaque):
                    acc = None
                elif r is not True and acc is not None:
                    acc = r if acc is True else X.ite(acc, r, LF)
            if acc is None or isinstance(acc, bool):
                return acc
            acc = self.simp(acc)
            return bool(acc.v) if acc.leaf else acc
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return True if a == b else None
        if a is b:
            return True
        hard = (str, StrV, tuple, bool, int, Fraction, Num, type(None))
        if isinstance(a, hard) and isinstance(b, hard):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            return None if isinstance(self.obj(st, a), (Arr, PyList, PyDict, DF)) else False
        try:
            if type(a) is type(b) and a == b:
                return True
        except Exception:
            pass
        return None

    def find(self, st, items, k):
        """place of a key among pairs, or None."""
        for i, (kk, _) in enumerate(items):
            r = self.same(st, k, kk)
            if r is True:
                return i
            if r is not False:
                if isinstance(r, X.E):
                    r = self.simp(r)
                    if r is LT:
                        return i
                    if r is LF:
                        continue
                    if not r.leaf and r.pred.kind == "row" and T.id not in r.pred.free and \
                            not any(l.isym.id in r.pred.free for l in self.loops):
                        raise NeedSplit(r.pred.p)
                raise NotUnderstood("key that may equal another key")
        return None

    def keyed(self, st, items, k, v):
        """pairs after items[k] = v."""
        i = self.find(st, items, k)
        items = list(items)
        if i is None:
            return tuple(items + [(k, v)])
        items[i] = (items[i][0], v)
        return tuple(items)

    def e_IfExp(self, st, e):
        c = self.truth(st, self.ev(st, e.test))
        if c is True:
            return self.ev(st, e.body)
        if c is False:
            return self.ev(st, e.orelse)
        if isinstance(c, Opaque):
            c = opq("unknown condition: " + c.why)
        fa, fb = self.cond_facts(c)
        saved = self.ctx
        a, b = st.fork(), st.fork()
        a.guard = X.b_and(st.guard, c)
        b.guard = X.b_and(st.guard, X.b_not(c))
        try:
            self.ctx = saved + fa
            va = self.ev(a, e.body)
            self.ctx = saved + fb
            vb = self.ev(b, e.orelse)
        finally:
            self.ctx = saved
        m = self.merge(c, a, b, st)
        st.heap = m.heap
        return self.merge_val(c, va, vb, st)

    def e_Lambda(self, st, e):
        return self.mkfunc(st, e, "<lambda>")

    def e_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.assign(st, e.target, v)
        return v

    def e_Starred(self, st, e):
        raise NotUnderstood("starred expression")

    def e_Slice(self, st, e):
        f = lambda x: None if x is None else self.ev(st, x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, st, e):
        return self.getitem(st, self.ev(st, e.value), self.ev(st, e.slice))

    def e_Attribute(self, st, e):
        return self.getattr(st, self.ev(st, e.value), e.attr)

    def e_ListComp(self, st, e):
        return self.comprehension(st, e.generators, e.elt, "list")

    def e_GeneratorExp(self, st, e):
        return self.comprehension(st, e.generators, e.elt, "list")

    def e_SetComp(self, st, e):
        return self.comprehension(st, e.generators, e.elt, "set")

    def e_DictComp(self, st, e):
        g = e.generators
        if len(g) != 1:
            raise NotUnderstood("nested comprehension")
        items = self.concrete_items(st, self.ev(st, g[0].iter))
        if items is None:
            raise NotUnderstood("dict comprehension over rows")
        out = []
        with_frame = self.push_frame(st)
        try:
            for v in items:
                self.assign(st, g[0].target, v)
                if all(self.truth(st, self.ev(st, c)) is True for c in g[0].ifs):
                    k = self.ev(st, e.key)
                    out = self.keyed(st, out, k, self.ev(st, e.value))
        finally:
            self.frames.pop()
        return self.new(st, PyDict(out))

    def push_frame(self, st):
        f = self.get(st, self.frames[-1])
        fr = self.new(st, Frame({}, self.frames[-1], f.module))
        self.frames.append(fr)
        return fr

    def comprehension(self, st, gens, elt, kind):
        if len(gens) == 1:
            g = gens[0]
            it = self.ev(st, g.iter)
            items = self.concrete_items(st, it)
            self.push_frame(st)
            try:
                if items is not None:
                    out = []
                    for v in items:
                        self.assign(st, g.target, v)
                        cs = [self.truth(st, self.ev(st, c)) for c in g.ifs]
                        if any(not isinstance(c, bool) for c in cs):
                            raise NotUnderstood("filtered comprehension")
                        if all(cs):
                            out.append(self.ev(st, elt))
                    return self.new(st, PyList(out, kind))
                if g.ifs:
                    raise NotUnderstood("filtered comprehension over rows")
                name = "__out%d" % fresh_id()
                acc = self.new(st, PyList(()))
                self.assign_name(st, name, acc)
                call = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [elt], []))
                ast.copy_location(call, elt)
                ast.fix_missing_locations(call)
                call.lineno = elt.lineno
                nst, outs = self.for_loop(st, it, lambda x, v: self.assign(x, g.target, v), [call])
                if nst is None or outs:
                    raise NotUnderstood("comprehension")
                if nst is not st:
                    st.heap = nst.heap
                return acc
            finally:
                self.frames.pop()
        # nested generators over concrete items only
        out = []

        def rec(k):
            if k == len(gens):
                out.append(self.ev(st, elt))
                return
            items = self.concrete_items(st, self.ev(st, gens[k].iter))
            if items is None:
                raise NotUnderstood("nested comprehension over rows")
            for v in items:
                self.assign(st, gens[k].target, v)
                cs = [self.truth(st, self.ev(st, c)) for c in gens[k].ifs]
                if any(not isinstance(c, bool) for c in cs):
                    raise NotUnderstood("filtered comprehension")
                if all(cs):
                    rec(k + 1)
        self.push_frame(st)
        try:
            rec(0)
        finally:
            self.frames.pop()
        return self.new(st, PyList(out, kind))

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = self.obj(st, a) or self.obj(st, b)
            if isinstance(o, Arr):
                return self.arr(st, opq("operation with an unknown value"), o.length, o.kind, o.index)
            return a if isinstance(a, Opaque) else b
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            return self.strop(st, op, a, b)
        if is_num(a) and is_num(b):
            return self.scalar_op(op, a, b)
        if a is None or b is None:
            if op in ("==", "!="):
                return (a is b) == (op == "==")
            raise PyRaise("TypeError", "operation with None")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if op == "+":
                return a + b
            if op == "==":
                return a == b
        if isinstance(a, (LabelV, IndexV)) or isinstance(b, (LabelV, IndexV)):
            self.event("label", "computes with labels", st)
            if isinstance(a, LabelV) and isinstance(b, LabelV) and a.token == b.token and op in ("==", "!="):
                return self.binop(st, op, self.lib.num(a.pos), self.lib.num(b.pos))
            a, b = (self.lib.label_num(st, v) if isinstance(v, (LabelV, IndexV)) else v for v in (a, b))
            return self.binop(st, op, a, b)
        oa, ob = self.obj(st, a), self.obj(st, b)
        if isinstance(oa, PyList) and oa.kind == "list" and op in ("+", "*"):
            if isinstance(ob, PyList) and op == "+":
                return self.new(st, PyList(oa.items + ob.items))
            if is_num(b) and op == "*":
                p = self.poly(b)
                if p.is_const():
                    return self.new(st, PyList(oa.items * int(p.cval())))
                if len(oa.items) == 1 and is_num(oa.items[0]):
                    return self.arr(st, to_e(oa.items[0]), p, "list", None, None, ntype(oa.items[0]))
            if isinstance(ob, Arr) and ob.kind == "list" and op == "+":
                return self.lib.concat_arrays(st, [self.lib.list_arr(st, a), b], "list")
        if isinstance(oa, Arr) and oa.kind == "list":
            if op == "+" and isinstance(ob, (Arr, PyList)) and (isinstance(ob, PyList) or ob.kind == "list"):
                return self.lib.concat_arrays(st, [a, self.lib.list_arr(st, b)], "list")
            if op == "*" and is_num(b):
                raise NotUnderstood("list repetition")
        return self.lib.elementwise(st, op, a, b)

    def strop(self, st, op, a, b):
        if op == "+" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return mk_str([a, b])
        if op in ("==", "!="):
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) == (op == "==")
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                return Opaque("text comparison") if a != b else op == "=="
            return op == "!="
        if op == "%":
            return StrV((("fmt", repr(a)),))
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op in ("<", ">", "<=", ">=") and isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        raise NotUnderstood("text operation")

    def scalar_op(self, op, a, b):
        if not isinstance(a, (Num, SpecialFloat)) and not isinstance(b, (Num, SpecialFloat)):
            return self.concrete_op(op, a, b)
        if op in ("&", "|", "^"):
            return from_e(self.simp(e_binop(op, nb(to_e(a)), nb(to_e(b)))), "bool")
        ea, eb = numify(to_e(a)), numify(to_e(b))
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if op in ("==", "!=") and ntype(a) == "bool" and ntype(b) == "bool":
                x = X.ite(to_e(a), to_e(b), X.b_not(to_e(b)))
                return from_e(self.simp(x if op == "==" else X.b_not(x)), "bool")
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
            for v, w, q in ((a, b, op), (b, a, flip.get(op, op))):
                if w is FINF or w is FNINF:
                    if isinstance(v, SpecialFloat):
                        if v is FNAN:
                            return op == "!="
                        x, y = (1 if a is FINF else -1), (1 if b is FINF else -1)
                        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
                    return from_e(self.simp(X.compare_inf(q, numify(to_e(v)), w is FINF)), "bool")
            return from_e(self.simp(X.compare(op, ea, eb)), "bool")
        t = "float" if op == "/" or "float" in (ntype(a), ntype(b)) else "int"
        return from_e(self.simp(e_binop(op, ea, eb)), t)

    def concrete_op(self, op, a, b):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return Fraction(a) / Fraction(b)
        if op == "//":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a // b
        if op == "%":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a % b
        if op == "**":
            if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
                return (Fraction(a) if (isinstance(a, Fraction) or b < 0 or isinstance(b, Fraction)) else a) ** int(b)
            return from_e(X.power(X.const(a), X.const(b)), "float")
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        raise NotUnderstood("operator " + op)

    # ------------------------------------------------------------ attributes
    def getattr(self, st, o, name):
        if isinstance(o, Opaque):
            return Opaque("attribute of " + o.why)
        if isinstance(o, ModV):
            if o.name.split(".")[0] == "ta":
                if self.is_module(o.name + "." + name):
                    self.load_module(st, o.name + "." + name)
                    return ModV(o.name + "." + name)
                fr = self.load_module(st, o.name)
                vs = self.get(st, fr).vars
                if name not in vs:
                    raise PyRaise("AttributeError", name)
                return vs[name]
            return self.lib.from_module(o.name, name, st)
        if isinstance(o, Ref):
            x = st.heap[o.id]
            if isinstance(x, Inst):
                if name in x.attrs:
                    return x.attrs[name]
                if name == "__class__":
                    return x.cls
                if name == "__dict__":
                    return Opaque("__dict__")
                v, found = self.class_lookup(st, x.cls, name)
                if not found:
                    raise PyRaise("AttributeError", name)
                return self.bind(st, v, o, x.cls)
            if isinstance(x, ClassO):
                v, found = self.class_lookup(st, o, name)
                if not found:
                    if name == "__name__":
                        return x.name
                    raise PyRaise("AttributeError", name)
                if isinstance(v, Decor):
                    return v.fn.bind(o) if v.kind == "classmethod" else v.fn
                return v
        if isinstance(o, SuperV):
            for b in st.heap[o.cls.id].bases:
                if isinstance(b, Ref):
                    v, found = self.class_lookup(st, b, name)
                    if found:
                        return self.bind(st, v, o.self_, b)
            if name == "__init__":
                return LibFn("builtins.object_init")
            raise PyRaise("AttributeError", name)
        return self.lib.getattr(st, o, name)

    def bind(self, st, v, self_, cls):
        if isinstance(v, Func):
            return v.bind(self_)
        if isinstance(v, Decor):
            if v.kind == "staticmethod":
                return v.fn
            if v.kind == "classmethod":
                return v.fn.bind(cls)
            if v.kind == "property":
                return self.call(st, v.fn.bind(self_), [], {})
        return v

    def class_lookup(self, st, cref, name):
        c = st.heap[cref.id]
        if name in c.attrs:
            return c.attrs[name], True
        for b in c.bases:
            if isinstance(b, Ref) and isinstance(st.heap.get(b.id), ClassO):
                v, f = self.class_lookup(st, b, name)
                if f:
                    return v, True
            elif isinstance(b, Opaque):
                raise NotUnderstood("unknown base class")
        return None, False

    def setattr(self, st, o, name, v):
        if isinstance(o, Opaque):
            return
        if isinstance(o, Ref):
            x = st.heap[o.id]
            if isinstance(x, Inst):
                if o.id < self.boundary:
                    self.event("shared_write", "writes attribute %s of a shared object" % name, st)
                st.heap[o.id] = x.set(attrs={**x.attrs, name: v})
                return
            if isinstance(x, ClassO):
                self.event("shared_write", "writes class attribute %s.%s" % (x.name, name), st)
                st.heap[o.id] = x.set(attrs={**x.attrs, name: v})
                return
            if isinstance(x, Arr):
                if name == "name":
                    if self.origin(st, o) is not None and self.is_caller_object(st, o):
                        self.event("mutate", "renames the caller's series", st)
                    st.heap[o.id] = x.set(name=v)
                    return
                if name == "index":
                    if self.is_caller_object(st, o):
                        self.event("mutate", "replaces the labels of the caller's series", st)
                    tok = self.lib.index_token(st, v, x.length)
                    st.heap[o.id] = x.set(index=tok)
                    return
            if isinstance(x, DF) and name in ("columns", "index"):
                if x.origin:
                    self.event("mutate", "replaces the %s of the caller's table" % name, st)
                if name == "columns":
                    items = self.concrete_items(st, v)
                    if items is not None and len(items) == len(x.cols):
                        st.heap[o.id] = x.set(cols=tuple((n, c) for n, (_, c) in zip(items, x.cols)))
                        return
                    raise NotUnderstood("columns assignment")
                st.heap[o.id] = x.set(index=self.lib.index_token(st, v, x.length))
                return
        if isinstance(o, IndexV) and name in ("name", "names"):
            if o.own:
                self.event("mutate", "renames the labels of the caller's series", st)
            elif o.own is None:
                self.event("mutate_maybe", "renames labels that may be the caller's", st)
            return
        if isinstance(o, ModV):
            self.event("shared_write", "writes module attribute %s.%s" % (o.name, name), st)
            return
        raise NotUnderstood("attribute assignment")

    def is_caller_object(self, st, ref):
        return ref.id in getattr(self, "caller_refs", ())

    # ------------------------------------------------------------ items
    def getitem(self, st, o, k):
        if isinstance(o, Opaque):
            return o
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                return o[slice(cint(self, k.a), cint(self, k.b), cint(self, k.step))]
            p = self.poly(k)
            if p.is_const():
                try:
                    return o[int(p.cval())]
                except IndexError:
                    raise PyRaise("IndexError")
            raise NotUnderstood("tuple index")
        return self.lib.getitem(st, o, k)

    def setitem(self, st, o, k, v):
        if isinstance(o, AliasV):
            self.mutated(st, o.ref)
            x = self.get(st, o.ref)
            st.heap[x.st.id] = self.get(st, x.st).set(e=opq("written through another view"))
            return
        if isinstance(o, Opaque):
            return
        self.lib.setitem(st, o, k, v)

    # ------------------------------------------------------------ calls
    def e_Call(self, st, e):
        loc = self.loc
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            f = self.get(st, fr)
            c = f.vars.get("__class__")
            s = f.vars.get("__self__")
            if c is None:
                raise NotUnderstood("super()")
            return SuperV(c, s)
        fn = self.ev(st, e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.concrete_items(st, self.ev(st, a.value))
                if it is None:
                    raise NotUnderstood("starred argument")
                args += it
            else:
                args.append(self.ev(st, a))
        for k in e.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                o = self.obj(st, v)
                if not isinstance(o, PyDict):
                    raise NotUnderstood("** argument")
                for kk, vv in o.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        self.loc = (loc[0], e.lineno, loc[2])
        return self.call(st, fn, args, kw)

    def call(self, st, fn, args, kw):
        if isinstance(fn, Func):
            return self.call_func(st, fn, args, kw)
        if isinstance(fn, Decor):
            return self.call(st, fn.fn, args, kw)
        if isinstance(fn, Ref) and isinstance(st.heap[fn.id], ClassO):
            return self.instantiate(st, fn, args, kw)
        if isinstance(fn, Ref) and isinstance(st.heap[fn.id], Inst):
            m = self.getattr(st, fn, "__call__")
            return self.call(st, m, args, kw)
        if isinstance(fn, HostFn):
            return fn.fn(*args, **kw)
        if isinstance(fn, PartialV):
            return self.call(st, fn.fn, list(fn.args) + args, {**fn.kw, **kw})
        if isinstance(fn, Opaque):
            for a in list(args) + list(kw.values()):
                if self.is_arr(st, a) and self.origin(st, a):
                    pass
            return Opaque("call of " + fn.why)
        return self.lib.call(st, fn, args, kw)

    def prelude(self, st, name, args):
        """a library function written in Python (see PRELUDE), interpreted at the current place."""
        f = Func(PRELUDE[name], self.get(st, self.frames[-1]).module, None, (), {}, name, self.loc[2])
        saved = self.loc
        line = self.loc[1]
        for n in ast.walk(f.node):
            if hasattr(n, "lineno"):
                n.lineno = line
        try:
            return self.call_func(st, f, args, {})
        finally:
            self.loc = saved

    def instantiate(self, st, cref, args, kw):
        c = st.heap[cref.id]
        o = self.new(st, Inst(cref, {}))
        init, found = self.class_lookup(st, cref, "__init__")
        if found and isinstance(init, Func):
            self.call_func(st, init.bind(o), args, kw)
        elif any(isinstance(b, LibFn) and "Exception" in b.name or isinstance(b, LibFn) and b.name.endswith("Error")
                 for b in c.bases):
            return ExcV(c.name, args)
        elif found:
            raise NotUnderstood("constructor")
        return o

    def call_func(self, st, f, args, kw):
        node = f.node
        if self.depth > 60:
            raise NotUnderstood("recursion")
        if isinstance(node, ast.FunctionDef) and is_generator(node):
            node = listed(node)
        a = node.args
        vals = {}
        pos = list(args)
        if f.self_ is not None:
            pos = [f.self_] + pos
        params = [p.arg for p in a.posonlyargs + a.args]
        if len(pos) > len(params):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments for " + f.name)
            vals[a.vararg.arg] = tuple(pos[len(params):])
            pos = pos[:len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(params, pos):
            vals[n] = v
        extra = []
        names = set(params) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    raise PyRaise("TypeError", "argument %s given twice" % k)
                vals[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                raise PyRaise("TypeError", "unexpected argument %s of %s" % (k, f.name))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new(st, PyDict(extra))
        nd = len(f.defaults)
        for n, d in zip(params[len(params) - nd:] if nd else [], f.defaults):
            vals.setdefault(n, d)
        for p in a.kwonlyargs:
            if p.arg in f.kwdefaults:
                vals.setdefault(p.arg, f.kwdefaults[p.arg])
        for n in list(params) + [p.arg for p in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise("TypeError", "missing argument %s of %s" % (n, f.name))
        if f.cls is not None:
            vals["__class__"] = f.cls
            vals["__self__"] = f.self_
        fr = self.new(st, Frame(vals, f.closure, f.module))
        saved = self.loc, self.chain
        self.chain = self.chain + ("%s:%s" % (self.loc[0], self.loc[1]),)
        self.loc = (self.mod_file(f.module), node.lineno, f.qual)
        self.frames.append(fr)
        self.depth += 1
        g0 = st.guard
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(st, node.body)
            work = st.fork()
            work.guard = LT
            end, outs = self.block(work, node.body)
            rets = [(v, s) for k, v, s in outs if k == "ret"]
            if end is not None:
                rets.append((None, end))
            if any(k in ("break", "cont") for k, _, _ in outs):
                raise NotUnderstood("stray loop control")
            if not rets:
                raise PyRaise("Exception", "from " + f.qual)
            val, s = rets[-1]
            for v2, s2 in reversed(rets[:-1]):
                m = self.merge(s2.guard, s2, s, st)
                val = self.merge_val(s2.guard, v2, val, m)
                s = m
            st.heap = s.heap
            st.guard = g0
            return val
        finally:
            self.depth -= 1
            self.frames.pop()
            self.loc, self.chain = saved

    def mod_file(self, m):
        p = m.replace(".", "/")
        if os.path.isdir(os.path.join(self.root, p)):
            return p + "/__init__.py"
        return p + ".py"


def own_nodes(node):
    """nodes of a function body, without those of functions defined inside it."""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


_LISTED = {}


class _Lister(ast.NodeTransformer):
    """a generator run to its end: every yield appends to the list of its values."""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        y = n.value
        if isinstance(y, ast.Yield):
            x = y.value if y.value is not None else ast.Constant(None)
            c = ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "append", ast.Load()), [x], [])
        elif isinstance(y, ast.YieldFrom):
            c = ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "extend", ast.Load()), [y.value], [])
        else:
            return n
        return ast.fix_missing_locations(ast.copy_location(ast.Expr(c), n))

    def visit_Return(self, n):
        if n.value is not None:
            raise NotUnderstood("generator with a result")
        return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name("__yield__", ast.Load())), n))


def listed(node):
    r = _LISTED.get(id(node))
    if r is None:
        import copy
        r = copy.deepcopy(node)
        r.body = [ast.parse("__yield__ = []").body[0]] + [_Lister().visit(s) for s in r.body] + \
            [ast.parse("return __yield__").body[0]]
        for s in (r.body[0], r.body[-1]):
            for n in ast.walk(s):
                if hasattr(n, "lineno"):
                    n.lineno = n.end_lineno = node.lineno
        if is_generator(r):
            raise NotUnderstood("generator that receives values")
        _LISTED[id(node)] = (r, node)
        return r
    return r[0]


PRELUDE = {f.name: f for f in ast.parse("""
def to_list(xs):
    return [x for x in xs]


def accumulate(acc, rest, f):
    out = [acc]
    for x in rest:
        acc = f(acc, x)
        out.append(acc)
    return out


def reduce(acc, rest, f):
    for x in rest:
        acc = f(acc, x)
    return acc
""").body}


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PartialV:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class LabelV:
    """the label of row `pos` of an index."""

    def __init__(self, token, pos):
        self.token, self.pos = token, pos


def IndexLabel(token, pos, st, interp):
    if token == RANGE:
        return from_e(leaf(Rat(pos, ONE)), "int")
    return LabelV(token, pos)


def LFv(acc, isand):
    return not isand


def numify(e):
    """Booleans as 0/1."""
    if any(isinstance(l.v, bool) for l in X.leaves(e)):
        return X.lift("numify", lambda v: leaf(X.num(v)), e)
    return e


def nbo(v):
    return opq("truth of an unknown value (%s)" % getattr(v, "why", type(v).__name__))


def mk_str(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, StrV) else [p]):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return StrV(out)


def cint(it, v):
    if v is None:
        return None
    p = it.poly(v)
    if p.is_const():
        return int(p.cval())
    raise NotUnderstood("symbolic slice of a tuple")


_PH = [0]


def placeholder(typ):
    _PH[0] += 1
    a = X.sym("state%d" % _PH[0], typ, None)
    if typ == "bool":
        return X.node(X.mk_pred("bool", a), (LF, LT))
    return leaf(Rat.atom(a))
