"""Models of the library surface the analysed code uses: builtins, math, numpy, pandas (row-function semantics)."""
import ast
import math
from fractions import Fraction
from poly import Poly, Rat, ATOMS, ONE, ZERO
import expr as X
import series as S
from expr import leaf, TP, NP_, T, LNAN, LINF, L0, L1, LT, LF, NotUnderstood
from values import *

INPUT = ("input",)
RANGE = ("range",)

IMPURE = ("random", "time", "datetime", "os", "sys", "secrets", "uuid", "pathlib", "io", "socket", "threading",
          "multiprocessing", "subprocess", "tempfile", "shutil", "urllib", "requests", "platform", "locale")
PURE_MODS = ("math", "numpy", "pandas", "typing", "functools", "itertools", "operator", "warnings", "collections", "abc",
             "dataclasses", "enum", "statistics", "numbers", "copy", "logging", "contextlib", "__future__", "types",
             "collections.abc", "decimal", "fractions")
EXC = ("ValueError", "TypeError", "KeyError", "IndexError", "Exception", "RuntimeError", "ZeroDivisionError",
       "NotImplementedError", "AttributeError", "ImportError", "StopIteration", "ArithmeticError", "AssertionError",
       "OverflowError", "DeprecationWarning", "UserWarning", "Warning", "FutureWarning", "RuntimeWarning", "BaseException",
       "LookupError", "NameError")
BUILTINS = ("len range enumerate zip min max abs sum int float bool str round list tuple dict set frozenset sorted reversed map "
            "filter isinstance issubclass getattr setattr hasattr print type any all iter next callable divmod pow id hash "
            "object property staticmethod classmethod open input vars globals locals repr format slice exec eval "
            "NotImplemented Ellipsis bytes complex ord chr hex").split()

REDUCE = ("sum", "mean", "max", "min", "std", "var", "prod", "median", "count", "argmax", "argmin")
NPBIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "floor_divide": "//",
         "greater": ">", "greater_equal": ">=", "less": "<", "less_equal": "<=", "equal": "==", "not_equal": "!=",
         "logical_and": "&", "logical_or": "|", "logical_xor": "^", "mod": "%", "remainder": "%", "float_power": "**",
         "bitwise_and": "&", "bitwise_or": "|"}
SBIN = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "truediv": "/", "divide": "/",
        "pow": "**", "floordiv": "//", "mod": "%", "gt": ">", "ge": ">=", "lt": "<", "le": "<=", "eq": "==", "ne": "!="}
RBIN = {"radd": "+", "rsub": "-", "rmul": "*", "rdiv": "/", "rtruediv": "/", "rpow": "**"}
NP1 = ("sqrt", "log", "exp", "log1p", "expm1", "log10", "log2", "sin", "cos", "tan", "arctan", "tanh", "floor", "ceil", "rint",
       "cbrt")


def bindargs(fname, names, args, kw, /, **defaults):
    out = dict(defaults)
    if len(args) > len(names):
        raise NotUnderstood("arguments of " + fname)
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        if k not in names and k not in defaults:
            raise NotUnderstood("argument %s of %s" % (k, fname))
        out[k] = v
    return out


# what the input's labels are: None = nothing is known, else one of
WORLDS = ("range", "offset", "reversed", "dates", "floats", "text")
LABELS = None


# a chosen state of the surroundings: (text of every environment variable or None, a number)
AMBIENT = None
AMBIENT_MODES = ((None, Fraction(1, 4)), ("1", Fraction(3, 4)), ("0", Fraction(1, 4)), ("2", Fraction(3, 4)),
                 ("true", Fraction(1, 4)), ("", Fraction(3, 4)))
AMBIENT_FN = ("os.getenv", "random.random", "time.time", "time.perf_counter", "time.monotonic", "time.process_time",
              "numpy.random.rand", "numpy.random.random", "numpy.random.uniform", "random.uniform", "os.getpid", "time.time_ns",
              "os.path.exists", "os.path.isfile", "os.path.isdir", "random.randint", "os.cpu_count", "random.getrandbits",
              "threading.active_count", "threading.get_ident", "numpy.random.randint")


class DT:
    """a dtype value."""

    def __init__(self, n):
        self.n = n


class ReprIdx:
    pass


ROWMETH = ("shift", "diff", "pct_change", "cumsum", "cumprod", "cummax", "cummin", "ffill", "bfill")


class Lib:
    def __init__(self, it):
        self.it = it
        self.views = {}

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in EXC or name in BUILTINS:
            return LibFn("builtins." + name)
        if name == "__name__":
            return "ta"
        if name == "__file__":
            return Opaque("__file__")
        from interp import PyRaise
        raise PyRaise("NameError", name)

    def from_module(self, mod, name, st=None):
        top = mod.split(".")[0]
        full = mod + "." + name
        if full in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN", "pandas.NA", "pandas.NaT"):
            return FNAN
        if full in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.PINF"):
            return FINF
        if full == "numpy.NINF":
            return FNINF
        if full in ("math.pi", "numpy.pi"):
            return Fraction("3.141592653589793")
        if full in ("math.e", "numpy.e"):
            return Fraction("2.718281828459045")
        if full == "numpy.newaxis":
            return None
        if top in IMPURE or full.startswith("numpy.random"):
            self.it.event("impure", "uses %s" % full)
            if AMBIENT is not None:
                if full == "os.environ" and st is not None:
                    return self.environ(st)
                if full in AMBIENT_FN:
                    return LibFn(full)
            return Opaque("impure " + full)
        if full in ("numpy.errstate", "warnings.catch_warnings"):
            return LibFn(full)
        if top in PURE_MODS:
            return LibFn(full)
        raise NotUnderstood("module " + mod)

    def environ(self, st):
        """os.environ in the chosen state: every name the package could ask for has the same text."""
        it = self.it
        val = AMBIENT[0]
        items = []
        if val is not None:
            for k in sorted(it.name_texts()):
                items.append((k, val))
        return it.new(st, PyDict(items))

    def f_builtins_id(self, st, args, kw):
        """address of an object: one number per object alive; objects of another time may have the same numbers."""
        it = self.it
        it.event("impure", "calls id()", st)
        k = args[0].id if isinstance(args[0], Ref) else repr(args[0])
        return 1000 + 16 * it.ids.setdefault(k, len(it.ids)) + (0 if AMBIENT is None else int(AMBIENT[1] * 4))

    def f_pandas_set_option(self, st, args, kw):
        for n, v in zip(args[::2], args[1::2]):
            if not isinstance(n, str) or not n.startswith("display"):
                self.it.event("ambient_write", "changes the pandas option %s for everybody" % (n if isinstance(n, str) else ""), st)
        return None

    f_pandas_reset_option = f_pandas_set_option

    def f_pandas_get_option(self, st, args, kw):
        n = args[0] if args and isinstance(args[0], str) else "?"
        self.it.event("impure", "uses pandas-option:%s" % n, st)
        return Opaque("impure pandas-option:%s" % n)

    def f_numpy_seterr(self, st, args, kw):
        if any(v in ("raise", "call") for v in list(args) + list(kw.values())):
            self.it.event("ambient_write", "makes numpy raise on floating-point conditions for everybody", st)
        return Opaque("numpy settings")

    def f_numpy_geterr(self, st, args, kw):
        self.it.event("impure", "uses numpy.geterr", st)
        return Opaque("impure numpy.geterr")

    def f_os_getenv(self, st, args, kw):
        b = bindargs("getenv", ("key", "default"), args, kw, default=None)
        return b["default"] if AMBIENT is None or AMBIENT[0] is None else AMBIENT[0]

    def ambient_call(self, name):
        v = AMBIENT[1]
        last = name.split(".")[-1]
        if last in ("exists", "isfile", "isdir"):
            return v > Fraction(1, 2)
        if last in ("getpid", "time_ns", "randint", "cpu_count", "getrandbits", "active_count", "get_ident"):
            return int(v * 4)
        return v

    # ------------------------------------------------------------ labels, when they are assumed to be of one kind
    def label_rat(self, pos, n):
        """number standing for the label of row pos; equal order, and equal value in the numeric kinds."""
        if LABELS in ("range", "dates"):
            return Rat(pos, ONE)
        if LABELS == "offset":
            return Rat(pos + 5, ONE)
        if LABELS in ("reversed", "text"):
            return Rat(n - 1 - pos, ONE)
        if LABELS == "floats":
            return Rat(pos.scale(Fraction(1, 2)), ONE)
        raise NotUnderstood("labels used as data")

    def label_base(self, token):
        """(first position of the input the labels stand for) or None."""
        if token == INPUT:
            return ZERO
        return None

    def label_pos(self, p, n, fallback):
        """row whose label is the integer p."""
        from interp import PyRaise
        if LABELS is None or LABELS == "range":
            return p
        if LABELS == "offset":
            return p - 5
        if LABELS == "reversed":
            return n - 1 - p
        if LABELS == "floats":
            return p.scale(2)
        if fallback:
            return p
        raise PyRaise("KeyError", "no such label")

    def label_attr(self, o, name):
        up = LABELS not in ("reversed", "text")
        if name == "dtype":
            return DT({"dates": "datetime", "text": "obj", "floats": "float"}.get(LABELS, "int"))
        if name == "is_unique":
            return True
        if name in ("is_monotonic_increasing", "is_monotonic"):
            return up
        if name == "is_monotonic_decreasing":
            return not up
        if name in ("has_duplicates", "hasnans"):
            return False
        if name == "inferred_type":
            return {"dates": "datetime64", "text": "string", "floats": "floating"}.get(LABELS, "integer")
        if name == "step" and LABELS in ("range", "offset"):
            return 1
        if name == "start" and LABELS in ("range", "offset"):
            return 0 if LABELS == "range" else 5
        if name == "stop" and LABELS in ("range", "offset"):
            return self.num(o.length + (0 if LABELS == "range" else 5))
        from interp import PyRaise
        if name in ("start", "stop", "step"):
            raise PyRaise("AttributeError", name)
        return Opaque("index." + name)

    def label_isinstance(self, n):
        if n == "pandas.RangeIndex":
            return LABELS in ("range", "offset")
        if n == "pandas.DatetimeIndex":
            return LABELS == "dates"
        if n in ("pandas.MultiIndex", "pandas.PeriodIndex", "pandas.TimedeltaIndex", "pandas.CategoricalIndex",
                 "pandas.IntervalIndex"):
            return False
        return None

    def label_num(self, st, v):
        """number for a label, array for an index."""
        from interp import LabelV, from_e
        if isinstance(v, LabelV):
            if LABELS is None or v.token != INPUT:
                raise NotUnderstood("label used as data")
            return from_e(leaf(self.label_rat(v.pos, NP_)), "float" if LABELS == "floats" else "int")
        return self.as_arr(st, v)

    # ------------------------------------------------------------ helpers
    def P(self, v, what="integer"):
        return self.it.poly(v, what)

    def concrete(self, v, what="switch"):
        """Python bool of an option value."""
        from interp import is_num
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, Fraction)):
            return v
        raise NotUnderstood("symbolic " + what)

    def is_range_len(self, st, v):
        return None

    def need_eq(self, st, a, b, what):
        """lengths must agree."""
        if a == b:
            return
        if self.it.decide(a - b) is not True:
            self.it.event("bound", what, st, need=a - b, exc="ValueError")
        if self.it.decide(b - a) is not True:
            self.it.event("bound", what, st, need=b - a, exc="ValueError")

    def as_arr(self, st, v):
        """Arr for array-likes; None for scalars."""
        it = self.it
        o = it.obj(st, v)
        if isinstance(o, Arr):
            return v
        if isinstance(o, PyList) and o.kind in ("list", "nd1"):
            return self.list_arr(st, v)
        if isinstance(v, tuple):
            return self.list_arr(st, it.new(st, PyList(v)))
        if isinstance(v, IndexV):
            if v.token == RANGE:
                return it.arr(st, leaf(Rat(TP, ONE)), v.length, "ndarray", None, None, "int")
            if LABELS is not None and v.token == INPUT:
                return it.arr(st, leaf(self.label_rat(TP, v.length)), v.length, "ndarray", None, None,
                              "float" if LABELS == "floats" else "int")
            it.event("label", "uses the labels as data", st)
            raise NotUnderstood("labels used as data")
        if isinstance(v, RangeV) and v.step == 1:
            return it.arr(st, leaf(Rat(TP + v.a, ONE)), v.b - v.a, "list", None, None, "int")
        return None

    def list_arr(self, st, v):
        """a list of known scalars as a row array."""
        from interp import is_num, to_e, ntype, numify
        it = self.it
        o = it.obj(st, v)
        if isinstance(o, Arr):
            return v
        if not isinstance(o, PyList):
            raise NotUnderstood("list expected")
        if not o.items:
            return it.arr(st, L0, ZERO, "list", None, None, "float")
        if not all(is_num(x) for x in o.items):
            raise NotUnderstood("list of non-numbers")
        es = [to_e(x) for x in o.items]
        ts = [ntype(x) for x in o.items]
        t = ts[0]
        for x in ts[1:]:
            t = t if t == x else ("float" if "float" in (t, x) else "int")
        if t != "bool":
            es = [numify(e) for e in es]
        e = es[-1]
        for k in range(len(es) - 2, -1, -1):
            e = X.row(TP - (k + 1), e, es[k])
        return it.arr(st, e, Poly.const(len(es)), "list", None, None, t)

    def numc(self, st, v):
        from interp import numify
        return numify(self.it.content(st, v))

    def merge_index(self, st, objs, what):
        """index token of an operation between series; records label dependence."""
        tok = None
        first = None
        for o in objs:
            if o.kind != "series":
                continue
            if tok is None:
                tok, first = o.index, o
            elif o.index != tok:
                self.it.event("misaligned", "%s combines a series labelled by %s with one labelled by %s" % (
                    what, self.tok_name(tok), self.tok_name(o.index)), st)
        return tok

    def tok_name(self, t):
        if t == INPUT:
            return "the caller's labels"
        if t == RANGE:
            return "0..n-1"
        if t is None:
            return "nothing"
        return "a part of (%s)" % (self.tok_name(t[1]) if len(t) > 1 and isinstance(t[1], tuple) else t[0])

    def result_kind(self, objs):
        if any(o.kind == "series" for o in objs):
            return "series"
        return "ndarray"

    def ew(self, st, f, args, dtype, what, numeric=True, kind=None):
        """elementwise operation over arrays and scalars."""
        from interp import is_num, to_e, from_e, numify, opq
        it = self.it
        conv = []
        objs = []
        unknown = None
        for a in args:
            if isinstance(a, Opaque):
                unknown = a
                conv.append(None)
                continue
            r = self.as_arr(st, a)
            if r is not None:
                conv.append(r)
                objs.append(it.get(st, r))
            elif is_num(a):
                conv.append(a)
            elif a is None:
                conv.append(FNAN)
            elif isinstance(it.obj(st, a), (DF, PyList)):
                return self.ew2(st, f, args, dtype, what, numeric)
            else:
                raise NotUnderstood("%s on %r" % (what, a))
        if not objs:
            if unknown is not None:
                return unknown
            es = [to_e(a) for a in conv]
            if numeric:
                es = [numify(e) for e in es]
            return from_e(it.simp(f(*es)), dtype if dtype in ("int", "bool") else "float")
        n = objs[0].length
        one = None
        for o in objs[1:]:
            if o.length != n:
                if o.length.is_const() and o.length.cval() == 1 or n.is_const() and n.cval() == 1:
                    raise NotUnderstood("broadcasting of a one-element array")
                ser = [x for x in (objs[0], o) if x.kind == "series"]
                if len(ser) == 2:
                    raise NotUnderstood("series of different lengths combined")
                self.need_eq(st, n, o.length, what + " of arrays of different lengths")
        it.touch(st, n, what)
        tok = self.merge_index(st, objs, what)
        k = kind or self.result_kind(objs)
        names = {o.name for o in objs if o.kind == "series"}
        nm = names.pop() if len(names) == 1 else None
        if unknown is not None:
            return it.arr(st, opq(unknown.why), n, k, tok if k == "series" else None)
        es = []
        kept = [o.index for o in objs if is_kept(o.index)]
        if kept and any(o.index != kept[0] for o in objs):
            raise NotUnderstood("selections of different rows combined")
        for c in conv:
            e = it.rowwise(st, c) if isinstance(c, Ref) else to_e(c)
            es.append(numify(e) if numeric else e)
        e = it.simp(f(*es))
        return it.arr(st, e, n, k, tok if k == "series" else (kept[0] if kept else None), nm, dtype)

    def ew2(self, st, f, args, dtype, what, numeric):
        """elementwise over tables / 2-d lists."""
        it = self.it
        shape = None
        for a in args:
            o = it.obj(st, a)
            if isinstance(o, DF):
                if shape is not None and shape[0] == "df" and [n for n, _ in shape[1].cols] != [n for n, _ in o.cols]:
                    raise NotUnderstood("tables with different columns")
                shape = ("df", o)
            elif isinstance(o, PyList) and (shape is None):
                shape = ("nd2", o)
        if shape is None:
            raise NotUnderstood(what)
        if shape[0] == "df":
            cols = []
            for j, (nm, _) in enumerate(shape[1].cols):
                sub = []
                for a in args:
                    o = it.obj(st, a)
                    if isinstance(o, DF):
                        sub.append(o.cols[j][1])
                    elif isinstance(o, (Arr, PyList)):
                        raise NotUnderstood("table combined with a series")
                    else:
                        sub.append(a)
                cols.append((nm, self.ew(st, f, sub, dtype, what, numeric)))
            return it.new(st, DF(cols, shape[1].index, shape[1].length))
        rows = []
        for j in range(len(shape[1].items)):
            sub = []
            for a in args:
                o = it.obj(st, a)
                sub.append(o.items[j] if isinstance(o, PyList) else a)
            rows.append(self.ew(st, f, sub, dtype, what, numeric))
        return it.new(st, PyList(rows, "nd2"))

    def elementwise(self, st, op, a, b):
        from interp import e_binop, dt_join, ntype
        it = self.it
        if op == "@":
            return self.call_np(st, "dot", [a, b], {})
        if isinstance(a, WinV) or isinstance(b, WinV):
            if isinstance(a, WinV) and isinstance(b, WinV):
                raise NotUnderstood("operation on two sets of windows")
            w = a if isinstance(a, WinV) else b
            g = w.f or (lambda v: v)
            if w is a:
                return WinV(w.arr, w.w, lambda v: it.binop(st, op, g(v), b))
            return WinV(w.arr, w.w, lambda v: it.binop(st, op, a, g(v)))
        dts = []
        for v in (a, b):
            o = it.obj(st, v)
            if isinstance(o, Arr):
                dts.append(self.it.dtype(st, v))
            elif isinstance(o, DF):
                dts.append("float")
            elif isinstance(v, (DT, LibFn)) and op in ("==", "!="):
                return Opaque("type comparison")
            elif isinstance(v, LabelV_types()):
                self.it.event("label", "computes with a label", st)
                return Opaque("label comparison")
            else:
                try:
                    dts.append(ntype(v))
                except Exception:
                    dts.append("float")
        if op in ("+",) and any(isinstance(it.obj(st, v), Arr) and it.obj(st, v).kind == "list" for v in (a, b)) and \
                not any(isinstance(it.obj(st, v), Arr) and it.obj(st, v).kind != "list" for v in (a, b)):
            raise NotUnderstood("list arithmetic")
        dt = dt_join(op, *dts)
        if dt == "bool" and op not in ("<", "<=", ">", ">=", "==", "!=", "&", "|", "^"):
            dt = "int"
        if op in ("&", "|", "^"):
            from interp import nb
            for v in (a, b):
                o = it.obj(st, v)
            return self.ew(st, lambda x, y: e_binop(op, self.asbool(x), self.asbool(y)), (a, b), "bool", "operator " + op,
                           numeric=False)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
            for v, w, q in ((a, b, op), (b, a, flip.get(op, op))):
                if w is FINF or w is FNINF:
                    return self.ew(st, lambda x: X.compare_inf(q, x, w is FINF), (v,), dt, "operator " + op)
        return self.ew(st, lambda x, y: e_binop(op, x, y), (a, b), dt, "operator " + op)

    def asbool(self, e):
        from interp import boolish, nb
        if boolish(e):
            return nb(e)
        raise NotUnderstood("bit operation on numbers")

    def cond(self, e):
        """truth value of elements (missing counts as false here)."""
        from interp import boolish, nb
        if boolish(e):
            return nb(e)
        return X.compare("!=", e, L0)

    # ------------------------------------------------------------ index
    def index_token(self, st, v, length):
        it = self.it
        if isinstance(v, IndexV):
            self.need_eq(st, v.length, length, "index of a different length")
            return v.token
        if isinstance(v, RangeV):
            self.need_eq(st, v.b - v.a, length, "index of a different length")
            if v.a.is_zero() and v.step == 1:
                return RANGE
            return ("range", repr(v.a))
        if it.is_arr(st, v):
            return ("labels", it.content(st, v).id)
        if isinstance(v, Opaque):
            return ("unknown", v.why)
        o = it.obj(st, v)
        if isinstance(o, PyList):
            return ("list", len(o.items))
        raise NotUnderstood("index value")

    # ------------------------------------------------------------ attributes
    def getattr(self, st, o, name):
        from interp import PyRaise, is_num, SuperV
        it = self.it
        if isinstance(o, LibFn):
            if o.name.split(".")[0] in ("numpy", "pandas", "math", "functools", "itertools", "typing", "warnings",
                                       "operator", "collections"):
                return self.from_module(o.name, name)
            if name == "__name__":
                return o.name.split(".")[-1]
            return LibFn(o.name + "." + name)
        x = it.obj(st, o)
        if isinstance(x, Arr):
            return self.arr_attr(st, o, x, name)
        if isinstance(x, DF):
            if name in ("columns", "shape", "size", "values", "dtypes"):
                it.peek(st, x)
            if name == "columns":
                return it.new(st, PyList([n for n, _ in x.cols], "columns"))
            if name == "index":
                return IndexV(x.index, x.length)
            if name == "shape":
                return (self.num(x.length), len(x.cols))
            if name == "empty":
                if not x.cols:
                    return True
                return it.binop(st, "==", self.num(x.length), 0)
            if name in ("iloc", "loc", "at", "iat"):
                return Acc(o, name)
            if name == "size":
                return self.num(x.length.scale(len(x.cols)))
            if name in ("values",):
                return it.new(st, PyList([c for _, c in x.cols], "rows2"))
            if name == "dtypes":
                return Opaque("dtypes")
            for n, c in x.cols:
                if n == name:
                    return c
            return Meth(o, name)
        if isinstance(x, (PyList, PyDict)):
            if isinstance(x, PyList) and x.kind == "columns" and name == "values":
                return o
            if name == "T" and isinstance(x, PyList) and x.kind in ("nd2", "rows2"):
                return it.new(st, x.set(kind="rows2" if x.kind == "nd2" else "nd2"))
            if name in ("size", "shape", "ndim"):
                if name == "size":
                    return len(x.items)
                raise NotUnderstood("attribute %s of a list" % name)
            return Meth(o, name)
        if isinstance(o, IndexV):
            if name in ("values", "array"):
                return o
            if name in ("size",):
                return self.num(o.length)
            if name == "shape":
                return (self.num(o.length),)
            if name == "name":
                return None
            if name in ("dtype", "is_unique", "is_monotonic_increasing", "start", "stop", "step", "is_monotonic",
                        "is_monotonic_decreasing", "has_duplicates", "hasnans", "inferred_type", "freq", "tz", "inferred_freq"):
                it.event("label", "inspects the labels (%s)" % name, st)
                if LABELS is not None and o.token == INPUT:
                    return self.label_attr(o, name)
                return Opaque("index." + name)
            return Meth(o, name)
        if isinstance(o, WinV) and name == "shape":
            n = it.get(st, o.arr).length
            return (self.num(n - o.w + 1), self.num(o.w))
        if isinstance(o, (Roll, Ewm, WinV, str, StrV, tuple, IterV, RangeV)):
            return Meth(o, name)
        if is_num(o):
            if name in ("real",):
                return o
            return Meth(o, name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.name
            return Opaque("function attribute " + name)
        if isinstance(o, DT):
            return Opaque("dtype attribute")
        if o is None:
            raise PyRaise("AttributeError", "None has no attribute " + name)
        if isinstance(o, Acc) and o.kind == "cols":
            return Meth(o, name)
        if isinstance(o, ExcV):
            return Opaque("exception attribute")
        raise NotUnderstood("attribute %s of %r" % (name, o))

    def num(self, p):
        from interp import from_e
        return from_e(leaf(Rat(p, ONE)), "int")

    def arr_attr(self, st, o, x, name):
        it = self.it
        if name == "values":
            if x.kind == "series":
                return it.new(st, Arr("ndarray", x.st, x.length))
            raise NotUnderstood("values of an array")
        if name == "array":
            return it.new(st, Arr("ndarray", x.st, x.length))
        if name == "hasnans" and x.kind == "series":
            na = self.m_isna(st, o, x, [], {})
            return self.m_anyall(st, na, "any")
        if name in ("T", "flat"):
            return o
        if name == "index":
            if x.kind == "list":
                return Meth(o, name)
            return IndexV(x.index, x.length, True if it.is_caller_object(st, o) else None)
        if name == "name":
            return x.name
        if name in ("iloc", "loc", "at", "iat"):
            return Acc(o, name)
        if name == "size":
            return self.f_builtins_len(st, [o], {})
        if name == "shape":
            return (self.num(x.length),)
        if name == "ndim":
            return 1
        if name == "empty":
            return it.binop(st, "==", self.num(x.length), 0)
        if name == "dtype":
            return DT(it.dtype(st, o))
        if name in ("hasnans",):
            return Opaque(name)
        if name == "str" or name == "dt":
            return Opaque("accessor " + name)
        return Meth(o, name)

    # ------------------------------------------------------------ items
    def getitem(self, st, o, k):
        from interp import PyRaise, is_num, LabelV
        it = self.it
        if isinstance(k, Opaque):
            return Opaque("item " + k.why)
        if isinstance(o, Acc):
            return self.acc_get(st, o, k)
        x = it.obj(st, o)
        if isinstance(x, Arr):
            if isinstance(k, SliceV):
                return self.slice(st, o, x, k)
            kx = it.obj(st, k)
            if isinstance(kx, Arr):
                if it.dtype(st, k) == "bool":
                    return self.compress(st, o, x, k)
                raise NotUnderstood("indexing by an array")
            if isinstance(k, tuple):
                if len(k) == 1:
                    return self.getitem(st, o, k[0])
                raise NotUnderstood("tuple index")
            if isinstance(k, LabelV):
                if k.token != x.index:
                    self.label_event(st, x, "selects by label")
                return it.read(st, o, k.pos)
            if isinstance(k, (str, StrV)):
                raise PyRaise("KeyError", "text label")
            p = it.poly(k)
            if x.kind == "series" and x.index != RANGE:
                self.label_event(st, x, "selects the row labelled %s" % X.show_idx(p))
                return it.read(st, o, self.label_pos(p, x.length, True), "label")
            if x.kind == "series" and it.decide(p) is not True:
                it.event("bound", "label below 0", st, need=p, exc="KeyError")
            return it.read(st, o, p)
        if isinstance(x, PyList):
            if isinstance(k, SliceV):
                from interp import cint
                return it.new(st, x.set(items=x.items[slice(cint(it, k.a), cint(it, k.b), cint(it, k.step))]))
            if isinstance(k, tuple) and x.kind == "nd2":
                r = self.getitem(st, o, k[0])
                return self.getitem(st, r, k[1]) if it.is_arr(st, r) else self.getitem(st, r, k[1])
            if x.kind == "rows2":
                if isinstance(k, tuple) and len(k) == 2:
                    r = x.items[int(it.poly(k[1]).cval())] if it.poly(k[1]).is_const() else None
                    if r is None:
                        raise NotUnderstood("column of a 2-d array")
                    if isinstance(k[0], SliceV):
                        return self.slice(st, r, it.get(st, r), k[0])
                    return it.read(st, r, it.poly(k[0]))
                p = it.poly(k)
                return it.new(st, PyList([it.read(st, r, p) for r in x.items]))
            p = it.poly(k)
            if p.is_const():
                try:
                    return x.items[int(p.cval())]
                except IndexError:
                    raise PyRaise("IndexError")
            a = self.list_arr(st, o)
            return it.read(st, a, p)
        if isinstance(x, PyDict):
            i = it.find(st, x.items, k)
            if i is None:
                raise PyRaise("KeyError", str(k))
            return x.items[i][1]
        if isinstance(x, DF):
            return self.df_get(st, o, x, k)
        if isinstance(o, IndexV):
            if isinstance(k, SliceV):
                a, b = self.slice_bounds(st, o.length, k)
                if a.is_zero() and b == o.length:
                    return o
                return IndexV(("part", o.token, repr(a)), b - a)
            p = it.poly(k)
            from interp import IndexLabel
            q = p if it.decide(p) is True else p + o.length
            it.bounds(st, p, o.length, "label position")
            return IndexLabel(o.token, q, st, it)
        if isinstance(o, str):
            if isinstance(k, SliceV):
                from interp import cint
                return o[slice(cint(it, k.a), cint(it, k.b), cint(it, k.step))]
            p = it.poly(k)
            return o[int(p.cval())]
        if isinstance(o, LibFn):
            return o          # typing subscript
        if isinstance(o, RangeV):
            p = it.poly(k)
            return self.num(o.a + p.scale(o.step))
        raise NotUnderstood("item of %r" % (o,))

    def label_event(self, st, x, what):
        if x.kind == "series" and x.index != RANGE:
            self.it.event("label", what, st)

    def clamp(self, st, p, n):
        """slice bound p clamped to 0..n."""
        it = self.it
        from interp import NeedSplit
        d = it.decide(p)
        if d is None:
            if self.rowdep(p):
                # max(p, 0)
                d = None
                if it.decide(-p - 1) is True:
                    d = False
                else:
                    p = X.imax([p, ZERO])
                    d = True
            else:
                raise NeedSplit(p)
        if d is False:
            p = p + n
            d = it.decide(p)
            if d is False:
                p = ZERO
            elif d is None:
                raise NeedSplit(p)
        if it.decide(n - p) is True:
            return p
        if it.decide(p - n) is True:
            return n
        if self.rowdep(p):
            return X.imin([p, n])
        raise NeedSplit(n - p)

    def rowdep(self, p):
        f = X._free_poly(p)
        if T.id in f:
            return True
        return any(l.isym.id in f for l in self.it.loops) or any(
            ATOMS[i].kind == "sym" and ATOMS[i].a[1] == "row" for i in f)

    def slice_bounds(self, st, n, k):
        it = self.it
        if k.step is not None:
            s = it.poly(k.step)
            if s != ONE:
                raise NotUnderstood("slice step")
        a = ZERO if k.a is None else self.clamp(st, it.poly(k.a), n)
        b = n if k.b is None else self.clamp(st, it.poly(k.b), n)
        d = it.decide(b - a)
        if d is not True:
            if self.rowdep(b - a):
                b = X.imax([a, b])
            else:
                from interp import NeedSplit
                if d is None:
                    raise NeedSplit(b - a)
                b = a
        return a, b

    def slice(self, st, o, x, k):
        it = self.it
        if k.step is not None:
            s = it.poly(k.step)
            if s == Poly.const(-1) and k.a is None and k.b is None:
                s0 = it.get(st, x.st)
                e = it.simp(X.subst(it.content(st, o), {T.id: x.length - 1 - TP}))
                tok = x.index[1] if isinstance(x.index, tuple) and x.index[:1] == ("rev",) else ("rev", x.index)
                return it.arr(st, e, x.length, x.kind, tok if x.kind == "series" else None, x.name, s0.dtype, s0.origin)
        for b in (k.a, k.b):
            from interp import LabelV
            if isinstance(b, LabelV):
                self.label_event(st, x, "slices by label")
                raise NotUnderstood("label slice")
        a, b = self.slice_bounds(st, x.length, k)
        s = it.get(st, x.st)
        if a.is_zero() and b == x.length and s.loop is None:
            r = it.new(st, Arr(x.kind, x.st, x.length, x.index, x.name))
            if x.kind == "list":
                r = it.arr(st, it.content(st, o), x.length, "list", None, None, s.dtype)
            return r
        if x.kind == "list":
            it.touch(st, b - a, "slice")
        if s.loop is not None:
            try:
                e = self.loop_slice(st, x, s, a, b)
            except NotUnderstood as ex:
                from interp import opq
                it.note(str(ex))
                e = opq(str(ex))
        else:
            e = X.shift_rows(it.content(st, o), -a)
        e = it.simp(e)
        tok = None
        if x.kind == "series":
            tok = x.index if a.is_zero() and b == x.length else self.part_token(x.index, a, b)
            if x.index == RANGE and a.is_zero():
                tok = RANGE
        r = it.arr(st, e, b - a, x.kind, tok, x.name, s.dtype, s.origin)
        if x.kind != "list":
            self.views[it.get(st, r).st.id] = x.st.id
        return r

    def loop_slice(self, st, x, s, a, b):
        """slice of an array inside the loop that fills it: only rows the loop has not reached or passed unchanged."""
        raise NotUnderstood("slice of an array inside the loop that fills it")

    def compress(self, st, o, x, k):
        it = self.it
        c = it.simp(self.cond(it.rowwise(st, k)))
        s = it.get(st, x.st)
        if c is X.LT:
            return it.new(st, Arr(x.kind, it.new(st, Stor(it.rowwise(st, o), None, s.dtype)), x.length, x.index, x.name))
        n = self.kept_rows(c, x.length)
        return it.new(st, Arr(x.kind, it.new(st, Stor(it.rowwise(st, o), None, s.dtype)), n, ("keep", x.index, c.id), x.name))

    def kept_rows(self, c, length):
        """how many rows a selection has (a symbol); remembers what it selects from."""
        it = self.it
        n = Poly.atom(X.sym("kept%d" % c.id, "int", 0))
        it.selections[c.id] = (c, it.selections[c.id][1] if c.id in it.selections else length)
        return n

    def part_token(self, base, a, b):
        tok = ("part", base, repr(a), repr(b))
        self.it.parts[tok] = (a, b)
        return tok

    def spread(self, st, r, base, length):
        """rows taken out of a series put back under the labels they came from; None when they came from elsewhere."""
        it = self.it
        x = it.get(st, r)
        chain, tok = [], x.index
        while tok != base:
            if is_kept(tok) and tok[2] in it.selections or tok in it.parts:
                chain.append(tok)
                tok = tok[1]
            else:
                return None
        e = it.rowwise(st, r)
        dt = it.dtype(st, r)
        if chain and dt == "bool":
            return None
        for tok in chain:
            if is_kept(tok):
                e = X.choose(it.selections[tok[2]][0], e, LNAN)
            else:
                a, b = it.parts[tok]
                e = X.row(TP - a, X.row(b - 1 - TP, X.shift_rows(e, a), LNAN), LNAN)
        it.touch(st, length, "reindex")
        return it.arr(st, it.simp(e), length, "series", base, x.name, "float" if chain else dt)

    def selection(self, tok):
        """condition and number of original rows behind a selection."""
        acc, n = LT, None
        while is_kept(tok):
            c, n = self.it.selections[tok[2]]
            acc = X.b_and(acc, c)
            tok = tok[1]
        return acc, n

    def reduce_kept(self, st, a, x, kind, skipna):
        from interp import from_e
        it = self.it
        c, n = self.selection(x.index)
        if any(q.v for q in X.leaves(c) if isinstance(q.v, bool)) is False and kind != "sum":
            return FNAN
        from interp import numify
        e = numify(it.rowwise(st, a))
        it.touch(st, n, kind)
        c = X.restrict_rows(c, [n - 1 - TP] + list(it.ctx))
        e = X.restrict_rows(e, [n - 1 - TP] + list(it.ctx))
        na = X.isna(e)
        if x.kind == "series" and skipna:
            c, e = X.b_and(c, X.b_not(na)), X.ite(na, L0, e)
        dt = it.dtype(st, a)
        tot = X.agg("sum", it.simp(X.ite(c, e, L0)), ZERO, n)
        cnt = X.agg("sum", it.simp(X.ite(c, L1, L0)), ZERO, n)
        if kind == "sum":
            return from_e(it.simp(tot), "int" if dt == "int" else "float")
        if kind == "mean":
            return from_e(it.simp(X.div(tot, cnt)), "float")
        if kind == "count":
            return from_e(it.simp(cnt), "int")
        raise NotUnderstood("%s of selected rows" % kind)

    def acc_get(self, st, acc, k):
        from interp import LabelV, is_num
        it = self.it
        o = acc.obj
        x = it.obj(st, o)
        if isinstance(x, DF):
            if isinstance(k, tuple) and len(k) == 2 and acc.kind in ("loc", "at") and isinstance(k[1], (str, StrV)):
                c = self.df_get(st, o, x, k[1])
                if isinstance(k[0], SliceV) and k[0].a is None and k[0].b is None:
                    return c
                return self.acc_get(st, Acc(c, acc.kind), k[0])
            if isinstance(k, tuple) and len(k) == 2 and acc.kind in ("iloc", "iat"):
                p = it.poly(k[1])
                if p.is_const():
                    c = x.cols[int(p.cval())][1]
                    return self.acc_get(st, Acc(c, acc.kind), k[0])
            if acc.kind == "loc":
                kx = it.obj(st, k)
                if isinstance(kx, Arr) and it.dtype(st, k) == "bool":
                    return self.df_filter(st, x, self.cond(it.rowwise(st, k)))
            if acc.kind == "iloc" and isinstance(k, SliceV):
                cols = [(n, self.slice(st, c, it.get(st, c), k)) for n, c in x.cols]
                c0 = it.get(st, cols[0][1])
                return it.new(st, DF(cols, c0.index, c0.length))
            if acc.kind == "iloc" and is_num(k) and x.cols:
                p = it.poly(k)
                return it.new(st, PyDict([(n, it.read(st, c, p, "row position")) for n, c in x.cols]))
            raise NotUnderstood("table row access")
        if acc.kind in ("iloc", "iat"):
            if isinstance(k, SliceV):
                return self.slice(st, o, x, k)
            if isinstance(it.obj(st, k), Arr):
                raise NotUnderstood("positions array")
            return it.read(st, o, it.poly(k), "row position")
        # label based
        kx = it.obj(st, k)
        if isinstance(kx, Arr) and it.dtype(st, k) == "bool":
            return self.compress(st, o, x, k)
        if isinstance(k, SliceV):
            if k.a is None and k.b is None:
                return o
            if x.index == RANGE:
                b = None if k.b is None else self.num(it.poly(k.b) + 1)
                return self.slice(st, o, x, SliceV(k.a, b, k.step))
            if not all(b is None or isinstance(b, LabelV) and b.token == x.index for b in (k.a, k.b)):
                self.label_event(st, x, "slices by label")
            a = k.a.pos if isinstance(k.a, LabelV) else (None if k.a is None else it.poly(k.a))
            b = k.b.pos if isinstance(k.b, LabelV) else (None if k.b is None else it.poly(k.b))
            return self.slice(st, o, x, SliceV(None if a is None else self.num(a), None if b is None else self.num(b + 1), None))
        if isinstance(k, LabelV):
            if k.token != x.index:
                self.label_event(st, x, "selects by label")
            return it.read(st, o, k.pos)
        if isinstance(k, (str, StrV)):
            raise NotUnderstood("text label")
        p = it.poly(k)
        self.label_event(st, x, "selects the row labelled %s" % X.show_idx(p))
        return it.read(st, o, self.label_pos(p, x.length, False), "label")

    def setitem(self, st, o, k, v):
        from interp import LabelV, PyRaise
        it = self.it
        if isinstance(k, Opaque):
            it.havoc_ref(st, o.obj if isinstance(o, Acc) else o, k.why)
            return
        if isinstance(o, Acc):
            return self.acc_set(st, o, k, v)
        x = it.obj(st, o)
        if isinstance(x, DF):
            return self.df_set(st, o, x, k, v)
        if isinstance(x, PyDict):
            it.put(st, o, x.set(items=it.keyed(st, x.items, k, v)))
            return
        if isinstance(x, PyList):
            p = it.poly(k)
            if p.is_const():
                items = list(x.items)
                try:
                    items[int(p.cval())] = v
                except IndexError:
                    raise PyRaise("IndexError")
                it.put(st, o, x.set(items=tuple(items)))
                return
            raise NotUnderstood("list item assignment")
        if isinstance(x, Arr):
            if isinstance(k, SliceV):
                return self.slice_set(st, o, x, k, v)
            if isinstance(it.obj(st, k), Arr) and it.dtype(st, k) == "bool":
                return self.mask_set(st, o, x, k, v)
            if isinstance(k, LabelV):
                if k.token != x.index:
                    self.label_event(st, x, "assigns by label")
                return self.put_row(st, o, k.pos, v)
            p = it.poly(k)
            if x.kind == "series" and x.index != RANGE:
                self.label_event(st, x, "assigns the row labelled %s" % X.show_idx(p))
            return self.put_row(st, o, p, v)
        raise NotUnderstood("item assignment to %r" % (o,))

    def put_row(self, st, o, p, v):
        from interp import is_num, opq
        it = self.it
        if v is None:
            v = FNAN
        if isinstance(v, Opaque):
            v = Num(opq(v.why), "float")
        if it.is_arr(st, v):
            a = it.get(st, v)
            if a.length.is_const() and a.length.cval() == 1:
                v = it.read(st, v, ZERO)
            else:
                raise PyRaise_("ValueError", "array assigned to one row")
        if not is_num(v):
            raise NotUnderstood("value assigned to a row")
        self.stale_views(st, it.get(st, o).st)
        self.put(st, o, p, v)

    def put(self, st, o, p, v):
        it = self.it
        sid = it.get(st, o).st.id
        if sid not in it.either:
            return it.write(st, o, p, v)
        # one of two arrays, by a condition: each is written where it is the one
        c, x, y = it.either[sid]
        for r, keep in ((x, False), (y, True)):
            old = it.read(st, r, p)
            self.stale_views(st, it.get(st, r).st)
            self.put(st, r, p, it.merge_val(c, old if keep else v, v if keep else old, st))

    def stale_views(self, st, stref):
        it = self.it
        if stref.id in self.views:
            raise NotUnderstood("write through a slice")
        for v, b in self.views.items():
            if b == stref.id and v in st.heap:
                from interp import opq
                st.heap[v] = st.heap[v].set(e=opq("slice of an array written later"))

    def mask_set(self, st, o, x, k, v):
        from interp import to_e, numify, ntype, is_num
        it = self.it
        it.mutated(st, o)
        self.stale_views(st, x.st)
        it.touch(st, x.length, "masked assignment")
        c = self.cond(it.content(st, k))
        a = it.obj(st, v)
        s = it.get(st, x.st)
        if isinstance(a, Arr):
            if a.kind != "series":
                if a.index != ("keep", None, c.id) and a.length != x.length:
                    raise NotUnderstood("masked assignment of an array")
            elif is_kept(a.index) and a.index != ("keep", x.index, c.id):
                raise NotUnderstood("masked assignment of selected rows")
            ve = it.rowwise(st, v)
            vt = it.dtype(st, v)
        elif is_num(v):
            ve, vt = to_e(v), ntype(v)
        elif v is None:
            ve, vt = LNAN, "float"
        else:
            raise NotUnderstood("masked assignment")
        ve = it.check_trunc(st, x, s, vt, ve)
        e = it.content(st, o)
        if s.dtype != "bool" or vt != "bool":
            e, ve = numify(e), numify(ve)
        dt = s.dtype if x.kind == "ndarray" else (s.dtype if s.dtype == vt else "float")
        st.heap[x.st.id] = s.set(e=it.simp(X.choose(c, ve, e)), dtype=dt)

    def slice_set(self, st, o, x, k, v):
        from interp import to_e, numify, ntype, is_num
        it = self.it
        it.mutated(st, o)
        self.stale_views(st, x.st)
        s = it.get(st, x.st)
        if s.loop is not None:
            raise NotUnderstood("slice assignment in a loop")
        a, b = self.slice_bounds(st, x.length, k)
        it.touch(st, b - a, "slice assignment")
        r = self.as_arr(st, v)
        if r is not None:
            ra = it.get(st, r)
            self.need_eq(st, ra.length, b - a, "slice assignment of a different length")
            ve, vt = X.shift_rows(it.content(st, r), a), it.dtype(st, r)
        elif is_num(v):
            ve, vt = to_e(v), ntype(v)
        elif v is None:
            ve, vt = LNAN, "float"
        else:
            raise NotUnderstood("slice assignment")
        ve = it.check_trunc(st, x, s, vt, ve)
        e = it.content(st, o)
        if s.dtype != "bool" or vt != "bool":
            e, ve = numify(e), numify(ve)
        new = X.row(TP - a, X.row(b - 1 - TP, ve, e), e)
        dt = s.dtype if x.kind == "ndarray" else (s.dtype if s.dtype == vt else "float")
        st.heap[x.st.id] = s.set(e=it.simp(new), dtype=dt)

    def acc_set(self, st, acc, k, v):
        from interp import LabelV
        it = self.it
        o = acc.obj
        x = it.obj(st, o)
        if isinstance(x, DF):
            if isinstance(k, tuple) and len(k) == 2 and acc.kind in ("loc", "at"):
                names = [k[1]] if isinstance(k[1], (str, StrV)) else it.concrete_items(st, k[1])
                if names is None:
                    raise NotUnderstood("column selection")
                for nme in names:
                    if isinstance(k[0], SliceV) and k[0].a is None and k[0].b is None:
                        self.df_set(st, o, it.get(st, o), nme, v)
                        continue
                    hit = [c for n, c in it.get(st, o).cols if n == nme]
                    if not hit:
                        raise NotUnderstood("partial assignment of a new column")
                    self.acc_set(st, Acc(hit[0], acc.kind), k[0], v)
                return
            raise NotUnderstood("table assignment")
        if acc.kind in ("iloc", "iat"):
            if isinstance(k, SliceV):
                return self.slice_set(st, o, x, k, v)
            if isinstance(it.obj(st, k), Arr) and it.dtype(st, k) == "bool":
                return self.mask_set(st, o, x, k, v)
            return self.put_row(st, o, it.poly(k), v)
        if isinstance(it.obj(st, k), Arr) and it.dtype(st, k) == "bool":
            return self.mask_set(st, o, x, k, v)
        if isinstance(k, SliceV):
            if k.a is None and k.b is None:
                return self.slice_set(st, o, x, k, v)
            if x.index == RANGE:
                b = None if k.b is None else self.num(it.poly(k.b) + 1)
                return self.slice_set(st, o, x, SliceV(k.a, b, k.step), v)
            self.label_event(st, x, "assigns a label range")
            raise NotUnderstood("label slice assignment")
        if isinstance(k, LabelV):
            if k.token != x.index:
                self.label_event(st, x, "assigns by label")
            return self.put_row(st, o, k.pos, v)
        p = it.poly(k)
        self.label_event(st, x, "assigns the row labelled %s" % X.show_idx(p))
        return self.put_row(st, o, p, v)

    # ------------------------------------------------------------ tables
    def df_get(self, st, o, x, k):
        from interp import PyRaise
        it = self.it
        if isinstance(k, (str, StrV)):
            for n, c in x.cols:
                if n == k:
                    it.event("colread", "reads column", st, col=k)
                    return c
            it.peek(st, x)
            it.event("missing_col", "reads column %r which the table does not have" % (k,), st, col=k)
            raise PyRaise("KeyError", str(k))
        kx = it.obj(st, k)
        if isinstance(kx, PyList):
            cols = []
            for n in kx.items:
                c = [c for m, c in x.cols if m == n]
                if not c:
                    raise PyRaise("KeyError", str(n))
                a = it.get(st, c[0])
                s = it.get(st, a.st)
                cols.append((n, it.new(st, a.set(st=it.new(st, s.set(origin=None))))))
            return it.new(st, DF(cols, x.index, x.length))
        if isinstance(kx, DF):
            cols = []
            mk = dict(kx.cols)
            for n, c in x.cols:
                if n not in mk:
                    cols.append((n, it.arr(st, LNAN, x.length, "series", x.index, n)))
                    continue
                cols.append((n, self.where_(st, c, mk[n], FNAN)))
            return it.new(st, DF(cols, x.index, x.length))
        if isinstance(kx, Arr) and it.dtype(st, k) == "bool":
            return self.df_filter(st, x, self.cond(it.rowwise(st, k)))
        raise NotUnderstood("table selection")

    def df_filter(self, st, x, cond):
        it = self.it
        tok = ("keep", x.index, cond.id)
        n = self.kept_rows(cond, x.length)
        cols = [(m, it.new(st, Arr("series", it.new(st, it.get(st, it.get(st, c).st).set(origin=None)), n, tok, m)))
                for m, c in x.cols]
        return it.new(st, DF(cols, tok, n))

    def df_set(self, st, o, x, k, v):
        from interp import is_num, to_e, ntype, opq
        it = self.it
        if isinstance(k, (str, StrV)):
            exists = any(n == k for n, _ in x.cols)
            it.event("colset", "sets column", st, col=k, exists=exists, df=o)
            a = it.obj(st, v)
            if isinstance(a, Arr):
                if a.kind == "series" and a.index != x.index and x.cols:
                    v2 = self.spread(st, v, x.index, x.length)
                    if v2 is not None:
                        v, a = v2, it.get(st, v2)
                if a.kind == "series" and a.index != x.index and x.cols:
                    it.event("misaligned", "a column labelled by %s is stored in a table labelled by %s" % (
                        self.tok_name(a.index), self.tok_name(x.index)), st)
                self.need_eq(st, a.length, x.length, "column of a different length")
                s = it.get(st, a.st)
                new = it.new(st, Arr("series", it.new(st, Stor(it.content(st, v), None, s.dtype)), x.length, x.index, k))
            elif is_num(v) or v is None:
                e = LNAN if v is None else to_e(v)
                new = it.arr(st, e, x.length, "series", x.index, k, "float" if v is None else ntype(v))
            elif isinstance(v, Opaque):
                new = it.arr(st, opq(v.why), x.length, "series", x.index, k)
            elif isinstance(a, PyList):
                return self.df_set(st, o, x, k, self.list_arr(st, v))
            else:
                raise NotUnderstood("column value")
            if exists:
                if x.origin:
                    it.event("mutate_col", "overwrites column %s of the caller's table" % (k,), st, col=k)
                cols = [(n, new if n == k else c) for n, c in x.cols]
            else:
                cols = list(x.cols) + [(k, new)]
            st.heap[o.id] = x.set(cols=tuple(cols))
            return
        kx = it.obj(st, k)
        if isinstance(kx, PyList):
            vx = it.obj(st, v)
            for j, n in enumerate(kx.items):
                if isinstance(vx, DF):
                    if len(vx.cols) != len(kx.items):
                        raise NotUnderstood("column count")
                    val = vx.cols[j][1]
                else:
                    val = v
                self.df_set(st, o, it.get(st, o), n, val)
            return
        if isinstance(kx, DF):
            mk = dict(kx.cols)
            for n, c in x.cols:
                if n in mk:
                    self.df_set(st, o, it.get(st, o), n, self.where_(st, c, mk[n], v, invert=True))
            return
        raise NotUnderstood("table assignment")

    def df_drop(self, st, ref, names):
        it = self.it
        x = it.get(st, ref)
        if x.origin:
            it.event("mutate", "drops columns of the caller's table", st)
        st.heap[ref.id] = x.set(cols=tuple((n, c) for n, c in x.cols if n not in names))

    def where_(self, st, c, cond, other, invert=False):
        def f(x, m, o):
            m = self.cond(m)
            return X.choose(m, o, x) if invert else X.choose(m, x, o)
        it = self.it
        dt = it.dtype(st, c) if it.is_arr(st, c) else "float"
        from interp import numify, boolish

        def g(x, m, o):
            if not (boolish(x) and boolish(o)):
                x, o = numify(x), numify(o)
            return f(x, m, o)
        from interp import ntype, is_num
        ot = it.dtype(st, other) if it.is_arr(st, other) else (ntype(other) if is_num(other) else "float")
        res = self.ew(st, g, (c, cond, other), dt if dt == ot else ("bool" if dt == ot == "bool" else "float"), "where",
                      numeric=False)
        return res

    def new_series_like(self, st, o, e, dtype=None):
        it = self.it
        x = it.get(st, o)
        return it.arr(st, it.simp(e), x.length, x.kind, x.index, x.name, dtype or "float")

    # ------------------------------------------------------------ calls
    def call(self, st, fn, args, kw):
        it = self.it
        if isinstance(fn, LibFn):
            return self.call_fn(st, fn.name, args, kw)
        if isinstance(fn, Meth):
            return self.call_meth(st, fn.obj, fn.name, args, kw)
        if isinstance(fn, DT):
            raise NotUnderstood("dtype call")
        if isinstance(fn, Acc):
            return fn
        from interp import PartialV
        if fn is None or isinstance(fn, (int, str, Fraction)):
            raise PyRaise_("TypeError", "not callable")
        raise NotUnderstood("call of %r" % (fn,))

    def call_fn(self, st, name, args, kw):
        for a in list(args) + list(kw.values()):
            pass
        top, _, rest = name.partition(".")
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is not None:
            return m(st, args, kw)
        if AMBIENT is not None and name in AMBIENT_FN:
            return self.ambient_call(name)
        if top == "builtins":
            from interp import PyRaise
            if rest in EXC:
                return ExcV(rest, tuple(args))
            if rest in ("hash", "open", "input", "exec", "eval"):
                self.it.event("impure", "calls %s()" % rest, st)
                return Opaque(rest)
            raise NotUnderstood("builtin " + rest)
        if top == "numpy":
            return self.call_np(st, rest, args, kw)
        if top == "math":
            return self.call_math(st, rest, args, kw)
        if top == "warnings" or top == "logging":
            return Opaque(name) if rest in ("catch_warnings", "getLogger") else None
        if top == "functools":
            if rest == "partial":
                from interp import PartialV
                return PartialV(args[0], tuple(args[1:]), dict(kw))
            if rest in ("lru_cache", "cache"):
                self.it.event("cache", "results are cached across calls", st)
                return LibFn("functools.cache")
            if rest == "wraps":
                return LibFn("builtins.identity")
        if top == "operator":
            op = SBIN.get(rest) or {"and_": "&", "or_": "|"}.get(rest)
            if op:
                return self.it.binop(st, op, args[0], args[1])
            if rest in ("neg", "abs"):
                return self.it.map1(st, args[0], X.neg, "neg") if rest == "neg" else self.f_builtins_abs(st, args, kw)
        if top == "itertools":
            if rest == "chain":
                out = []
                for a in args:
                    c = self.it.concrete_items(st, a)
                    if c is None:
                        raise NotUnderstood("chain over rows")
                    out += c
                return self.it.new(st, PyList(out))
            if rest in ("product",):
                import itertools
                cs = [self.it.concrete_items(st, a) for a in args]
                if any(c is None for c in cs):
                    raise NotUnderstood("product over rows")
                return self.it.new(st, PyList(list(itertools.product(*cs))))
        if top == "collections":
            if rest == "OrderedDict":
                return self.f_builtins_dict(st, args, kw)
            if rest == "deque":
                raise NotUnderstood("deque")
        if top == "copy":
            if rest in ("copy", "deepcopy"):
                return self.call_meth(st, args[0], "copy", [], {})
        if top == "statistics":
            raise NotUnderstood(name)
        if top == "pandas":
            raise NotUnderstood(name)
        if top == "typing":
            if rest == "cast":
                return args[1]
            return LibFn("typing.Any")
        raise NotUnderstood("call of " + name)

    # ------------------------------------------------------------ builtins
    def f_builtins_identity(self, st, args, kw):
        return args[0]

    def f_builtins_object_init(self, st, args, kw):
        return None

    def f_builtins_len(self, st, args, kw):
        it = self.it
        v = args[0]
        if isinstance(v, Opaque):
            return v
        if isinstance(v, WinV):
            return self.num(it.get(st, v.arr).length - v.w + 1)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, IndexV):
            return self.num(v.length)
        if isinstance(v, RangeV):
            d = v.b - v.a
            return self.num(X.imax([d, ZERO])) if it.decide(d) is not True else self.num(d)
        o = it.obj(st, v)
        if isinstance(o, Arr):
            if is_kept(o.index):
                return self.reduce_kept(st, self.it.arr(st, L1, o.length, "ndarray", o.index, None, "int"), o.set(kind="ndarray"),
                                        "count", False)
            return self.num(o.length)
        if isinstance(o, (PyList, PyDict)):
            if isinstance(o, PyList) and o.kind == "rows2" and o.items:
                return self.num(it.get(st, o.items[0]).length)
            return len(o.items)
        if isinstance(o, DF):
            return self.num(o.length)
        if isinstance(o, Inst):
            return it.call(st, it.getattr(st, v, "__len__"), [], {})
        raise NotUnderstood("len")

    def f_builtins_range(self, st, args, kw):
        ps = [self.P(a) for a in args]
        step = 1
        if len(ps) == 1:
            a, b = ZERO, ps[0]
        else:
            a, b = ps[0], ps[1]
            if len(ps) == 3:
                if not ps[2].is_const() or ps[2].cval() == 0:
                    raise NotUnderstood("symbolic range step")
                step = int(ps[2].cval())
        return RangeV(a, b, step)

    def f_builtins_enumerate(self, st, args, kw):
        return IterV("enumerate", list(args) + list(kw.values()))

    def f_builtins_zip(self, st, args, kw):
        return IterV("zip", list(args))

    def f_builtins_reversed(self, st, args, kw):
        return IterV("reversed", list(args))

    def f_builtins_map(self, st, args, kw):
        if len(args) != 2:
            return IterV("map", [args[0], IterV("zip", args[1:])]) if False else self._map_many(st, args)
        return IterV("map", list(args))

    def _map_many(self, st, args):
        return IterV("starmap", [args[0], IterV("zip", list(args[1:]))])

    def first_rest(self, st, v):
        """first item and the remaining ones of an iterable; None when it is empty."""
        it = self.it
        items = it.concrete_items(st, v)
        if items is not None:
            return (items[0], it.new(st, PyList(items[1:]))) if items else None
        n, f = it.iter_len(st, v)
        if f is None:
            return (n[0], it.new(st, PyList(n[1:]))) if n else None
        d = it.decide(n - 1)
        if d is None:
            from interp import NeedSplit
            raise NeedSplit(n - 1)
        return (f(st, ZERO), IterV("skip", [v, 1])) if d else None

    def f_itertools_accumulate(self, st, args, kw):
        it = self.it
        b = bindargs("accumulate", ("iterable", "func"), args, kw, func=None, initial=None)
        a = self.as_arr(st, b["iterable"])
        if a is not None and b["func"] is None and b["initial"] is None:
            if it.is_rows(it.get(st, a).length):
                it.event("perrow", "itertools.accumulate over the rows", st)
            return self.m_cumsum(st, a, it.get(st, a), [], {})
        f = b["func"] if b["func"] is not None else LibFn("operator.add")
        if b["initial"] is not None:
            return it.prelude(st, "accumulate", [b["initial"], b["iterable"], f])
        fr = self.first_rest(st, b["iterable"])
        if fr is None:
            return it.new(st, PyList(()))
        return it.prelude(st, "accumulate", [fr[0], fr[1], f])

    def f_functools_reduce(self, st, args, kw):
        it = self.it
        if len(args) > 2:
            return it.prelude(st, "reduce", [args[2], args[1], args[0]])
        fr = self.first_rest(st, args[1])
        if fr is None:
            from interp import PyRaise
            raise PyRaise("TypeError", "reduce() of empty iterable with no initial value")
        return it.prelude(st, "reduce", [fr[0], fr[1], args[0]])

    def f_itertools_starmap(self, st, args, kw):
        return IterV("starmap", list(args))

    def f_itertools_islice(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[0])
        if items is not None and all(isinstance(a, int) or a is None for a in args[1:]):
            import itertools
            return it.new(st, PyList(list(itertools.islice(items, *args[1:]))))
        if len(args) == 3 and args[2] is None and isinstance(args[1], int):
            return IterV("skip", [args[0], args[1]])
        raise NotUnderstood("islice over rows")

    def f_itertools_pairwise(self, st, args, kw):
        return IterV("zip", [args[0], IterV("skip", [args[0], 1])])

    def f_itertools_repeat(self, st, args, kw):
        if len(args) == 2 and isinstance(args[1], int):
            return self.it.new(st, PyList([args[0]] * args[1]))
        raise NotUnderstood("endless repeat")

    def f_builtins_locals(self, st, args, kw):
        it = self.it
        f = it.get(st, it.frames[-1])
        return it.new(st, PyDict([(k, v) for k, v in f.vars.items() if not k.startswith("__")]))

    def f_builtins_globals(self, st, args, kw):
        it = self.it
        m = it.modcache.get(it.get(st, it.frames[-1]).module)
        if m is None:
            raise NotUnderstood("globals()")
        r = it.new(st, PyDict(list(it.get(st, m).vars.items())))
        it.namespaces.add(r.id)
        return r

    def f_builtins_vars(self, st, args, kw):
        it = self.it
        if not args:
            return self.f_builtins_locals(st, args, kw)
        o = it.obj(st, args[0])
        if not isinstance(o, Inst):
            raise NotUnderstood("vars()")
        r = it.new(st, PyDict(list(o.attrs.items())))
        it.namespaces.add(r.id)
        return r

    def f_builtins_iter(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[0]) if len(args) == 1 else None
        if items is None:
            raise NotUnderstood("iter over rows")
        return it.new(st, PyList(items))

    def f_builtins_next(self, st, args, kw):
        from interp import PyRaise
        it = self.it
        o = it.obj(st, args[0])
        if not isinstance(o, PyList):
            raise NotUnderstood("next of rows")
        if not o.items:
            if len(args) > 1:
                return args[1]
            raise PyRaise("StopIteration", "")
        it.put(st, args[0], o.set(items=tuple(o.items[1:])))
        return o.items[0]

    def numeric_kind(self, st, v, kinds):
        o = self.it.obj(st, v)
        if isinstance(o, Arr):
            d = self.it.dtype(st, v)
            if d in ("float", "int", "num", "bool", "obj", "str"):
                return d in kinds
        return Opaque("dtype test")

    def f_pandas_api_types_is_numeric_dtype(self, st, args, kw):
        return self.numeric_kind(st, args[0], ("float", "int", "num", "bool"))

    def f_pandas_api_types_is_bool_dtype(self, st, args, kw):
        return self.numeric_kind(st, args[0], ("bool",))

    def f_pandas_api_types_is_float_dtype(self, st, args, kw):
        return self.numeric_kind(st, args[0], ("float",))

    def f_pandas_api_types_is_integer_dtype(self, st, args, kw):
        return self.numeric_kind(st, args[0], ("int",))

    def f_pandas_api_types_is_object_dtype(self, st, args, kw):
        return self.numeric_kind(st, args[0], ("obj", "str"))

    def minmax(self, st, args, kw, ismax):
        from interp import is_num, to_e, from_e, ntype, numify
        it = self.it
        if kw.get("key") is not None:
            raise NotUnderstood("min/max with key")
        if len(args) == 1:
            items = it.concrete_items(st, args[0])
            if items is None:
                a = self.as_arr(st, args[0])
                if a is None:
                    raise NotUnderstood("min/max")
                x = it.get(st, a)
                it.event("perrow", "built-in %s over the rows" % ("max" if ismax else "min"), st) \
                    if it.is_rows(x.length) else None
                return self.reduce(st, a, "max" if ismax else "min", skipna=False)
        else:
            items = list(args)
        if not items:
            raise PyRaise_("ValueError", "min/max of nothing")
        if any(isinstance(x, Opaque) for x in items):
            return Opaque("min/max of unknown")
        if not all(is_num(x) for x in items):
            raise NotUnderstood("min/max of non-numbers")
        if not any(isinstance(x, (Num, SpecialFloat)) for x in items):
            return max(items) if ismax else min(items)
        acc = items[0]
        for y in items[1:]:
            # integers: keep as polynomial extremum when possible
            ea, ey = numify(to_e(acc)), numify(to_e(y))
            t = "int" if ntype(acc) != "float" and ntype(y) != "float" else "float"
            if t == "int" and ea.leaf and ey.leaf and isinstance(ea.v, Rat) and isinstance(ey.v, Rat) and \
                    X.is_int_poly(ea.v.n) and X.is_int_poly(ey.v.n) and ea.v.d == ONE and ey.v.d == ONE:
                d = it.decide(ea.v.n - ey.v.n)
                if d is not None:
                    acc = acc if d == ismax else y
                    continue
                if it.decide(ey.v.n - ea.v.n) is True:
                    acc = y if ismax else acc
                    continue
                p = (X.imax if ismax else X.imin)([ea.v.n, ey.v.n])
                acc = self.num(p)
                continue
            c = X.compare(">" if ismax else "<", ey, ea)
            acc = from_e(it.simp(X.ite(c, ey, ea)), t)
        return acc

    def f_builtins_max(self, st, args, kw):
        return self.minmax(st, args, kw, True)

    def f_builtins_min(self, st, args, kw):
        return self.minmax(st, args, kw, False)

    def f_builtins_abs(self, st, args, kw):
        from interp import numify
        v = args[0]
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return abs(v)
        if v is FNINF or v is FINF:
            return FINF
        return self.it.map1(st, v, lambda e: X.absval(numify(e)), "abs")

    def f_builtins_sum(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[0])
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        if items is not None:
            acc = start
            for x in items:
                acc = it.binop(st, "+", acc, x)
            return acc
        a = self.as_arr(st, args[0])
        if a is None and isinstance(args[0], IterV):
            raise NotUnderstood("sum of an iterator")
        if a is None:
            raise NotUnderstood("sum")
        x = it.get(st, a)
        if it.is_rows(x.length):
            it.event("perrow", "built-in sum over the rows", st)
        r = self.reduce(st, a, "sum", skipna=False)
        return it.binop(st, "+", start, r) if start != 0 else r

    def f_builtins_int(self, st, args, kw):
        from interp import from_e, to_e, is_num, numify
        it = self.it
        v = args[0] if args else 0
        if isinstance(v, Opaque):
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise_("ValueError", "int of text")
        if isinstance(v, SpecialFloat):
            raise PyRaise_("ValueError", "int of nan")
        if isinstance(v, Num):
            if v.t == "int":
                return v
            if v.t == "bool":
                return from_e(numify(v.e), "int")
            return from_e(it.simp(self.trunc_e(v.e)), "int")
        if it.is_arr(st, v):
            a = it.get(st, v)
            if a.length.is_const() and a.length.cval() == 1:
                return self.f_builtins_int(st, [it.read(st, v, ZERO)], {})
        raise NotUnderstood("int()")

    def trunc_e(self, e):
        def f(v):
            if v is X.NAN or v is X.INF:
                return leaf(v)
            v = X.num(v)
            if X.is_int_poly(v.n) and v.d.is_const():
                if v.d == ONE and all(c.denominator == 1 for c in v.n.d.values()):
                    return leaf(v)
                lo = X.lower(v.n.scale(1 / v.d.cval()))
                if lo is not None and lo >= 0:
                    return X.fn1("floor", leaf(v))
                fl = X.fn1("floor", leaf(v))
                ce = X.neg(X.fn1("floor", X.neg(leaf(v))))
                if v.d.is_const():
                    return X.row(X.norm_row(v.n.scale(1 / v.d.cval())), fl, ce)
            return leaf(X._fn("trunc", v))
        return X.lift("trunc", f, e)

    def f_builtins_float(self, st, args, kw):
        from interp import numify, from_e
        it = self.it
        v = args[0] if args else 0
        if isinstance(v, Opaque):
            return v
        if isinstance(v, str):
            t = v.strip().lower()
            if t in ("nan",):
                return FNAN
            if t in ("inf", "infinity", "+inf"):
                return FINF
            if t == "-inf":
                return FNINF
            try:
                return Fraction(t)
            except ValueError:
                raise PyRaise_("ValueError", "float of text")
        if isinstance(v, (bool, int, Fraction)):
            return Fraction(v)
        if isinstance(v, SpecialFloat):
            return v
        if isinstance(v, Num):
            return Num(numify(v.e), "float")
        if it.is_arr(st, v):
            a = it.get(st, v)
            if a.length.is_const() and a.length.cval() == 1:
                return self.f_builtins_float(st, [it.read(st, v, ZERO)], {})
        raise NotUnderstood("float()")

    def f_builtins_bool(self, st, args, kw):
        from interp import from_e
        c = self.it.truth(st, args[0]) if args else False
        if isinstance(c, bool):
            return c
        return from_e(c, "bool")

    def f_builtins_str(self, st, args, kw):
        return self.it.to_str(args[0]) if args else ""

    def f_builtins_repr(self, st, args, kw):
        return self.it.to_str(args[0])

    def f_builtins_round(self, st, args, kw):
        from interp import is_num
        it = self.it
        v = args[0]
        nd = args[1] if len(args) > 1 else kw.get("ndigits")
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if isinstance(v, Fraction):
            return round(v) if nd is None else Fraction(round(v, int(nd)))
        if isinstance(v, Num) and v.t == "int":
            return v
        if nd is None and isinstance(v, Num):
            r = self.round_e(it.simp(v.e))
            if r is not None:
                return Num(it.simp(r), "int")
        k = 0 if nd is None else nd
        return it.map1(st, v, lambda e: self.opaque_fn("round%s" % k, e), "round")

    def round_e(self, e):
        """the nearest integer, halves to the even one; None unless e is an integer form over a constant."""
        if not e.leaf or not isinstance(e.v, Rat) or not e.v.d.is_const() or not X.is_int_poly(e.v.n):
            return None
        p = e.v.n.scale(1 / e.v.d.cval())
        d = 1
        for c in p.d.values():
            d = d * c.denominator // math.gcd(d, c.denominator)
        f = X.fn1("floor", leaf(Rat(p + Fraction(1, 2), ONE)))
        if not f.leaf or not X.is_int_poly(f.v.n):
            return None
        gap = (p + Fraction(1, 2) - f.v.n).scale(d)             # 0 exactly for halves
        return X.row(X.norm_row(-gap), X.mul(X.const(2), X.fn1("floor", X.div(f, X.const(2)))), f)

    def opaque_fn(self, name, e):
        def f(v):
            if v is X.NAN or v is X.INF:
                return leaf(v)
            return leaf(X._fn(name, X.num(v)))
        return X.lift("fn:" + name, f, e)

    def f_builtins_list(self, st, args, kw):
        it = self.it
        if not args:
            return it.new(st, PyList(()))
        v = args[0]
        items = it.concrete_items(st, v)
        if items is not None:
            return it.new(st, PyList(items))
        a = self.as_arr(st, v)
        if a is not None:
            x = it.get(st, a)
            it.touch(st, x.length, "list()")
            return it.arr(st, it.content(st, a), x.length, "list", None, None, it.dtype(st, a))
        return it.prelude(st, "to_list", [v])

    def f_builtins_tuple(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[0]) if args else []
        if items is None:
            return self.f_builtins_list(st, args, kw)
        return tuple(items)

    def f_builtins_set(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[0]) if args else []
        if items is None:
            raise NotUnderstood("set of rows")
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        return it.new(st, PyList(out, "set"))

    f_builtins_frozenset = f_builtins_set

    def at_most(self, a, b, flip=False):
        """is a <= b for two integer forms?  splits the parameter space."""
        from interp import NeedSplit
        p = self.it.poly(b) - self.it.poly(a)
        if flip:
            p = -p
        r = self.it.decide(p)
        if r is None:
            if X.T.id in p.atoms() or any(l.isym.id in p.atoms() for l in self.it.loops):
                raise NotUnderstood("order depends on the row")
            raise NeedSplit(p)
        return r

    def f_builtins_sorted(self, st, args, kw):
        from interp import is_num
        it = self.it
        items = it.concrete_items(st, args[0])
        if items is not None and kw.get("key") is None and kw.get("reverse", False) in (True, False) and \
                all(is_num(x) for x in items) and any(isinstance(x, Num) for x in items):
            out = []
            for x in items:
                j = len(out)
                while j and not self.at_most(out[j - 1], x, kw.get("reverse", False)):
                    j -= 1
                out.insert(j, x)
            return it.new(st, PyList(out))
        if items is None or kw.get("key") is not None or any(isinstance(x, (Num, Opaque, StrV, Ref)) for x in items):
            raise NotUnderstood("sorted")
        return it.new(st, PyList(sorted(items, reverse=bool(kw.get("reverse", False)))))

    def f_builtins_dict(self, st, args, kw):
        it = self.it
        items = []
        if args:
            o = it.obj(st, args[0])
            if isinstance(o, PyDict):
                items = list(o.items)
            else:
                c = it.concrete_items(st, args[0])
                if c is None:
                    raise NotUnderstood("dict()")
                for p in c:
                    k, v = it.concrete_items(st, p)
                    items.append((k, v))
        for k, v in kw.items():
            items = it.keyed(st, items, k, v)
        return it.new(st, PyDict(items))

    def f_builtins_isinstance(self, st, args, kw):
        it = self.it
        v, t = args
        ts = t if isinstance(t, tuple) else (t,)
        res = False
        for c in ts:
            r = self.isinst(st, v, c)
            if r is True:
                return True
            if r is None:
                res = None
        return Opaque("isinstance") if res is None else False

    def isinst(self, st, v, c):
        from interp import is_num
        it = self.it
        if isinstance(v, Opaque):
            return None
        if isinstance(c, Ref):
            o = it.obj(st, v)
            if isinstance(o, Inst):
                def sub(k):
                    if k == c:
                        return True
                    return any(isinstance(b, Ref) and sub(b) for b in it.get(st, k).bases)
                return sub(o.cls) if o.cls is not None else None
            return False
        if not isinstance(c, LibFn):
            return None
        n = c.name
        if n == "builtins.object":
            return True
        if isinstance(v, bool) or (isinstance(v, Num) and v.t == "bool"):
            return n in ("builtins.bool", "builtins.int", "numpy.bool_", "numbers.Number")
        if isinstance(v, int) or (isinstance(v, Num) and v.t == "int"):
            return n in ("builtins.int", "numpy.integer", "numpy.number", "numbers.Number", "numbers.Integral",
                         "numbers.Real", "numpy.int64") if not n.startswith("numpy") else (None if isinstance(v, Num) else False)
        if isinstance(v, (Fraction, SpecialFloat)) or isinstance(v, Num):
            if n in ("builtins.float", "numbers.Number", "numbers.Real"):
                return True
            if n.startswith("numpy."):
                return None if isinstance(v, Num) else False
            return False
        if isinstance(v, (str, StrV)):
            return n == "builtins.str"
        if isinstance(v, tuple):
            return n == "builtins.tuple"
        if v is None:
            return False
        o = it.obj(st, v)
        if isinstance(o, Arr):
            return {"series": "pandas.Series", "ndarray": "numpy.ndarray", "list": "builtins.list"}.get(o.kind) == n
        if isinstance(o, DF):
            return n == "pandas.DataFrame"
        if isinstance(o, PyList):
            return n == "builtins." + o.kind
        if isinstance(o, PyDict):
            return n == "builtins.dict"
        if isinstance(v, IndexV):
            if n in ("pandas.Index",):
                return True
            it.event("label", "inspects the type of the labels", st)
            if LABELS is not None and v.token == INPUT:
                return self.label_isinstance(n)
            return None
        return None

    def f_builtins_getattr(self, st, args, kw):
        from interp import PyRaise
        if not isinstance(args[1], str):
            raise NotUnderstood("getattr with a computed name")
        try:
            return self.it.getattr(st, args[0], args[1])
        except PyRaise:
            if len(args) > 2:
                return args[2]
            raise

    def f_builtins_setattr(self, st, args, kw):
        if not isinstance(args[1], str):
            raise NotUnderstood("setattr with a computed name")
        self.it.setattr(st, args[0], args[1], args[2])

    def f_builtins_hasattr(self, st, args, kw):
        from interp import PyRaise
        o = self.it.obj(st, args[0])
        if isinstance(o, Inst):
            try:
                self.it.getattr(st, args[0], args[1])
                return True
            except PyRaise:
                return False
        return Opaque("hasattr")

    def f_builtins_print(self, st, args, kw):
        return None

    def f_builtins_type(self, st, args, kw):
        o = self.it.obj(st, args[0])
        if isinstance(o, Inst):
            return o.cls
        return Opaque("type()")

    def anyall(self, st, args, isany):
        from interp import from_e
        it = self.it
        items = it.concrete_items(st, args[0])
        if items is None:
            return Opaque("any/all over rows")
        acc = LF if isany else LT
        for x in items:
            c = it.truth(st, x)
            c = (LT if c else LF) if isinstance(c, bool) else c
            acc = X.b_or(acc, c) if isany else X.b_and(acc, c)
        return from_e(it.simp(acc), "bool")

    def f_builtins_any(self, st, args, kw):
        return self.anyall(st, args, True)

    def f_builtins_all(self, st, args, kw):
        return self.anyall(st, args, False)

    def f_builtins_callable(self, st, args, kw):
        return isinstance(args[0], (Func, LibFn, Meth)) or Opaque("callable")

    def f_builtins_pow(self, st, args, kw):
        return self.it.binop(st, "**", args[0], args[1])

    def f_builtins_divmod(self, st, args, kw):
        return (self.it.binop(st, "//", args[0], args[1]), self.it.binop(st, "%", args[0], args[1]))

    def f_builtins_slice(self, st, args, kw):
        a = list(args)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def f_builtins_filter(self, st, args, kw):
        it = self.it
        items = it.concrete_items(st, args[1])
        if items is None:
            raise NotUnderstood("filter over rows")
        out = []
        for x in items:
            c = it.truth(st, x if args[0] is None else it.call(st, args[0], [x], {}))
            if not isinstance(c, bool):
                raise NotUnderstood("filter")
            if c:
                out.append(x)
        return it.new(st, PyList(out))

    def f_builtins_object(self, st, args, kw):
        return Opaque("object()")

    # ------------------------------------------------------------ math
    def call_math(self, st, name, args, kw):
        from interp import is_num
        it = self.it
        v = args[0]
        if isinstance(v, Opaque):
            return v
        if name in ("fabs",):
            return self.f_builtins_abs(st, args, kw)
        if name in ("isnan",):
            return self.isna(st, v)
        if name == "isfinite":
            return self.np_isfinite(st, v)
        if name == "isinf":
            return self.np_isinf(st, v)
        if name == "floor":
            return self.f_builtins_int_floor(st, v)
        if name == "ceil":
            n = it.binop(st, "*", v, -1)
            return it.binop(st, "*", self.f_builtins_int_floor(st, n), -1)
        if name == "trunc":
            return self.f_builtins_int(st, [v], {})
        if name == "pow":
            return it.binop(st, "**", it.binop(st, "*", args[0], Fraction(1)), args[1])
        if name == "fsum":
            return self.f_builtins_sum(st, args, kw)
        if name == "isclose":
            raise NotUnderstood("isclose")
        if name == "log" and len(args) > 1:
            raise NotUnderstood("log base")
        if name in NP1:
            return self.np1(st, name, v)
        if name == "copysign":
            raise NotUnderstood(name)
        raise NotUnderstood("math." + name)

    def f_builtins_int_floor(self, st, v):
        from interp import from_e, to_e
        if isinstance(v, (int, Fraction)):
            return int(v // 1)
        if isinstance(v, Num):
            return from_e(self.it.simp(X.fn1("floor", v.e)), "int")
        raise NotUnderstood("floor")

    def np1(self, st, name, v):
        from interp import numify
        if name in ("sqrt", "log", "exp", "floor"):
            f = lambda e: X.fn1(name, numify(e))
        elif name == "log1p":
            f = lambda e: X.fn1("log", X.add(numify(e), L1))
        elif name == "expm1":
            f = lambda e: X.sub(X.fn1("exp", numify(e)), L1)
        elif name == "ceil":
            f = lambda e: X.neg(X.fn1("floor", X.neg(numify(e))))
        else:
            f = lambda e: self.opaque_fn(name, numify(e))
        if isinstance(v, (int, Fraction)):
            from interp import from_e
            return from_e(f(X.const(v)), "float")
        a = self.as_arr(st, v)
        return self.it.map1(st, a if a is not None else v, f, name, "float")

    def isna(self, st, v):
        from interp import is_num, from_e, to_e
        if v is None:
            return True
        if is_num(v):
            if not isinstance(v, (Num, SpecialFloat)):
                return False
            return from_e(self.it.simp(X.isna(to_e(v))), "bool")
        a = self.as_arr(st, v)
        return self.it.map1(st, a if a is not None else v, X.isna, "isna", "bool")

    def isinf_e(self, e):
        def f(v):
            if v is X.INF:
                return LT
            if v is X.NAN or isinstance(v, bool):
                return LF
            if not X.rat_risky(v):
                return LF
            # missing after cleaning although not missing before
            c = X.isna(X.clean(leaf(v)))
            return X.b_and(c, X.b_not(X.isna(leaf(v))))
        return X.lift("isinf", f, e)

    def np_isinf(self, st, v):
        from interp import is_num
        if is_num(v) and not isinstance(v, (Num, SpecialFloat)):
            return False
        if isinstance(v, SpecialFloat):
            return v is not FNAN
        return self.it.map1(st, v, self.isinf_e, "isinf", "bool")

    def np_isfinite(self, st, v):
        from interp import is_num
        if is_num(v) and not isinstance(v, (Num, SpecialFloat)):
            return True
        if isinstance(v, SpecialFloat):
            return False
        return self.it.map1(st, v, lambda e: X.b_not(X.isna(X.clean(e))), "isfinite", "bool")

    # ------------------------------------------------------------ numpy
    def dtype_of(self, v, default="float"):
        if v is None:
            return default
        if isinstance(v, LibFn):
            n = v.name.split(".")[-1]
        elif isinstance(v, str):
            n = v
        elif isinstance(v, DT):
            return v.n
        else:
            raise NotUnderstood("dtype")
        n = n.lower()
        if n.startswith("float") or n in ("double", "number", "f8", "f4", "single", "half"):
            if n in ("float32", "float16", "f4", "single", "half"):
                self.it.event("lowprec", "single precision", None)
            return "float"
        if n.startswith(("int", "uint")) or n in ("i8", "integer"):
            return "int"
        if n.startswith("bool"):
            return "bool"
        if n in ("object", "str", "o"):
            return "obj"
        raise NotUnderstood("dtype " + n)

    def shape1(self, st, v):
        it = self.it
        if isinstance(v, tuple):
            if len(v) == 1:
                v = v[0]
            else:
                raise NotUnderstood("2-d array")
        return it.poly(v)

    def fill(self, st, n, e, dtype, what):
        it = self.it
        if it.decide(n) is not True:
            it.event("bound", "negative array size in " + what, st, need=n, exc="ValueError")
        it.touch(st, n, what)
        return it.arr(st, e, n, "ndarray", None, None, dtype)

    def call_np(self, st, name, args, kw):
        from interp import is_num, to_e, from_e, numify, ntype, opq
        it = self.it
        if len(args) == 3 and name in ("maximum", "minimum", "fmax", "fmin") or \
                len(args) == 2 and name in NP1 + ("abs", "absolute", "fabs", "negative", "square", "sign", "reciprocal", "isnan"):
            kw, args = dict(kw, out=args[-1]), args[:-1]
        if name.endswith(".at") and args and it.is_arr(st, args[0]):
            it.mutated(st, args[0])
            raise NotUnderstood("np." + name)
        if name in ("expand_dims", "atleast_2d", "reshape", "broadcast_to") and args and it.is_arr(st, args[0]):
            return self.m_reshape(st, args[0], it.get(st, args[0]), args[1:], kw) if name == "reshape" else AliasV(name, args[0])
        if kw.get("out") is not None and name not in NPBIN:
            return self.np_out(st, name, args, kw)
        if name in ("copyto", "putmask", "place"):
            return self.np_put(st, name, args, kw)
        if name in ("zeros", "ones", "empty"):
            b = bindargs(name, ("shape", "dtype"), args, kw, dtype=None, order=None)
            e = {"zeros": L0, "ones": L1}.get(name)
            dt = self.dtype_of(b["dtype"])
            if name == "empty":
                e = leaf(Rat.atom(X.mk_atom("opq", "empty", "uninitialised")))
            if dt == "bool":
                e = LT if name == "ones" else LF
            return self.fill(st, self.shape1(st, b["shape"]), e, dt, name)
        if name == "full":
            b = bindargs(name, ("shape", "fill_value", "dtype"), args, kw, dtype=None)
            v = b["fill_value"]
            if isinstance(v, Opaque):
                v = Num(opq(v.why), "float")
            if not is_num(v):
                raise NotUnderstood("np.full value")
            return self.fill(st, self.shape1(st, b["shape"]), to_e(v), self.dtype_of(b["dtype"], ntype(v)), name)
        if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
            names = ("a", "fill_value", "dtype") if name == "full_like" else ("a", "dtype")
            b = bindargs(name, names, args, kw, dtype=None, fill_value=None, order=None, subok=True, shape=None)
            a = self.as_arr(st, b["a"])
            if a is None:
                raise NotUnderstood(name)
            x = it.get(st, a)
            dt = self.dtype_of(b["dtype"], it.dtype(st, a))
            if name == "full_like":
                v = b["fill_value"]
                e = to_e(v)
                if dt in ("int", "num") and ntype(v) == "float" and b["dtype"] is None:
                    it.event("trunc", "%s takes the integer type of its argument" % name, st, dtype=dt)
                    if dt == "int":
                        e = self.trunc_e(numify(e))
            else:
                e = {"zeros_like": L0, "ones_like": L1}.get(name)
                if e is None:
                    e = leaf(Rat.atom(X.mk_atom("opq", "empty", "uninitialised")))
            if dt == "bool":
                e = LT if e is L1 else (LF if e is L0 else e)
            it.touch(st, x.length, name)
            r = it.arr(st, e, x.length, x.kind if x.kind == "series" else "ndarray", x.index, None, dt)
            return r
        if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy"):
            b = bindargs(name, ("object", "dtype"), args, kw, dtype=None, copy=True, a=None)
            v = b.get("object", b.get("a"))
            return self.np_array(st, v, b["dtype"], name in ("array", "copy") and b["copy"] is not False)
        if name == "where":
            if len(args) == 1:
                raise NotUnderstood("np.where positions")
            c, a, b = args
            if isinstance(c, Opaque) or isinstance(a, Opaque) or isinstance(b, Opaque):
                pass
            return self.np_where(st, c, a, b)
        if name == "select":
            b = bindargs(name, ("condlist", "choicelist", "default"), args, kw, default=0)
            cs, vs = it.concrete_items(st, b["condlist"]), it.concrete_items(st, b["choicelist"])
            r = b["default"]
            for c, v in reversed(list(zip(cs, vs))):
                r = self.np_where(st, c, v, r)
            return r
        if name in ("maximum", "minimum", "fmax", "fmin"):
            skip = name.startswith("f")
            f = X.maximum if name.endswith(("aximum", "max")) else X.minimum
            b = bindargs(name, ("x1", "x2", "out"), args, kw, out=None, where=True, casting=None)
            dts = self.join_dt(st, (b["x1"], b["x2"]))
            return self.ew(st, lambda x, y: f(x, y, skip), (b["x1"], b["x2"]), dts, name)
        if name in ("abs", "absolute", "fabs"):
            v = self.unlist(st, args[0])
            return self.f_builtins_abs(st, [v], {})
        if name == "negative":
            return it.map1(st, self.unlist(st, args[0]), X.neg, name)
        if name == "square":
            return it.map1(st, self.unlist(st, args[0]), lambda e: X.mul(numify(e), numify(e)), name)
        if name == "reciprocal":
            return self.elementwise(st, "/", 1, args[0])
        if name == "sign":
            return it.map1(st, self.unlist(st, args[0]), self.sign_e, name)
        if name in NP1 or name in ("log1p", "expm1", "ceil"):
            return self.np1(st, name, args[0])
        if name in ("isnan",):
            return self.isna(st, args[0])
        if name == "isfinite":
            return self.np_isfinite(st, self.unlist(st, args[0]))
        if name == "isinf":
            return self.np_isinf(st, self.unlist(st, args[0]))
        if name == "logical_not":
            return it.map1(st, args[0], lambda e: X.b_not(self.cond(e)), name, "bool")
        if name in NPBIN:
            b = bindargs(name, ("x1", "x2", "out"), args, kw, out=None, where=True, casting=None)
            return self.np_bin(st, NPBIN[name], b)
        if name == "clip":
            b = bindargs(name, ("a", "a_min", "a_max"), args, kw, a_min=None, a_max=None, min=None, max=None, out=None)
            lo = b["a_min"] if b["a_min"] is not None else b["min"]
            hi = b["a_max"] if b["a_max"] is not None else b["max"]
            return self.clip(st, b["a"], lo, hi)
        if name == "nan_to_num":
            b = bindargs(name, ("x", "copy", "nan", "posinf", "neginf"), args, kw, copy=True, nan=0, posinf=None, neginf=None)
            if it.is_arr(st, b["x"]):
                if b["posinf"] is None or b["posinf"] != b["nan"]:
                    e = X.fillna(numify(it.content(st, b["x"])), to_e(b["nan"]))
                    e = X.ite(self.isinf_e(e), opq("infinity replaced"), e)
                else:
                    e = X.fillna(X.clean(numify(it.content(st, b["x"]))), to_e(b["nan"]))
                x = it.get(st, b["x"])
                e = it.simp(e)
                if b["copy"] is False and e is not it.content(st, b["x"]):
                    self.inplace_(st, b["x"], it.arr(st, e, x.length, x.kind, x.index, x.name), True)
                    return b["x"]
                return it.arr(st, e, x.length, x.kind, x.index, x.name)
            if is_num(b["x"]):
                return from_e(it.simp(X.fillna(X.clean(to_e(b["x"])), to_e(b["nan"]))), "float")
            raise NotUnderstood(name)
        if name in ("mean", "average", "sum", "max", "min", "amax", "amin", "std", "var", "median", "prod", "nanmean", "nansum",
                    "nanmax", "nanmin", "nanstd", "nanvar", "argmax", "argmin", "ptp", "count_nonzero"):
            return self.np_reduce(st, name, args, kw)
        if name in ("percentile", "quantile", "nanpercentile", "nanquantile", "nanmedian"):
            b = bindargs(name, ("a", "q"), args, kw, q=Fraction(1, 2), axis=None, method="linear", interpolation=None)
            q = b["q"]
            if name.endswith("percentile"):
                q = it.binop(st, "/", q, 100)
            a = self.as_arr(st, b["a"])
            if a is None or b["axis"] not in (None, 0):
                raise NotUnderstood(name)
            return self.reduce(st, a, self.q_kind(dict(b, q=q)), name.startswith("nan"))
        if name in ("cumsum", "cumprod"):
            a = self.as_arr(st, args[0])
            x = it.get(st, a)
            it.touch(st, x.length, name)
            e = self.numc(st, a)
            s, interior = S.start(e)
            if not s.is_zero():
                r = LNAN if name == "cumsum" else LNAN
                # a leading gap poisons everything
                return it.arr(st, X.row(s - 1 - TP, e, LNAN) if False else LNAN, x.length, "ndarray")
            r = S.cumsum(e) if name == "cumsum" else S.cumprod(e)
            if interior:
                r = leaf_strict(r, e)
            return it.arr(st, it.simp(r), x.length, x.kind if x.kind == "series" else "ndarray", x.index, x.name,
                          it.dtype(st, a) if it.dtype(st, a) != "bool" else "int")
        if name in ("maximum.accumulate", "minimum.accumulate"):
            a = self.as_arr(st, args[0])
            x = it.get(st, a)
            it.touch(st, x.length, name)
            return it.arr(st, it.simp(S.cumext("max" if name.startswith("max") else "min", self.numc(st, a))), x.length,
                          "ndarray", None, None, it.dtype(st, a))
        if name == "add.accumulate":
            return self.call_np(st, "cumsum", args, kw)
        if name == "roll":
            b = bindargs(name, ("a", "shift"), args, kw, axis=None)
            a = self.as_arr(st, b["a"])
            x = it.get(st, a)
            it.touch(st, x.length, name)
            k = it.poly(b["shift"])
            e = it.content(st, a)
            n = x.length
            if it.decide(k) is True:
                r = X.row(TP - k, X.shift_rows(e, k), X.shift_rows(e, k - n))
            elif it.decide(-k) is True:
                r = X.row(n - 1 - TP + k, X.shift_rows(e, k), X.shift_rows(e, k + n))
            else:
                raise NotUnderstood("np.roll by an unknown amount")
            return it.arr(st, it.simp(r), n, "ndarray", None, None, it.dtype(st, a))
        if name in ("concatenate", "hstack", "append", "r_"):
            if name == "append":
                parts = list(args[:2])
            else:
                parts = it.concrete_items(st, args[0])
            if parts is None:
                raise NotUnderstood(name)
            return self.concat_arrays(st, parts, "ndarray")
        if name == "insert":
            arr, pos, val = args[:3]
            if isinstance(pos, int) and pos == 0:
                return self.concat_arrays(st, [it.new(st, PyList([val])), arr], "ndarray")
            raise NotUnderstood(name)
        if name in ("vstack", "stack", "column_stack"):
            parts = it.concrete_items(st, args[0])
            if parts is None:
                raise NotUnderstood(name)
            ax = kw.get("axis", args[1] if len(args) > 1 else 0)
            k = "rows2" if name == "column_stack" or (name == "stack" and ax in (1, -1)) else "nd2"
            return it.new(st, PyList([self.as_arr(st, p) for p in parts], k))
        if name == "diff":
            b = bindargs(name, ("a", "n", "axis", "prepend"), args, kw, n=1, axis=-1, prepend=None, append=None)
            a = self.as_arr(st, b["a"])
            if b["n"] != 1 or b["append"] is not None:
                raise NotUnderstood(name)
            if b["prepend"] is not None:
                p = b["prepend"]
                pl = p if it.obj(st, p) is not None else it.new(st, PyList([p]))
                a = self.concat_arrays(st, [pl, a], "ndarray")
            x = it.get(st, a)
            it.touch(st, x.length, name)
            e = self.numc(st, a)
            r = X.sub(X.shift_rows(e, Poly.const(-1)), e)
            return it.arr(st, it.simp(r), x.length - 1, "ndarray", None, None, it.dtype(st, a))
        if name == "arange":
            r = self.f_builtins_range(st, [a for a in args], {})
            if r.step != 1:
                if r.step == -1:
                    return it.arr(st, leaf(Rat(r.a - TP, ONE)), r.a - r.b, "ndarray", None, None, "int")
                raise NotUnderstood("arange step")
            return self.fill(st, r.b - r.a, leaf(Rat(r.a + TP, ONE)), self.dtype_of(kw.get("dtype"), "int"), name)
        if name == "apply_along_axis" and len(args) >= 3 and isinstance(args[2], WinV):
            if args[1] not in (1, -1):
                raise NotUnderstood(name)
            it.event("perrow", "np.apply_along_axis calls a function once per window", st)
            return self.win_rows(st, args[2], lambda v: it.call(st, args[0], [v] + list(args[3:]), kw), False)
        if name in ("dot", "matmul", "inner") and len(args) == 2 and any(isinstance(a, WinV) for a in args):
            a, v = args
            if not isinstance(a, WinV):
                raise NotUnderstood(name)
            return self.win_rows(st, a, lambda r: self.call_np(st, "dot", [r, v], {}), True)
        if name in ("dot", "inner", "vdot", "matmul"):
            p = self.elementwise(st, "*", args[0], args[1])
            return self.reduce(st, p, "sum", skipna=False)
        if name == "errstate" or name == "seterr":
            return None
        if name in ("float64", "float32", "float_", "double", "float16"):
            if name in ("float32", "float16"):
                it.event("lowprec", "single precision", st)
            if it.is_arr(st, args[0]):
                return self.m_astype(st, args[0], it.get(st, args[0]), ["float"], {})
            return self.f_builtins_float(st, args, kw)
        if name in ("int64", "int32", "int_", "intp"):
            return self.f_builtins_int(st, args, kw)
        if name in ("bool_", "bool"):
            return self.f_builtins_bool(st, args, kw)
        if name in ("flip", "flipud"):
            a = self.as_arr(st, args[0])
            return self.slice(st, a, it.get(st, a), SliceV(None, None, -1))
        if name == "ravel" or name == "squeeze":
            return args[0]
        if name == "apply_along_axis":
            raise NotUnderstood(name)
        if name == "vectorize" or name == "frompyfunc":
            it.event("perrow", "np.%s calls a Python function once per element" % name, st)
            return LibFn_vec(args[0])
        if name == "any" or name == "all":
            return self.m_anyall(st, self.as_arr(st, args[0]) or args[0], name)
        if name == "size":
            return self.f_builtins_len(st, args, kw)
        if name == "shape":
            return (self.f_builtins_len(st, args, kw),)
        if name == "full_like":
            pass
        if name == "testing":
            pass
        if name == "take":
            return self.getitem(st, args[0], args[1])
        if name == "issubdtype":
            return Opaque("dtype test")
        if name == "lib.stride_tricks.sliding_window_view":
            b = bindargs(name, ("x", "window_shape", "axis"), args, kw, axis=None, subok=False, writeable=False)
            a = self.unlist(st, b["x"])
            if a is None or not it.is_arr(st, a) or b["writeable"] is not False or b["axis"] not in (None, 0, -1):
                raise NotUnderstood(name)
            w = b["window_shape"]
            if isinstance(w, tuple) and len(w) == 1:
                w = w[0]
            w = it.poly(w, "window")
            x = it.get(st, a)
            if it.decide(x.length - w) is not True:
                it.event("bound", "window longer than the array", st, need=x.length - w, exc="ValueError")
            return WinV(it.arr(st, it.content(st, a), x.length, "ndarray", None, None, it.dtype(st, a)), w)
        if name == "convolve":
            raise NotUnderstood(name)
        raise NotUnderstood("numpy." + name)

    def unlist(self, st, v):
        a = self.as_arr(st, v)
        if a is not None and self.it.get(st, a).kind == "list":
            x = self.it.get(st, a)
            return self.it.new(st, x.set(kind="ndarray"))
        return a if a is not None else v

    def sign_e(self, e):
        from interp import numify

        def f(v):
            if v is X.NAN or v is X.INF:
                return leaf(v)
            return X.sign3(v, X.const(-1), L0, L1)
        return X.lift("signum", f, numify(e))

    def join_dt(self, st, vs):
        from interp import dt_join, ntype, is_num
        dt = None
        for v in vs:
            if self.it.is_arr(st, v):
                d = self.it.dtype(st, v)
            elif is_num(v):
                d = ntype(v)
            else:
                d = "float"
            dt = d if dt is None else (dt if dt == d else dt_join("+", dt, d))
        return dt

    def np_where(self, st, c, a, b):
        from interp import numify, boolish, is_num, opq

        def f(m, x, y):
            m = self.cond_truthy(m)
            if not (boolish(x) and boolish(y)):
                x, y = numify(x), numify(y)
            return X.choose(m, x, y)
        for v in (a, b):
            if isinstance(v, (str, StrV)):
                raise NotUnderstood("text choice")
        return self.ew(st, f, (c, a, b), self.join_dt(st, (a, b)), "where", numeric=False, kind=(
            "ndarray"))

    def cond_truthy(self, e):
        """numpy truth: missing numbers are true."""
        from interp import boolish, nb
        if boolish(e):
            return nb(e)
        return X.compare("!=", e, L0)

    def np_bin(self, st, op, b):
        from interp import e_binop, numify, boolish
        it = self.it
        x1, x2, out, where = b["x1"], b["x2"], b["out"], b["where"]
        if isinstance(out, tuple):
            out = out[0]
        if where is True and out is None:
            if op in "&|^":
                return self.ew(st, lambda x, y: e_binop(op, self.cond_truthy(x), self.cond_truthy(y)), (x1, x2), "bool",
                               op, numeric=False)
            return self.elementwise(st, op, self.unlist(st, x1), self.unlist(st, x2))
        if out is None:
            base = leaf(Rat.atom(X.mk_atom("opq", "empty", "uninitialised")))
            r = self.ew(st, lambda x, y, w: X.ite(self.cond(w), e_binop(op, numify(x), numify(y)), base), (x1, x2, where),
                        "float", op, numeric=False)
            return r
        r = self.ew(st, lambda x, y, w, o: X.ite(self.cond(w), e_binop(op, numify(x), numify(y)), numify(o)),
                    (x1, x2, where, out), "float", op, numeric=False)
        ox = it.get(st, out)
        rx = it.get(st, r)
        it.mutated(st, out)
        s = it.get(st, ox.st)
        e = it.content(st, r)
        vt = "float" if op == "/" else self.join_dt(st, (x1, x2))
        if b.get("casting") == "unsafe":
            e = it.check_trunc(st, ox, s, vt, e)
        else:
            it.check_trunc(st, ox, s, vt)
        st.heap[ox.st.id] = s.set(e=e)
        # ufuncs with series operands return a series
        objs = [it.obj(st, v) for v in (x1, x2) if it.is_arr(st, v)]
        ser = [o for o in objs if o.kind == "series"]
        if ser:
            return it.new(st, Arr("series", ox.st, ox.length, ser[0].index, None))
        return out

    def clip(self, st, a, lo, hi):
        r = a
        dt = self.join_dt(st, (a,))
        if lo is not None:
            r = self.ew(st, lambda x, y: X.maximum(x, y), (r, lo), self.join_dt(st, (a, lo)), "clip")
        if hi is not None:
            r = self.ew(st, lambda x, y: X.minimum(x, y), (r, hi), self.join_dt(st, (a, hi)), "clip")
        return r

    def np_out(self, st, name, args, kw):
        """a numpy function told to leave its result in an array of the caller's choice."""
        it = self.it
        kw = dict(kw)
        out, where, casting = kw.pop("out"), kw.pop("where", True), kw.pop("casting", None)
        if isinstance(out, tuple):
            out = out[0]
        if not it.is_arr(st, out):
            raise NotUnderstood("out= of " + name)
        r = self.call_np(st, name, args, kw)
        if not it.is_arr(st, r):
            it.mutated(st, out)
            raise NotUnderstood("out= of " + name)
        return self.store_all(st, out, r, where, casting)

    def np_put(self, st, name, args, kw):
        b = bindargs(name, {"copyto": ("dst", "src"), "putmask": ("a", "mask", "values"), "place": ("arr", "mask", "vals")}[name],
                     args, kw, casting=None, where=True)
        dst = b.get("dst", b.get("a", b.get("arr")))
        src = b.get("src", b.get("values", b.get("vals")))
        if not self.it.is_arr(st, dst):
            raise NotUnderstood(name)
        if name != "copyto" and self.it.is_arr(st, src):
            self.it.mutated(st, dst)
            raise NotUnderstood(name)
        self.store_all(st, dst, src, b.get("mask", b["where"]), b["casting"] or ("unsafe" if name != "copyto" else None))
        return None

    def store_all(self, st, dst, src, where=True, casting=None):
        """every row of dst (where the mask holds) becomes that of src."""
        from interp import numify
        it = self.it
        if where is True:
            r = self.ew(st, lambda o, y: numify(y), (dst, src), "float", "out", numeric=False)
        else:
            r = self.ew(st, lambda o, y, w: X.ite(self.cond(w), numify(y), numify(o)), (dst, src, where), "float", "out",
                        numeric=False)
        ox = it.get(st, dst)
        it.mutated(st, dst)
        s = it.get(st, ox.st)
        e = it.content(st, r)
        if casting == "unsafe":
            e = it.check_trunc(st, ox, s, self.join_dt(st, (src,)), e)
        else:
            it.check_trunc(st, ox, s, self.join_dt(st, (src,)))
        st.heap[ox.st.id] = s.set(e=e)
        return dst

    def np_array(self, st, v, dtype, copy):
        from interp import is_num
        it = self.it
        o = it.obj(st, v)
        if isinstance(v, Opaque):
            return v
        if isinstance(o, PyList) and o.items and all(it.is_arr(st, x) or isinstance(it.obj(st, x), PyList) for x in o.items):
            return it.new(st, PyList([self.as_arr(st, x) for x in o.items], "nd2"))
        if isinstance(o, PyList) and o.kind in ("nd2", "rows2"):
            return v
        if isinstance(o, DF):
            return it.new(st, PyList([c for _, c in o.cols], "rows2"))
        if is_num(v):
            raise NotUnderstood("0-d array")
        a = self.as_arr(st, v)
        if a is None:
            raise NotUnderstood("np.array")
        x = it.get(st, a)
        s = it.get(st, x.st)
        dt = self.dtype_of(dtype, s.dtype)
        if not copy and x.kind != "list" and dt == s.dtype:
            return it.new(st, Arr("ndarray", x.st, x.length))
        it.touch(st, x.length, "np.array")
        e = it.content(st, a)
        e = self.cast_e(st, e, s.dtype, dt)
        return it.arr(st, e, x.length, "ndarray", None, None, dt, s.origin if not copy and x.kind != "list" and
                      s.dtype == "num" else None)

    def cast_e(self, st, e, frm, to):
        from interp import numify, boolish
        if to in ("float", "obj", "num"):
            return numify(e) if to != "obj" else e
        if to == "bool":
            return e if boolish(e) else X.compare("!=", e, L0)
        if frm in ("float", "num"):
            r = self.trunc_e(numify(e))
            if r is not numify(e):
                self.it.event("trunc", "values are cast to integers", st, dtype="int")
            return r
        return numify(e)

    def np_reduce(self, st, name, args, kw):
        it = self.it
        b = bindargs(name, ("a", "axis"), args, kw, axis=None, ddof=0, weights=None, dtype=None, keepdims=False, skipna=None,
                     where=None, initial=None)
        v = b["a"]
        if isinstance(v, Opaque):
            return v
        o = it.obj(st, v)
        nm = {"amax": "max", "amin": "min", "average": "mean"}.get(name, name)
        if isinstance(v, WinV):
            if b["axis"] not in (1, -1) or b["keepdims"] is not False:
                raise NotUnderstood("reduction of windows across rows")
            k2 = {k: x for k, x in kw.items() if k not in ("a", "axis")}
            return self.win_rows(st, v, lambda r: self.np_reduce(st, name, [r], k2),
                                 nm in ("max", "min", "mean", "sum", "std", "var", "median", "prod"))
        skip = False
        if nm.startswith("nan"):
            nm, skip = nm[3:], True
        if isinstance(o, (PyList,)) and o.items and all(isinstance(it.obj(st, x), (Arr, PyList)) for x in o.items):
            items = [self.as_arr(st, x) for x in o.items]
            ax = b["axis"]
            if ax is None:
                raise NotUnderstood("reduction over a 2-d array")
            ax = int(ax)
            if o.kind == "rows2":
                ax = 1 - ax if ax >= 0 else {-1: 0, -2: 1}[ax]
            elif ax < 0:
                ax += 2
            if ax == 0:
                return self.across(st, items, nm, skip, "ndarray")
            raise NotUnderstood("reduction along rows")
        if isinstance(o, DF):
            return self.call_meth(st, v, nm, [], {k: x for k, x in kw.items()})
        a = self.as_arr(st, v)
        if a is None:
            from interp import is_num
            if is_num(v):
                return v
            raise NotUnderstood(name)
        x = it.get(st, a)
        if b["weights"] is not None:
            w = b["weights"]
            p = self.elementwise(st, "*", self.unlist(st, a), self.unlist(st, w))
            return it.binop(st, "/", self.reduce(st, p, "sum", False), self.reduce(st, self.as_arr(st, w), "sum", False))
        ddof = b["ddof"]
        if nm in ("ptp", "count_nonzero"):
            raise NotUnderstood(nm)
        if x.kind == "series":
            skip = True
        if nm in ("std", "var"):
            return self.reduce(st, a, nm, skip, ddof)
        return self.reduce(st, a, nm, skip)

    def win_rows(self, st, win, f, spreads):
        """array of f(window); spreads: a gap in the window is a gap in the result."""
        from interp import numify
        it = self.it
        x = it.get(st, win.arr)
        e = numify(it.content(st, win.arr))
        ss, interior = X.starts(e)
        if not spreads and (ss is None or interior or any(not q.is_zero() for q in ss)):
            raise NotUnderstood("windows that may hold gaps")
        g = (lambda v: f(win.f(v))) if win.f else f
        v = self.roll_apply(st, Roll(win.arr, win.w, win.w, "rolling", {}), x, e, [HostFn(g, "window")], {"raw": True})
        k = win.w - 1
        n = x.length - k
        return it.arr(st, it.simp(X.restrict_rows(X.shift_rows(v, -k), [TP])), n, "ndarray", None, None, "float")

    def win_meth(self, st, o, name, args, kw):
        if name in ("copy", "view"):
            return o
        if name == "dot":
            return self.call_np(st, "dot", [o] + list(args), kw)
        if name in ("mean", "sum", "max", "min", "std", "var", "argmax", "argmin", "prod", "median", "ptp"):
            if args:
                kw = dict(kw, axis=args[0])
            return self.call_np(st, name, [o], kw)
        raise NotUnderstood("method %s of windows" % name)

    def across(self, st, items, nm, skip, kind):
        """reduction across columns, row by row."""
        it = self.it
        dt = self.join_dt(st, items)
        if nm in ("max", "min"):
            f = X.maximum if nm == "max" else X.minimum
            r = items[0]
            for y in items[1:]:
                r = self.ew(st, lambda p, q: f(p, q, skip), (r, y), dt, "row " + nm, kind=kind)
            return r
        if nm in ("sum", "mean"):
            n = len(items)

            def f(*es):
                if skip:
                    tot, cnt = L0, L0
                    for e in es:
                        na = X.isna(e)
                        tot = X.add(tot, X.ite(na, L0, e))
                        cnt = X.add(cnt, X.ite(na, L0, L1))
                    return tot if nm == "sum" else X.div(tot, cnt)
                tot = L0
                for e in es:
                    tot = X.add(tot, e)
                return tot if nm == "sum" else X.scale(tot, Fraction(1, n))
            return self.ew(st, f, items, "float" if nm == "mean" else dt, "row " + nm, kind=kind)
        raise NotUnderstood("row " + nm)

    def concat_arrays(self, st, parts, kind):
        from interp import is_num, numify
        it = self.it
        arrs = []
        for p in parts:
            a = self.as_arr(st, p)
            if a is None:
                if is_num(p):
                    a = self.list_arr(st, it.new(st, PyList([p])))
                else:
                    raise NotUnderstood("concatenation")
            arrs.append(a)
        dt = self.join_dt(st, arrs)
        off = ZERO
        segs = []
        for a in arrs:
            x = it.get(st, a)
            e = it.content(st, a)
            if dt != "bool":
                e = numify(e)
            segs.append((off, e))
            off = off + x.length
        it.touch(st, off, "concatenation")
        # drop segments that are certainly empty
        e = None
        for k in range(len(segs) - 1, -1, -1):
            o, body = segs[k]
            ln = (segs[k + 1][0] if k + 1 < len(segs) else off) - o
            if ln.is_zero():
                continue
            sh = X.shift_rows(body, o)
            sh = X.restrict_rows(sh, [TP - o])
            e = sh if e is None else X.row(TP - nxt, e, sh)
            nxt = o
        if e is None:
            e = L0
        return it.arr(st, it.simp(e), off, kind, None, None, dt)

    # ------------------------------------------------------------ reductions over a whole array
    def reduce(self, st, a, kind, skipna=True, ddof=1):
        from interp import from_e, numify
        it = self.it
        x = it.get(st, a)
        if is_kept(x.index):
            return self.reduce_kept(st, a, x, kind, skipna)
        it.touch(st, x.length, kind)
        kind = "q:1/2" if kind == "median" else kind
        n = x.length
        e = self.numc(st, a)
        if X.T.id not in e.free and not e.leaf:
            pass
        dt = it.dtype(st, a)
        if n.is_const() and n.cval() == 0:
            if kind == "sum":
                return 0 if dt == "int" else Fraction(0)
            if kind in ("max", "min", "argmax", "argmin"):
                if x.kind == "series" and kind in ("max", "min"):
                    return FNAN
                raise PyRaise_("ValueError", kind + " of an empty array")
            return FNAN
        lo = ZERO
        interior = False
        e = X.restrict_rows(e, [n - 1 - TP] + list(it.ctx)) if True else e
        try:
            lo, interior = S.start(e)
        except NotUnderstood:
            raise NotUnderstood("%s of a series whose first defined row is unknown" % kind)
        if not lo.is_zero():
            if not skipna:
                if kind in ("argmax", "argmin"):
                    raise NotUnderstood("argmax with gaps")
                return FNAN
        if kind in ("max", "min", "argmax", "argmin") and it.decide(n - 1) is not True and x.kind != "series":
            it.event("bound", "%s of an empty array" % kind, st, need=n - 1, exc="ValueError")
        if interior and kind.startswith("q:"):
            raise NotUnderstood("quantile of a series with gaps")
        body = S.after(e, lo)
        hi = n
        t = "int" if dt == "int" and kind in ("sum", "max", "min") or kind in ("argmax", "argmin", "count") else "float"
        cnt = leaf(Rat(hi - lo, ONE))
        if interior and skipna and kind in ("sum", "mean"):
            na = X.isna(body)
            cnt = X.agg("sum", X.ite(na, L0, L1), lo, hi)
            body = X.ite(na, L0, body)
        if kind == "mean":
            r = X.div(X.agg("sum", body, lo, hi), cnt)
        elif kind in ("var", "std"):
            r = X._var(body, lo, hi, int(self.P(ddof).cval()))
            if kind == "std":
                r = X.fn1("sqrt", r)
        elif kind == "count":
            r = cnt
        elif kind == "prod":
            r = X.agg("prod", body, lo, hi)
        elif kind in ("argmax", "argmin"):
            # position counted from the start of the array
            r = X.add(X.agg(kind, body, lo, hi), leaf(Rat(lo, ONE)))
        else:
            r = X.agg(kind, body, lo, hi)
        return from_e(it.simp(r), t)

    # ------------------------------------------------------------ pandas constructors
    def f_pandas_Series(self, st, args, kw):
        from interp import is_num, to_e, ntype, opq, numify
        it = self.it
        b = bindargs("Series", ("data", "index", "dtype", "name", "copy"), args, kw, data=None, index=None, dtype=None,
                     name=None, copy=False, fastpath=False)
        v, index, name = b["data"], b["index"], b["name"]
        o = it.obj(st, v)
        if isinstance(v, Opaque):
            if index is not None and isinstance(index, IndexV):
                return it.arr(st, opq(v.why), index.length, "series", index.token, name)
            return v
        if isinstance(o, PyDict):
            raise NotUnderstood("Series from a dict")
        if v is None or is_num(v):
            if index is None:
                if v is None:
                    return it.arr(st, LNAN, ZERO, "series", RANGE, name)
                return it.arr(st, to_e(v), ONE, "series", RANGE, name, ntype(v))
            ln = self.index_len(st, index)
            dt = self.dtype_of(b["dtype"], "obj" if v is None else ntype(v))
            it.touch(st, ln, "Series")
            return it.arr(st, LNAN if v is None else to_e(v), ln, "series", self.index_token(st, index, ln), name, dt)
        a = self.as_arr(st, v)
        if a is None:
            raise NotUnderstood("Series data")
        x = it.get(st, a)
        s = it.get(st, x.st)
        dt = self.dtype_of(b["dtype"], s.dtype)
        if x.kind == "series":
            tok = x.index
            if index is not None:
                t2 = index.token if isinstance(index, IndexV) else self.index_token(st, index, x.length)
                if t2 != tok and isinstance(index, IndexV):
                    r = self.spread(st, a, t2, index.length)
                    if r is not None:
                        return it.new(st, it.get(st, r).set(name=name if name is not None else x.name))
                if t2 != tok:
                    it.event("misaligned", "a series labelled by %s is reindexed to %s" % (self.tok_name(tok), self.tok_name(t2)),
                             st)
                    if isinstance(index, IndexV) and index.length != x.length:
                        raise NotUnderstood("reindexing to another length")
                tok = t2
            nm = name if name is not None else x.name
        else:
            tok = RANGE
            if index is not None:
                tok = self.index_token(st, index, x.length)
            nm = name
        if b["copy"] is True or x.kind == "list" or dt != s.dtype:
            e = self.cast_e(st, it.content(st, a), s.dtype, dt)
            return it.arr(st, e, x.length, "series", tok, nm, dt, s.origin if x.kind != "list" and b["copy"] is not True
                          and s.dtype == "num" and dt == "float" else None)
        return it.new(st, Arr("series", x.st, x.length, tok, nm))

    def index_len(self, st, index):
        it = self.it
        if isinstance(index, IndexV):
            return index.length
        if isinstance(index, RangeV):
            return index.b - index.a
        o = it.obj(st, index)
        if isinstance(o, Arr):
            return o.length
        if isinstance(o, PyList):
            return Poly.const(len(o.items))
        raise NotUnderstood("index")

    def f_pandas_DataFrame(self, st, args, kw):
        from interp import is_num, to_e, ntype
        it = self.it
        b = bindargs("DataFrame", ("data", "index", "columns", "dtype", "copy"), args, kw, data=None, index=None, columns=None,
                     dtype=None, copy=None)
        v = b["data"]
        o = it.obj(st, v)
        if v is None:
            ix = b["index"]
            if ix is None:
                return it.new(st, DF((), None, ZERO))
            ln = self.index_len(st, ix)
            cols = it.concrete_items(st, b["columns"]) if b["columns"] is not None else []
            tok = self.index_token(st, ix, ln)
            return it.new(st, DF([(c, it.arr(st, LNAN, ln, "series", tok, c)) for c in cols], tok, ln))
        if isinstance(o, DF):
            return self.call_meth(st, v, "copy", [], {})
        if isinstance(o, PyDict):
            pairs = list(o.items)
        elif isinstance(o, PyList) and o.kind == "rows2":
            names = it.concrete_items(st, b["columns"]) if b["columns"] is not None else list(range(len(o.items)))
            pairs = list(zip(names, o.items))
        elif self.as_arr(st, v) is not None:
            a = self.as_arr(st, v)
            names = it.concrete_items(st, b["columns"]) if b["columns"] is not None else [it.get(st, a).name or 0]
            pairs = [(names[0], a)]
        else:
            raise NotUnderstood("DataFrame data")
        objs = []
        n = None
        tok = None
        if b["index"] is not None:
            n = self.index_len(st, b["index"])
            tok = self.index_token(st, b["index"], n)
        for k, c in pairs:
            a = self.as_arr(st, c)
            if a is not None:
                x = it.get(st, a)
                if x.kind == "series":
                    if tok is None:
                        tok, n = x.index, x.length
                    elif tok != x.index:
                        it.event("misaligned", "a table is built from series with different labels", st)
                        if x.length != n:
                            raise NotUnderstood("table of series of different lengths")
        for k, c in pairs:
            a = self.as_arr(st, c)
            if a is not None:
                x = it.get(st, a)
                if n is None:
                    n = x.length
                self.need_eq(st, x.length, n, "table columns of different lengths")
        if n is None:
            raise NotUnderstood("DataFrame of scalars")
        tok = tok or RANGE
        cols = []
        for k, c in pairs:
            a = self.as_arr(st, c)
            if a is not None:
                s = it.get(st, it.get(st, a).st)
                cols.append((k, it.new(st, Arr("series", it.new(st, Stor(it.content(st, a), None, s.dtype)), n, tok, k))))
            elif is_num(c):
                cols.append((k, it.arr(st, to_e(c), n, "series", tok, k, ntype(c))))
            elif isinstance(c, Opaque):
                from interp import opq
                cols.append((k, it.arr(st, opq(c.why), n, "series", tok, k)))
            else:
                raise NotUnderstood("table column")
        it.touch(st, n, "DataFrame")
        if b["columns"] is not None and isinstance(o, PyDict):
            want = it.concrete_items(st, b["columns"])
            d = dict(cols)
            cols = [(c, d[c] if c in d else it.arr(st, LNAN, n, "series", tok, c)) for c in want]
        return it.new(st, DF(cols, tok, n))

    def f_pandas_concat(self, st, args, kw):
        it = self.it
        b = bindargs("concat", ("objs", "axis"), args, kw, axis=0, keys=None, ignore_index=False, join="outer", names=None,
                     sort=False, copy=None, verify_integrity=False)
        parts = it.concrete_items(st, b["objs"])
        if parts is None:
            raise NotUnderstood("concat")
        if b["axis"] in (1, "columns"):
            cols = []
            tok = n = None
            for j, p in enumerate(parts):
                x = it.obj(st, p)
                new = [(n_, c) for n_, c in x.cols] if isinstance(x, DF) else [(x.name if x.name is not None else j, p)] \
                    if isinstance(x, Arr) else None
                if new is None:
                    raise NotUnderstood("concat part")
                for nm, c in new:
                    y = it.get(st, c)
                    if tok is None:
                        tok, n = y.index, y.length
                    elif y.index != tok:
                        it.event("misaligned", "series with different labels are put side by side", st)
                        if y.length != n:
                            raise NotUnderstood("concat of different lengths")
                    s = it.get(st, y.st)
                    cols.append((nm, it.new(st, Arr("series", it.new(st, Stor(it.content(st, c), None, s.dtype)), n, tok, nm))))
            if b["keys"] is not None:
                ks = it.concrete_items(st, b["keys"])
                cols = [(k, c) for k, (_, c) in zip(ks, cols)]
            return it.new(st, DF(cols, tok, n))
        if all(it.is_arr(st, p) for p in parts):
            r = self.concat_arrays(st, parts, "series")
            x = it.get(st, r)
            toks = [it.get(st, p).index for p in parts]
            tok = RANGE if b["ignore_index"] is True else ("concat",) + tuple(toks)
            # pieces of one index put back together
            if b["ignore_index"] is not True and all(isinstance(q, tuple) and q[0] == "part" for q in toks):
                base = toks[0][1]
                ok = all(q[1] == base for q in toks) and toks[0][2] == repr(ZERO) and all(
                    toks[i][3] == toks[i + 1][2] for i in range(len(toks) - 1))
                if ok and base == INPUT and toks[-1][3] == repr(NP_):
                    tok = INPUT
            return it.new(st, x.set(index=tok))
        raise NotUnderstood("concat of tables")

    def f_pandas_isna(self, st, args, kw):
        return self.isna(st, args[0])

    f_pandas_isnull = f_pandas_isna

    def f_pandas_notna(self, st, args, kw):
        r = self.isna(st, args[0])
        if isinstance(r, bool):
            return not r
        from interp import from_e
        if isinstance(r, Num):
            return from_e(X.b_not(r.e), "bool")
        return self.it.map1(st, r, X.b_not, "notna", "bool")

    f_pandas_notnull = f_pandas_notna

    def f_pandas_to_numeric(self, st, args, kw):
        return args[0]

    def f_pandas_RangeIndex(self, st, args, kw):
        r = self.f_builtins_range(st, args + list(kw.values()), {})
        return IndexV(RANGE if r.a.is_zero() and r.step == 1 else ("range", repr(r.a)), r.b - r.a)

    def f_pandas_Index(self, st, args, kw):
        if isinstance(args[0], IndexV):
            return args[0]
        raise NotUnderstood("Index")

    def on_selection(self, st, x, f):
        """a row-by-row operation among selected rows: the rows and labels are known even when the values are not."""
        from interp import opq
        try:
            return f()
        except NotUnderstood as ex:
            self.it.note(str(ex))
            return self.it.arr(st, opq(str(ex)), x.length, x.kind, x.index, x.name, "float")

    # ------------------------------------------------------------ methods
    def call_meth(self, st, o, name, args, kw):
        from interp import is_num, PyRaise
        it = self.it
        if isinstance(o, Opaque):
            return Opaque("method of " + o.why)
        x = it.obj(st, o)
        if isinstance(x, Arr):
            if x.kind == "list":
                return self.list_meth(st, o, x, name, args, kw)
            m = getattr(self, "m_" + name, None)
            if m is not None:
                if name in ROWMETH and is_kept(x.index) and x.kind == "series":
                    return self.on_selection(st, x, lambda: m(st, o, x, args, kw))
                return m(st, o, x, args, kw)
            if name in SBIN or name in RBIN:
                b = bindargs(name, ("other",), args, kw, level=None, fill_value=None, axis=0)
                other = b["other"]
                me = o
                if b["fill_value"] is not None:
                    fv = b["fill_value"]
                    me = self.m_fillna(st, o, x, [fv], {})
                    if it.is_arr(st, other):
                        other = self.m_fillna(st, other, it.get(st, other), [fv], {})
                if name in SBIN:
                    return self.elementwise(st, SBIN[name], me, other)
                return self.elementwise(st, RBIN[name], other, me)
            if name in NP1:
                raise PyRaise("AttributeError", name)
            if name not in ("item", "view", "reshape", "ravel", "squeeze", "get", "keys", "head", "tail", "first", "last",
                            "transpose", "swapaxes", "items", "iteritems", "pipe", "xs", "setflags", "at_time", "expanding",
                            "rolling", "ewm", "resample", "groupby"):
                it.touch(st, x.length, name)
            raise NotUnderstood("method " + name)
        if isinstance(x, PyList):
            return self.list_meth(st, o, x, name, args, kw)
        if isinstance(x, PyDict):
            return self.dict_meth(st, o, x, name, args, kw)
        if isinstance(x, DF):
            it.peek(st, x)
            m = getattr(self, "d_" + name, None)
            if m is not None:
                return m(st, o, x, args, kw)
            raise NotUnderstood("table method " + name)
        if isinstance(o, Roll):
            x = it.obj(st, o.arr)
            if isinstance(x, Arr) and is_kept(x.index):
                return self.on_selection(st, x, lambda: self.roll_meth(st, o, name, args, kw))
            return self.roll_meth(st, o, name, args, kw)
        if isinstance(o, WinV):
            return self.win_meth(st, o, name, args, kw)
        if isinstance(o, Ewm):
            x = it.obj(st, o.arr)
            if isinstance(x, Arr) and is_kept(x.index):
                return self.on_selection(st, x, lambda: self.ewm_meth(st, o, name, args, kw))
            return self.ewm_meth(st, o, name, args, kw)
        if isinstance(o, IndexV):
            if name in ("copy", "view", "rename", "set_names"):
                if name in ("rename", "set_names") and kw.get("inplace") is True:
                    it.setattr(st, o, "name", args[0] if args else None)
                    return None
                return IndexV(o.token, o.length, False)
            if name in ("equals", "identical"):
                if isinstance(args[0], IndexV) and args[0].token == o.token:
                    return True
                if LABELS is not None and isinstance(args[0], IndexV) and {args[0].token, o.token} == {INPUT, RANGE}:
                    d = o.length - args[0].length
                    if LABELS != "range" or it.decide(d - 1) is True or it.decide(-d - 1) is True:
                        it.event("label", "compares the labels", st)
                        return False
                    if d.is_zero():
                        it.event("label", "compares the labels", st)
                        return True
                return Opaque("index comparison")
            if name in ("tolist", "to_list", "to_numpy", "to_series") and not (LABELS is not None and o.token == INPUT):
                it.event("label", "uses the labels as data", st)
                return Opaque("labels as data")
            if name == "duplicated":
                it.event("label", "looks for repeated labels", st)
                if LABELS is not None and o.token == INPUT:
                    return it.arr(st, LF, o.length, "nd", None, None, "bool")
                return it.arr(st, X.compare(">", X.at_in("@label"), L0), o.length, "nd", None, None, "bool")
            if name in ("sort_values", "sort", "union", "sort_index"):
                if name == "union" and not (isinstance(args[0], IndexV) and args[0].token == o.token):
                    raise NotUnderstood("union of labels")
                it.event("label", "sorts the labels", st)
                return IndexV(("sorted", o.token), o.length, False)
            if name in ("get_loc", "get_indexer", "isin", "max", "min", "argmin", "argmax"):
                from interp import LabelV
                if name == "get_loc" and len(args) == 1 and isinstance(args[0], LabelV) and args[0].token == o.token:
                    return self.num(args[0].pos)
                it.event("label", "uses the labels (%s)" % name, st)
                if LABELS is not None and o.token == INPUT and name in ("max", "min", "argmax", "argmin"):
                    last = (name in ("max", "argmax")) == (LABELS not in ("reversed", "text"))
                    pos = o.length - 1 if last else ZERO
                    return self.num(pos) if name.startswith("arg") else LabelV(o.token, pos)
                return Opaque("labels")
            if name in ("to_numpy", "to_list", "tolist") and LABELS is not None and o.token == INPUT:
                return self.as_arr(st, o)
            raise NotUnderstood("index method " + name)
        if isinstance(o, str):
            if all(isinstance(a, (str, int, bool)) or a is None for a in args) and not kw:
                if name in ("format",):
                    return o.format(*args)
                if name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "title", "join", "lstrip",
                            "rstrip", "count", "find", "capitalize", "isdigit"):
                    r = getattr(o, name)(*args)
                    return it.new(st, PyList(r)) if isinstance(r, list) else r
            if name == "join":
                items = it.concrete_items(st, args[0])
                from interp import mk_str
                out = []
                for i, p in enumerate(items):
                    out += ([o] if i else []) + [p]
                return mk_str(out)
            if name == "format":
                from interp import mk_str
                segs = o.split("{}")
                if len(segs) == len(args) + 1 and "{" not in "".join(segs):
                    out = [segs[0]]
                    for s, a in zip(segs[1:], args):
                        out += [it.to_str(a), s]
                    return mk_str(out)
            raise NotUnderstood("text method " + name)
        if isinstance(o, StrV):
            return Opaque("text method")
        if is_num(o):
            if name in ("item", "__float__"):
                return o
            if name == "is_integer":
                if isinstance(o, Fraction):
                    return o.denominator == 1
                return Opaque("is_integer")
            raise NotUnderstood("number method " + name)
        raise NotUnderstood("method %s of %r" % (name, o))

    # ---- lists and dicts
    def list_meth(self, st, o, x, name, args, kw):
        it = self.it
        from interp import PyRaise
        if isinstance(x, PyList):
            items = list(x.items)
            if x.kind in ("nd2", "rows2") and name in REDUCE:
                return self.np_reduce(st, name, [o] + list(args), kw)
            if name == "append":
                loop = self.row_list(st, o)
                if loop is not None:
                    return loop.append(st, o, args[0])
                it.put(st, o, x.set(items=tuple(items + [args[0]])))
                return None
            if name == "extend":
                more = it.concrete_items(st, args[0])
                if more is None:
                    if not items:
                        a = self.as_arr(st, args[0])
                        y = it.get(st, a)
                        st.heap[o.id] = Arr("list", it.new(st, it.get(st, y.st)), y.length, None, None)
                        return None
                    raise NotUnderstood("extend by rows")
                it.put(st, o, x.set(items=tuple(items + more)))
                return None
            if name == "insert":
                p = it.poly(args[0])
                if p.is_const():
                    items.insert(int(p.cval()), args[1])
                    it.put(st, o, x.set(items=tuple(items)))
                    return None
            if name == "pop":
                p = it.poly(args[0]) if args else Poly.const(-1)
                if p.is_const():
                    try:
                        v = items.pop(int(p.cval()))
                    except IndexError:
                        raise PyRaise("IndexError", "pop")
                    it.put(st, o, x.set(items=tuple(items)))
                    return v
            if name == "remove":
                if args[0] in items:
                    items.remove(args[0])
                    it.put(st, o, x.set(items=tuple(items)))
                    return None
                raise PyRaise("ValueError", "remove")
            if name in ("tolist", "to_list", "copy", "to_numpy"):
                return it.new(st, x.set(kind=x.kind if x.kind != "columns" else "list"))
            if name == "index":
                return items.index(args[0])
            if name == "count":
                return items.count(args[0])
            if name == "clear":
                it.put(st, o, x.set(items=()))
                return None
            if name in ("union", "difference", "intersection") and x.kind in ("set", "columns"):
                other = it.concrete_items(st, args[0])
                r = {"union": items + [y for y in other if y not in items], "difference": [y for y in items if y not in other],
                     "intersection": [y for y in items if y in other]}[name]
                return it.new(st, x.set(items=tuple(r)))
            if name == "add" and x.kind == "set":
                if args[0] not in items:
                    it.put(st, o, x.set(items=tuple(items + [args[0]])))
                return None
            if name == "isin" and x.kind == "columns":
                raise NotUnderstood("columns.isin")
            raise NotUnderstood("list method " + name)
        # row lists
        if name == "append":
            loop = self.row_list(st, o)
            if loop is not None:
                return loop.append(st, o, args[0])
            r = self.concat_arrays(st, [o, it.new(st, PyList([args[0]]))], "list")
            st.heap[o.id] = it.get(st, r)
            return None
        if name == "extend":
            r = self.concat_arrays(st, [o, args[0]], "list")
            st.heap[o.id] = it.get(st, r)
            return None
        if name == "insert":
            p = it.poly(args[0])
            if p.is_zero():
                r = self.concat_arrays(st, [it.new(st, PyList([args[1]])), o], "list")
                st.heap[o.id] = it.get(st, r)
                return None
        if name == "copy":
            return it.arr(st, it.content(st, o), x.length, "list", None, None, it.dtype(st, o))
        raise NotUnderstood("list method " + name)

    def row_list(self, st, o):
        """the innermost row loop outside which this list was created."""
        it = self.it
        for l in reversed(it.loops):
            if o.id < l.born:
                return l
        return None

    def dict_meth(self, st, o, x, name, args, kw):
        it = self.it
        if name == "items":
            return it.new(st, PyList([(k, v) for k, v in x.items]))
        if name == "keys":
            return it.new(st, PyList([k for k, v in x.items]))
        if name == "values":
            return it.new(st, PyList([v for k, v in x.items]))
        if name == "get":
            i = it.find(st, x.items, args[0])
            if i is not None:
                return x.items[i][1]
            return args[1] if len(args) > 1 else None
        if name == "update":
            items = list(x.items)
            src = []
            if args:
                y = it.obj(st, args[0])
                src = list(y.items) if isinstance(y, PyDict) else [tuple(it.concrete_items(st, p)) for p in
                                                                  it.concrete_items(st, args[0])]
            for k, v in src + list(kw.items()):
                items = it.keyed(st, items, k, v)
            it.put(st, o, x.set(items=tuple(items)))
            return None
        if name == "setdefault":
            i = it.find(st, x.items, args[0])
            if i is not None:
                return x.items[i][1]
            v = args[1] if len(args) > 1 else None
            it.put(st, o, x.set(items=x.items + ((args[0], v),)))
            return v
        if name == "pop":
            i = it.find(st, x.items, args[0])
            if i is not None:
                it.put(st, o, x.set(items=tuple(x.items[:i] + x.items[i + 1:])))
                return x.items[i][1]
            if len(args) > 1:
                return args[1]
            raise PyRaise_("KeyError", "pop")
        if name == "copy":
            return it.new(st, x)
        raise NotUnderstood("dict method " + name)

    # ---- series / array methods
    def m_rolling(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("rolling", ("window", "min_periods", "center", "win_type"), args, kw, min_periods=None, center=False,
                     win_type=None, on=None, axis=0, closed=None, step=None, method="single")
        if b["win_type"] is not None or b["closed"] not in (None, "right", "left") or b["step"] not in (None, 1):
            raise NotUnderstood("rolling option")
        w = it.poly(b["window"], "window")
        m = w if b["min_periods"] is None else it.poly(b["min_periods"], "min_periods")
        if it.decide(w) is not True:
            it.event("bound", "rolling window negative", st, need=w, exc="ValueError")
        if m != w and it.decide(w - m) is not True:
            it.event("bound", "rolling min_periods greater than window", st, need=w - m, exc="ValueError")
        return Roll(o, w, m, "rolling", {"center": b["center"], "closed": b["closed"]})

    def m_expanding(self, st, o, x, args, kw):
        b = bindargs("expanding", ("min_periods",), args, kw, min_periods=1, axis=0, method="single")
        return Roll(o, None, self.it.poly(b["min_periods"]), "expanding", {})

    def m_ewm(self, st, o, x, args, kw):
        from interp import to_e
        it = self.it
        b = bindargs("ewm", ("com", "span", "halflife", "alpha", "min_periods", "adjust", "ignore_na"), args, kw, com=None,
                     span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, axis=0, times=None,
                     method="single")
        if b["alpha"] is not None:
            al = to_e(b["alpha"])
        elif b["span"] is not None:
            al = S.span_alpha(to_e(b["span"]))
        elif b["com"] is not None:
            al = X.div(L1, X.add(L1, to_e(b["com"])))
        elif b["halflife"] is not None:
            al = X.sub(L1, X.fn1("exp", X.div(X.neg(X.fn1("log", X.const(2))), to_e(b["halflife"]))))
        else:
            raise PyRaise_("ValueError", "ewm without decay")
        mp = b["min_periods"]
        return Ewm(o, al, ZERO if mp is None else it.poly(mp), self.concrete(b["adjust"]), self.concrete(b["ignore_na"]))

    def ewm_meth(self, st, r, name, args, kw):
        it = self.it
        x = it.get(st, r.arr)
        if name != "mean":
            if name in ("agg", "aggregate") and args and args[0] in ("mean",):
                pass
            else:
                raise NotUnderstood("ewm " + name)
        it.touch(st, x.length, "ewm")
        e = self.numc(st, r.arr)
        if r.adjust:
            v = self.ewm_adjusted(e, r.alpha, r.minp)
        else:
            v = S.ewm(e, r.alpha, r.minp)
        return it.arr(st, it.simp(v), x.length, "series", x.index, x.name)

    def ewm_adjusted(self, e, alpha, minp):
        s, interior = S.start(e)
        body = S.after(e, s)
        lev = max(body.level, alpha.level)
        u = Poly.atom(X.bound(lev))
        pv = leaf(Rat.atom(X.prev_atom(0)))
        q = X.sub(L1, alpha)
        from domain import mk_rec
        num = mk_rec(s + 1, [X.subst(body, {T.id: s})],
                                      [X.add(X.mul(q, pv), X.subst(body, {T.id: u}))], lev, [False])
        den = mk_rec(s + 1, [L1], [X.add(X.mul(q, pv), L1)], lev, [False])
        v = X.div(num, den)
        d = s + X.imax([minp, ONE]) - 1
        return X.row(TP - d, v, LNAN)

    def roll_meth(self, st, r, name, args, kw):
        it = self.it
        xo = it.obj(st, r.arr)
        if isinstance(xo, DF):
            cols = [(n, self.roll_meth(st, Roll(c, r.w, r.minp, r.kind, r.kw), name, args, kw)) for n, c in xo.cols]
            return it.new(st, DF(cols, xo.index, xo.length))
        x = it.get(st, r.arr)
        if name in ("agg", "aggregate"):
            f = args[0]
            if isinstance(f, str):
                return self.roll_meth(st, r, f, args[1:], kw)
            if isinstance(f, LibFn) and f.name.startswith(("numpy.", "builtins.")):
                nm = f.name.split(".")[-1]
                if nm in ("mean", "sum", "max", "min", "median"):
                    return self.roll_meth(st, r, nm, [], {})
            name = "apply"
        e = self.numc(st, r.arr)
        it.touch(st, x.length, "rolling " + name)
        w, m = r.w, r.minp
        if r.kind == "expanding":
            v = self.expanding(st, r, e, name, args, kw)
        elif name in ("mean", "sum", "max", "min", "count", "median"):
            if name == "count":
                v = X.window("count", e, w, m)
            else:
                v = X.window("q:1/2" if name == "median" else name, e, w, m)
        elif name == "quantile":
            b = bindargs(name, ("q",), args, kw, q=Fraction(1, 2), quantile=None, interpolation="linear", numeric_only=False)
            v = X.window(self.q_kind(b, "quantile"), e, w, m)
        elif name in ("std", "var"):
            b = bindargs(name, ("ddof",), args, kw, ddof=1, engine=None, engine_kwargs=None, numeric_only=False)
            v = X.window(name, e, w, m, int(it.poly(b["ddof"]).cval()))
        elif name == "apply":
            v = self.roll_apply(st, r, x, e, args, kw)
        else:
            raise NotUnderstood("rolling " + name)
        c = r.kw.get("center", False)
        if c is True:
            h = X.fn1("floor", leaf(Rat((w - 1).scale(Fraction(1, 2)), ONE)))
            k = h.v.n
            late = LNAN
            if m != w:
                # the windows of the last rows end with the series
                ss, interior = X.starts(e)
                if interior or ss is None or name not in ("mean", "sum", "max", "min") or not isinstance(x.length, Poly):
                    raise NotUnderstood("centred rolling with partial windows over a series with gaps")
                s = X.imax(ss) if ss else ZERO
                body = X.restrict_rows(e, [TP - s])
                a = X.imax([TP + k - w + 1, s])
                cnt = x.length - a
                late = X.agg("sum" if name == "mean" else name, body, a, x.length)
                if name == "mean":
                    late = X.div(late, leaf(Rat(cnt, ONE)))
                late = X.row(cnt - X.imax([m, ONE]), late, L0 if name == "sum" and m.is_zero() else LNAN)
            v = X.row(x.length - 1 - TP - k, X.shift_rows(v, -k), late)
            if r.kw.get("closed") == "left":
                raise NotUnderstood("centred rolling window closed on the left")
        elif r.kw.get("closed") == "left":
            # the w rows before this one
            if it.decide(m - 1) is not True and name not in ("sum", "mean", "min", "max", "std", "var"):
                raise NotUnderstood("rolling window closed on the left, empty windows")
            v = X.row(TP - 1, X.shift_rows(v, 1), X.row(m - 1, LNAN, L0) if name == "sum" else LNAN)
        elif c is not False:
            raise NotUnderstood("rolling center")
        return it.arr(st, it.simp(v), x.length, "series", x.index, x.name)

    def q_kind(self, b, key="q"):
        q = b.get("quantile") if b.get("quantile") is not None else b["q"]
        if b.get("interpolation") not in ("linear", None) or b.get("method") not in ("linear", None):
            raise NotUnderstood("quantile interpolation")
        from interp import to_e, is_num
        e = to_e(q) if is_num(q) else None
        if e is None or not e.leaf or not isinstance(e.v, Rat) or not e.v.is_const() or not 0 <= e.v.cval() <= 1:
            raise NotUnderstood("quantile")
        return "q:" + str(Fraction(e.v.cval()))

    def m_quantile(self, st, o, x, args, kw):
        b = bindargs("quantile", ("q",), args, kw, q=Fraction(1, 2), interpolation="linear")
        return self.reduce(st, o, self.q_kind(b), True)

    def expanding(self, st, r, e, name, args, kw):
        s, interior = S.start(e)
        body = S.after(e, s)
        m = r.minp
        if name in ("max", "min"):
            v = S.cumext(name, e)
        elif name == "sum":
            v = S.cumsum(e)
        elif name == "mean":
            v = X.row(TP - s, X.div(X.agg("sum", body, s, TP + 1), leaf(Rat(TP + 1 - s, ONE))), LNAN)
        elif name == "count":
            v = X.row(TP - s, leaf(Rat(TP + 1 - s, ONE)), L0)
        elif name in ("std", "var"):
            b = bindargs(name, ("ddof",), args, kw, ddof=1)
            q = X._var(body, s, TP + 1, int(self.it.poly(b["ddof"]).cval()))
            v = X.row(TP - s, X.fn1("sqrt", q) if name == "std" else q, LNAN)
        else:
            if name == "apply" and self.it.is_rows(self.it.get(st, r.arr).length):
                self.it.event("nested", "expanding.apply hands a Python function all earlier rows, once per row", st)
            raise NotUnderstood("expanding " + name)
        if self.it.decide(m - 2) is False:
            return v
        return X.row(TP - s - m + 1, v, LNAN)

    _rowno = 0

    def roll_apply(self, st, r, x, e, args, kw):
        from interp import to_e, is_num, NeedSplit, numify, opq
        it = self.it
        b = bindargs("apply", ("func", "raw"), args, kw, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None)
        fn = b["func"]
        if it.is_rows(x.length):
            if isinstance(fn, HostFn):
                pass
            elif not isinstance(fn, LibFn):
                it.event("perrow", "a Python function is called once per window", st)
            else:
                it.event("perrow", "rolling.apply calls %s once per window" % fn.name, st)
        raw = self.concrete(b["raw"])
        w, m = r.w, r.minp
        ss, interior = X.starts(e)
        if ss is None:
            raise NotUnderstood("rolling.apply over a series whose first defined row is unknown")
        self_sym = X.sym("r%d" % len(it.loops), "row", 0)
        R = Poly.atom(self_sym)

        def run(lo, facts):
            body = X.restrict_rows(e, [TP - s for s in ss]) if not interior or True else e
            n = R + 1 - lo
            win = X.subst(body, {T.id: TP + lo})
            saved = it.ctx, it.inrow
            it.ctx = list(it.ctx) + facts
            it.inrow += 1
            try:
                a = it.arr(st, X.restrict_rows(win, [n - 1 - TP] + it.ctx), n, "ndarray" if raw is True else "series",
                           None if raw is True else ("part", x.index, "window"), None, "float")
                before = it.get(st, it.get(st, a).st)
                v = it.call(st, fn, [a] + (list(b["args"]) if b["args"] else []), {})
                after = it.get(st, it.get(st, a).st)
            finally:
                it.ctx, it.inrow = saved
            if after is not before and it.dtype(st, r.arr) in ("float", "num") and isinstance(it.obj(st, r.arr), Arr):
                # the window is a view of the rolled series: what the callback stores there stays there, and the
                # windows that follow see it
                it.mutated(st, r.arr)
                if after.e is before.e and after.loop is None and after.cur is None:
                    return X.subst(numify(to_e(v)), {self_sym.id: TP}) if is_num(v) else opq("window callback")
                it.havoc_ref(st, r.arr, "window callback")
                return opq("a window callback that changes the data of later windows")
            if isinstance(v, Opaque):
                return opq(v.why)
            if it.is_arr(st, v):
                raise NotUnderstood("rolling.apply result is an array")
            if not is_num(v):
                raise NotUnderstood("rolling.apply result")
            return X.subst(numify(to_e(v)), {self_sym.id: TP})
        s = X.imax(ss) if ss else ZERO
        lo = R - w + 1
        full = run(lo, [lo - s])
        if m == w:
            return X.prune(X.row(TP - w + 1 - s, full, LNAN))
        # partial windows start at the first row of the series
        if not s.is_zero():
            raise NotUnderstood("rolling.apply with partial windows over a series with a leading gap")
        mm = X.imax([m, ONE])
        early = run(ZERO, [w - 2 - R, R - mm + 1])
        return X.prune(X.row(TP - w + 1, full, X.row(TP - mm + 1, early, LNAN)))

    def m_shift(self, st, o, x, args, kw):
        from interp import to_e, is_num, numify, boolish
        it = self.it
        b = bindargs("shift", ("periods", "freq", "axis", "fill_value"), args, kw, periods=1, freq=None, axis=0, fill_value=None)
        if b["freq"] is not None:
            raise NotUnderstood("shift by frequency")
        k = it.poly(b["periods"], "shift")
        fv = b["fill_value"]
        e = it.content(st, o)
        dt = it.dtype(st, o)
        if fv is None:
            f = LNAN
            dt = "obj" if dt == "bool" else "float"
        elif is_num(fv):
            f = to_e(fv)
            if not (boolish(e) and boolish(f)):
                f = numify(f)
        elif isinstance(fv, Opaque):
            from interp import opq
            f = opq(fv.why)
        else:
            raise NotUnderstood("shift fill")
        it.touch(st, x.length, "shift")
        if it.decide(k) is not True and it.decide(-k) is not True:
            from interp import NeedSplit
            raise NeedSplit(k)
        kk = k
        if it.decide(kk) is True:
            r = S.from_row(kk, X.shift_rows(e, kk), f) if not kk.is_zero() else e
            if x.length != NP_:
                pass
        else:
            r = X.row(x.length - 1 - TP + kk, X.shift_rows(e, kk), f)
        return it.arr(st, it.simp(r), x.length, "series", x.index, x.name, dt)

    def m_diff(self, st, o, x, args, kw):
        b = bindargs("diff", ("periods",), args, kw, periods=1)
        sh = self.m_shift(st, o, x, [b["periods"]], {})
        return self.elementwise(st, "-", o, sh)

    def m_pct_change(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("pct_change", ("periods", "fill_method", "limit", "freq"), args, kw, periods=1, fill_method="pad",
                     limit=None, freq=None, fill_value=None)
        if b["freq"] is not None or b["limit"] is not None:
            raise NotUnderstood("pct_change option")
        src = o
        if b["fill_method"] in ("pad", "ffill"):
            e = it.content(st, o)
            f = it.simp(S.ffill(e))
            if f is not e:
                src = it.arr(st, f, x.length, "series", x.index, x.name, it.dtype(st, o))
        sh = self.m_shift(st, src, it.get(st, src), [b["periods"]], {})
        return self.elementwise(st, "-", self.elementwise(st, "/", src, sh), 1)

    def m_where(self, st, o, x, args, kw):
        b = bindargs("where", ("cond", "other"), args, kw, other=FNAN, inplace=False, axis=None, level=None)
        return self.where_any(st, o, b, False)

    def m_mask(self, st, o, x, args, kw):
        b = bindargs("mask", ("cond", "other"), args, kw, other=FNAN, inplace=False, axis=None, level=None)
        return self.where_any(st, o, b, True)

    def where_any(self, st, o, b, inv):
        it = self.it
        c = b["cond"]
        if isinstance(c, (Func,)):
            c = it.call(st, c, [o], {})
        oth = b["other"]
        if isinstance(oth, Func):
            oth = it.call(st, oth, [o], {})
        r = self.where_(st, o, c, oth, inv)
        r = self.like(st, r, o)
        return self.inplace_(st, o, r, b["inplace"])

    def like(self, st, r, o):
        """result keeps the labels and name of o."""
        it = self.it
        x, y = it.get(st, o), it.get(st, r)
        return it.new(st, y.set(kind=x.kind, index=x.index, name=x.name))

    def inplace_(self, st, o, r, flag):
        it = self.it
        if flag is True:
            x = it.get(st, o)
            it.mutated(st, o)
            s = it.get(st, it.get(st, r).st)
            old = it.get(st, x.st)
            st.heap[x.st.id] = old.set(e=s.e, dtype=s.dtype)
            return None
        return r

    def m_abs(self, st, o, x, args, kw):
        return self.f_builtins_abs(st, [o], {})

    def m_copy(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("copy", ("deep",), args, kw, deep=True, order=None)
        if b["deep"] is False:
            return it.new(st, Arr(x.kind, x.st, x.length, x.index, x.name))
        s = it.get(st, x.st)
        it.touch(st, x.length, "copy")
        return it.new(st, Arr(x.kind, it.new(st, Stor(it.content(st, o), None, s.dtype)), x.length, x.index, x.name))

    m___copy__ = m_copy
    m___deepcopy__ = m_copy

    def m_replace(self, st, o, x, args, kw):
        from interp import to_e, is_num, numify
        it = self.it
        b = bindargs("replace", ("to_replace", "value"), args, kw, value=None, inplace=False, limit=None, regex=False, method=None)
        tr = b["to_replace"]
        to = it.obj(st, tr)
        pairs = None
        if isinstance(to, PyDict):
            pairs = list(to.items)
        else:
            keys = it.concrete_items(st, tr) if not is_num(tr) else [tr]
            if keys is None:
                raise NotUnderstood("replace")
            vals = it.concrete_items(st, b["value"]) if isinstance(it.obj(st, b["value"]), PyList) else [b["value"]] * len(keys)
            pairs = list(zip(keys, vals))
        e = numify(it.content(st, o))
        inf = [v for k, v in pairs if k is FINF]
        ninf = [v for k, v in pairs if k is FNINF]
        rest = [(k, v) for k, v in pairs if k is not FINF and k is not FNINF]
        if inf or ninf:
            if not (inf and ninf) or inf[0] is not ninf[0] and inf[0] != ninf[0]:
                from interp import opq
                for k, plus in ((inf, True), (ninf, False)):
                    if k and (k[0] is FNAN or k[0] is None):
                        e = X.clean_half(e, plus)
                    elif k:
                        e = X.ite(self.isinf_e(e), opq("one infinity replaced"), e)
            elif inf[0] is FNAN or inf[0] is None:
                e = X.clean(e)
            else:
                c = self.isinf_e(e)
                e = X.ite(c, to_e(inf[0]), e)
        r = e
        for k, v in rest:
            ve = LNAN if v is None else to_e(v)
            if k is FNAN or k is None:
                c = X.isna(e)
            elif is_num(k):
                c = X.compare("==", e, to_e(k))
            else:
                raise NotUnderstood("replace value")
            r = X.ite(c, ve, r)
        it.touch(st, x.length, "replace")
        res = self.new_series_like(st, o, r, it.dtype(st, o))
        return self.inplace_(st, o, res, b["inplace"])

    def m_ffill(self, st, o, x, args, kw):
        b = bindargs("ffill", (), args, kw, inplace=False, axis=None, limit=None, limit_area=None, downcast=None)
        self.it.touch(st, x.length, "ffill")
        if b["limit_area"] is not None:
            raise NotUnderstood("limit_area")
        if b["limit"] is not None:
            e = self.numc(st, o)
            e = S.fill_limited(e, S.ffill(e), self.it.poly(b["limit"]), False, x.length)
            return self.inplace_(st, o, self.new_series_like(st, o, self.it.simp(e), self.it.dtype(st, o)), b["inplace"])
        return self.inplace_(st, o, self.new_series_like(st, o, S.ffill(self.numc(st, o)), self.it.dtype(st, o)), b["inplace"])

    m_pad = m_ffill

    def m_bfill(self, st, o, x, args, kw):
        b = bindargs("bfill", (), args, kw, inplace=False, axis=None, limit=None, limit_area=None, downcast=None)
        self.it.touch(st, x.length, "bfill")
        if b["limit_area"] is not None:
            raise NotUnderstood("limit_area")
        if b["limit"] is not None:
            e = self.numc(st, o)
            e = S.fill_limited(e, S.bfill(e, x.length), self.it.poly(b["limit"]), True, x.length)
            return self.inplace_(st, o, self.new_series_like(st, o, self.it.simp(e), self.it.dtype(st, o)), b["inplace"])
        return self.inplace_(st, o, self.new_series_like(st, o, S.bfill(self.numc(st, o), x.length), self.it.dtype(st, o)), b["inplace"])

    m_backfill = m_bfill

    def m_fillna(self, st, o, x, args, kw):
        from interp import is_num, to_e, numify, boolish
        it = self.it
        b = bindargs("fillna", ("value", "method"), args, kw, value=None, method=None, axis=None, inplace=False, limit=None,
                     downcast=None)
        if b["limit"] is not None and (b["method"] is None or b["inplace"] is not False):
            raise NotUnderstood("fillna limit")
        if b["method"] is not None:
            nm = {"ffill": "ffill", "pad": "ffill", "bfill": "bfill", "backfill": "bfill"}.get(b["method"])
            return self.call_meth(st, o, nm, [], {"inplace": b["inplace"], "limit": b["limit"]})
        v = b["value"]
        if isinstance(v, Opaque):
            from interp import opq
            v = Num(opq(v.why), "float")
        if isinstance(it.obj(st, v), PyDict):
            raise NotUnderstood("fillna dict")

        def f(e, y):
            if not (boolish(e) and boolish(y)):
                e, y = numify(e), numify(y)
            return X.fillna(e, y)
        r = self.ew(st, f, (o, v), it.dtype(st, o), "fillna", numeric=False)
        return self.inplace_(st, o, self.like(st, r, o), b["inplace"])

    def m_combine_first(self, st, o, x, args, kw):
        return self.m_fillna(st, o, x, args, kw)

    def m_isna(self, st, o, x, args, kw):
        return self.it.map1(st, o, X.isna, "isna", "bool")

    m_isnull = m_isna

    def m_notna(self, st, o, x, args, kw):
        return self.it.map1(st, o, lambda e: X.b_not(X.isna(e)), "notna", "bool")

    m_notnull = m_notna

    def m_cumsum(self, st, o, x, args, kw):
        it = self.it
        it.touch(st, x.length, "cumsum")
        if x.kind == "ndarray":
            return self.call_np(st, "cumsum", [o], {})
        e = self.numc(st, o)
        return self.new_series_like(st, o, S.cumsum(e), it.dtype(st, o) if it.dtype(st, o) != "bool" else "int")

    def m_cumprod(self, st, o, x, args, kw):
        self.it.touch(st, x.length, "cumprod")
        return self.new_series_like(st, o, S.cumprod(self.numc(st, o)), self.it.dtype(st, o))

    def m_cummax(self, st, o, x, args, kw):
        self.it.touch(st, x.length, "cummax")
        return self.new_series_like(st, o, S.cumext("max", self.numc(st, o)), self.it.dtype(st, o))

    def m_cummin(self, st, o, x, args, kw):
        self.it.touch(st, x.length, "cummin")
        return self.new_series_like(st, o, S.cumext("min", self.numc(st, o)), self.it.dtype(st, o))

    def red(kind):
        def m(self, st, o, x, args, kw):
            if kind in ("std", "var"):
                b = bindargs(kind, ("axis", "skipna", "level", "ddof"), args, kw, axis=None, skipna=True,
                             ddof=1 if x.kind == "series" else 0, level=None, dtype=None, keepdims=False, numeric_only=False)
                return self.reduce(st, o, kind, b["skipna"] is not False and x.kind == "series", b["ddof"])
            b = bindargs(kind, ("axis",), args, kw, axis=None, skipna=True, min_count=0, dtype=None, keepdims=False,
                         numeric_only=False)
            return self.reduce(st, o, kind, b["skipna"] is not False and x.kind == "series")
        return m

    for _k in REDUCE:
        locals()["m_" + _k] = red(_k)
    del _k

    def m_idxmax(self, st, o, x, args, kw):
        self.label_event(st, x, "label of the extreme")
        return Opaque("idxmax")

    m_idxmin = m_idxmax

    def m_first_valid_index(self, st, o, x, args, kw):
        from interp import LabelV, IndexLabel
        if x.kind != "series":
            raise PyRaise_("AttributeError", "first_valid_index")
        e = self.numc(st, o)
        s, interior = S.start(e)
        d = self.it.decide(x.length - s - 1)
        if d is None:
            from interp import NeedSplit
            raise NeedSplit(x.length - s - 1)
        return IndexLabel(x.index, s, st, self.it) if d else None

    def m_last_valid_index(self, st, o, x, args, kw):
        from interp import IndexLabel
        if x.kind != "series":
            raise PyRaise_("AttributeError", "last_valid_index")
        e = self.numc(st, o)
        s, interior = S.start(e)
        if interior:
            raise NotUnderstood("last_valid_index of a series with inner gaps")
        d = self.it.decide(x.length - s - 1)
        if d is None:
            from interp import NeedSplit
            raise NeedSplit(x.length - s - 1)
        return IndexLabel(x.index, x.length - 1, st, self.it) if d else None

    def m_anyall(self, st, o, name):
        it = self.it
        from interp import from_e
        x = it.get(st, o)
        e = self.cond(it.content(st, o))
        if e.leaf:
            return bool(e.v)
        # an uninterpreted truth of the whole series
        body = X.ite(e, L1, L0)
        r = X.compare(">=" if name == "all" else ">", X.agg("min" if name == "all" else "max", body, ZERO, x.length), L1 if
                      name == "all" else L0)
        return from_e(r, "bool")

    def m_any(self, st, o, x, args, kw):
        return self.m_anyall(st, o, "any")

    def m_all(self, st, o, x, args, kw):
        return self.m_anyall(st, o, "all")

    def m_apply(self, st, o, x, args, kw):
        from interp import from_e, to_e, is_num, numify, opq
        it = self.it
        b = bindargs("apply", ("func",), args, kw, convert_dtype=None, args=(), by_row=None)
        f = b["func"]
        if isinstance(f, LibFn) and f.name.startswith("numpy.") and f.name.split(".")[-1] not in REDUCE:
            return self.call_fn(st, f.name, [o], {})
        if it.is_rows(x.length):
            it.event("perrow", "a Python function is called once per row", st)
        if isinstance(f, str):
            return self.call_meth(st, o, f, [], {})
        it.touch(st, x.length, "apply")
        e = it.content(st, o)
        saved = it.inrow
        it.inrow += 1
        try:
            dt = it.dtype(st, o)
            v = it.call(st, f, [from_e(e, {"int": "int", "bool": "bool"}.get(dt, "float"))] + list(b["args"]), {})
        finally:
            it.inrow = saved
        if isinstance(v, Opaque):
            return self.new_series_like(st, o, opq(v.why))
        if v is None:
            v = FNAN
        if not is_num(v):
            raise NotUnderstood("apply result")
        from interp import ntype
        return self.new_series_like(st, o, to_e(v), ntype(v))

    def m_map(self, st, o, x, args, kw):
        it = self.it
        d = it.obj(st, args[0])
        if isinstance(d, PyDict):
            from interp import to_e, is_num, numify, boolish
            e = it.content(st, o)
            r = LNAN
            for k, v in d.items:
                if isinstance(k, bool) and boolish(e):
                    c = e if k else X.b_not(e)
                else:
                    c = X.compare("==", numify(e), to_e(k))
                r = X.ite(c, numify(to_e(v)), r)
            return self.new_series_like(st, o, r)
        return self.m_apply(st, o, x, [args[0]], {})

    m_transform = m_apply

    def m_pipe(self, st, o, x, args, kw):
        return self.it.call(st, args[0], [o] + list(args[1:]), kw)

    def m_combine(self, st, o, x, args, kw):
        from interp import from_e, to_e, is_num, numify
        it = self.it
        b = bindargs("combine", ("other", "func", "fill_value"), args, kw, fill_value=None)
        if it.is_rows(x.length):
            it.event("perrow", "Series.combine calls a Python function once per row", st)
        oth = b["other"]
        f = b["func"]
        if isinstance(f, LibFn) and f.name in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum", "numpy.fmax",
                                               "numpy.fmin"):
            pass
        if it.is_arr(st, oth):
            self.merge_index(st, [x, it.get(st, oth)], "combine")
            e2 = it.content(st, oth)
        else:
            e2 = to_e(oth)
        v = it.call(st, f, [from_e(it.content(st, o), "float"), from_e(e2, "float")], {})
        if not is_num(v):
            raise NotUnderstood("combine result")
        return self.new_series_like(st, o, to_e(v))

    def m_clip(self, st, o, x, args, kw):
        b = bindargs("clip", ("lower", "upper"), args, kw, lower=None, upper=None, axis=None, inplace=False, min=None, max=None)
        lo = b["lower"] if b["lower"] is not None else b["min"]
        hi = b["upper"] if b["upper"] is not None else b["max"]
        r = self.clip(st, o, lo, hi)
        if r == o:
            return self.m_copy(st, o, x, [], {})
        return self.inplace_(st, o, self.like(st, r, o), b["inplace"])

    def m_between(self, st, o, x, args, kw):
        b = bindargs("between", ("left", "right", "inclusive"), args, kw, inclusive="both")
        inc = b["inclusive"]
        l = self.elementwise(st, ">=" if inc in ("both", "left") else ">", o, b["left"])
        r = self.elementwise(st, "<=" if inc in ("both", "right") else "<", o, b["right"])
        return self.elementwise(st, "&", l, r)

    def m_astype(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("astype", ("dtype",), args, kw, copy=True, errors=None)
        s = it.get(st, x.st)
        dt = self.dtype_of(b["dtype"])
        it.touch(st, x.length, "astype")
        e = self.cast_e(st, it.content(st, o), s.dtype, dt)
        origin = s.origin if b["copy"] is False else None
        return it.arr(st, it.simp(e), x.length, x.kind, x.index, x.name, dt, origin)

    def m_to_numpy(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("to_numpy", ("dtype", "copy"), args, kw, dtype=None, copy=False, na_value=None)
        if b["na_value"] is not None:
            raise NotUnderstood("na_value")
        a = it.new(st, Arr("ndarray", x.st, x.length))
        return self.np_array(st, a, b["dtype"], b["copy"] is True)

    def m_tolist(self, st, o, x, args, kw):
        it = self.it
        it.touch(st, x.length, "tolist")
        return it.arr(st, it.content(st, o), x.length, "list", None, None, it.dtype(st, o))

    m_to_list = m_tolist

    def m_dropna(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("dropna", (), args, kw, inplace=False, axis=0, how=None, ignore_index=False)
        if is_kept(x.index):
            m = it.arr(st, X.b_not(X.isna(it.rowwise(st, o))), x.length, "series", x.index, None, "bool")
            return self.compress(st, o, x, m)
        e = it.content(st, o)
        it.touch(st, x.length, "dropna")
        seen = X.restrict_rows(e, X._ctx_norm(list(it.ctx) + [x.length - 1 - TP, TP]))
        if all(l.v is X.NAN for l in X.leaves(seen)):
            s, interior = x.length, False
        else:
            s, interior = S.start(seen)
        if interior:
            c = X.b_not(X.isna(e))
            m = it.arr(st, c, x.length, "series", x.index, None, "bool")
            return self.compress(st, o, x, m)
        d = it.decide(x.length - s)
        if d is None:
            from interp import NeedSplit
            raise NeedSplit(x.length - s)
        n = x.length - s if d else ZERO
        r = S.after(e, s)
        r = X.shift_rows(r, -s)
        tok = x.index if s.is_zero() else self.part_token(x.index, s, x.length)
        if b["ignore_index"] is True:
            tok = RANGE
        new = it.arr(st, it.simp(X.prune(r)), n, "series", tok, x.name, it.dtype(st, o))
        if b["inplace"] is True:
            it.mutated(st, o)
            st.heap[o.id] = it.get(st, new)
            return None
        return new

    def m_reset_index(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("reset_index", ("level",), args, kw, level=None, drop=False, name=None, inplace=False)
        if b["drop"] is not True:
            raise NotUnderstood("reset_index without drop")
        s = it.get(st, x.st)
        r = it.new(st, Arr("series", it.new(st, s.set(origin=None)), x.length, self.renumber(x.index), x.name))
        if b["inplace"] is True:
            if s.origin:
                it.event("mutate", "replaces the labels of the caller's series", st)
            st.heap[o.id] = it.get(st, r)
            return None
        return r

    def m_set_axis(self, st, o, x, args, kw):
        it = self.it
        tok = self.index_token(st, args[0] if args else kw.get("labels"), x.length)
        if kw.get("copy") is False:
            return it.new(st, Arr(x.kind, x.st, x.length, tok, x.name))
        return it.new(st, Arr(x.kind, it.new(st, it.get(st, x.st).set(origin=None)), x.length, tok, x.name))

    def m_reindex(self, st, o, x, args, kw):
        it = self.it
        ix = args[0] if args else kw.get("index")
        if isinstance(ix, IndexV) and ix.token == x.index:
            return self.m_copy(st, o, x, [], {})
        if isinstance(ix, IndexV) and len(args) <= 1 and set(kw) <= {"index"}:
            r = self.spread(st, o, ix.token, ix.length)
            if r is not None:
                return r
        self.it.event("label", "reindexes by label", st)
        if LABELS is not None and isinstance(ix, IndexV) and len(args) <= 1 and not any(
                kw.get(q) is not None for q in kw if q not in ("index", "copy", "fill_value")) and "fill_value" not in kw and ix.token == INPUT and x.kind == "series":
            e = it.content(st, o)
            dt = it.dtype(st, o)
            e = None if dt == "bool" else e
            if e is not None and x.index == ("sorted", INPUT):
                e = it.simp(X.subst(e, {T.id: x.length - 1 - TP})) if LABELS in ("reversed", "text") else e
                return it.arr(st, e, ix.length, "series", ix.token, x.name, dt)
            if e is not None and x.index == RANGE and LABELS != "floats":
                p = {"range": TP, "offset": TP + 5, "reversed": ix.length - 1 - TP}.get(LABELS)
                e = LNAN if p is None else X.row(p, X.row(x.length - 1 - p, X.subst(e, {T.id: p}), LNAN), LNAN)
                return it.arr(st, it.simp(e), ix.length, "series", ix.token, x.name, "float" if LABELS != "range" else dt)
        if isinstance(ix, IndexV) and isinstance(x.index, tuple) and x.index[0] == "part" and x.index[1] == ix.token:
            raise NotUnderstood("reindex of a part")
        raise NotUnderstood("reindex")

    def m_rename(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("rename", ("index",), args, kw, index=None, copy=None, inplace=False)
        s = it.get(st, x.st)
        if b["inplace"] is True:
            if it.is_caller_object(st, o):
                it.event("mutate", "renames the caller's series", st)
            st.heap[o.id] = x.set(name=b["index"])
            return None
        if b["copy"] is False:
            return it.new(st, Arr(x.kind, x.st, x.length, x.index, b["index"]))
        return it.new(st, Arr(x.kind, it.new(st, s.set(origin=None)), x.length, x.index, b["index"]))

    def m_get(self, st, o, x, args, kw):
        """value under a label, or the default when there is no such label."""
        from interp import LabelV, PyRaise, is_num, numify
        it = self.it
        b = bindargs("get", ("key", "default"), args, kw, default=None)
        k, d = b["key"], b["default"]
        if isinstance(k, LabelV) or x.kind != "series":
            return self.getitem(st, o, k)
        if isinstance(k, (str, StrV)):
            return d
        if not is_num(k):
            raise NotUnderstood("get")
        p = it.poly(k)
        if x.index != RANGE:
            self.label_event(st, x, "selects the row labelled %s" % X.show_idx(p))
            try:
                p = self.label_pos(p, x.length, True)
            except PyRaise:
                return d
        last = x.length - 1 - p
        if it.decide(p) is False or it.decide(last) is False:
            return d
        if it.decide(p) is True and it.decide(last) is True:
            return it.read(st, o, p)
        if d is None or not is_num(d) or it.get(st, x.st).loop is not None:
            raise NotUnderstood("get of a row that may not exist")
        from interp import to_e, from_e
        v = to_e(d)
        e = X.row(p, X.row(last, X.subst(it.content(st, o), {T.id: p}), v), v)
        return from_e(it.simp(e), it.dtype(st, o))

    def m_to_frame(self, st, o, x, args, kw):
        it = self.it
        nm = args[0] if args else kw.get("name", x.name if x.name is not None else 0)
        return it.new(st, DF([(nm, it.new(st, x.set(name=nm)))], x.index, x.length))

    def m_round(self, st, o, x, args, kw):
        k = args[0] if args else kw.get("decimals", 0)
        return self.it.map1(st, o, lambda e: self.opaque_fn("round%s" % k, e), "round")

    def m_head(self, st, o, x, args, kw):
        return self.slice(st, o, x, SliceV(None, args[0] if args else 5, None))

    def m_tail(self, st, o, x, args, kw):
        n = self.it.poly(args[0] if args else 5)
        return self.slice(st, o, x, SliceV(self.num(x.length - n), None, None))

    def m_items(self, st, o, x, args, kw):
        return IterV("items", [o])

    m_iteritems = m_items

    def m_item(self, st, o, x, args, kw):
        return self.it.read(st, o, ZERO)

    def m_fill(self, st, o, x, args, kw):
        return self.slice_set(st, o, x, SliceV(None, None, None), args[0])

    def m_flatten(self, st, o, x, args, kw):
        return self.m_copy(st, o, x, [], {})

    def m_ravel(self, st, o, x, args, kw):
        return o

    def m_squeeze(self, st, o, x, args, kw):
        return o

    def m_reshape(self, st, o, x, args, kw):
        if list(args) in ([-1], [(-1,)]):
            return o
        return AliasV("reshaped array", o)

    def m_dot(self, st, o, x, args, kw):
        return self.call_np(st, "dot", [o, args[0]], {})

    def m_equals(self, st, o, x, args, kw):
        return Opaque("equals")

    def m_nunique(self, st, o, x, args, kw):
        return Opaque("nunique")

    def m_sort_index(self, st, o, x, args, kw):
        it = self.it
        it.event("label", "sorts by label", st)
        if LABELS is not None and not args and not kw and x.kind == "series" and x.index in (INPUT, ("sorted", INPUT)):
            if x.index != INPUT or LABELS not in ("reversed", "text"):
                return self.m_copy(st, o, x, [], {})
            e = it.simp(X.subst(it.content(st, o), {T.id: x.length - 1 - TP}))
            return it.arr(st, e, x.length, "series", ("sorted", INPUT), x.name, it.dtype(st, o))
        raise NotUnderstood("sort_index")

    def m_sort_values(self, st, o, x, args, kw):
        raise NotUnderstood("sort_values")

    def m_interpolate(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("interpolate", ("method",), args, kw, method="linear", axis=0, limit=None, inplace=False,
                     limit_direction="forward", limit_area=None, downcast=None)
        if b["method"] != "linear" or b["limit"] is not None or b["limit_direction"] != "forward" or b["limit_area"] is not None:
            raise NotUnderstood("interpolate option")
        it.touch(st, x.length, "interpolate")
        e = self.numc(st, o)
        pos = X.ite(X.isna(e), LNAN, leaf(Rat(TP, ONE)))
        f, g, p, q = S.ffill(e), S.bfill(e, x.length), S.ffill(pos), S.bfill(pos, x.length)
        mid = X.add(f, X.div(X.mul(X.sub(g, f), X.sub(leaf(Rat(TP, ONE)), p)), X.sub(q, p)))
        r = X.ite(X.isna(e), X.ite(X.isna(g), f, X.ite(X.isna(f), LNAN, mid)), e)
        return self.inplace_(st, o, self.new_series_like(st, o, it.simp(r), "float"), b["inplace"])

    def m_update(self, st, o, x, args, kw):
        it = self.it
        it.mutated(st, o)
        v = args[0]
        r = self.ew(st, lambda e, y: X.fillna(y, e), (o, v), it.dtype(st, o), "update")
        return self.inplace_(st, o, r, True)

    def m_drop(self, st, o, x, args, kw):
        self.it.event("label", "drops rows by label", st)
        raise NotUnderstood("drop")

    def m_groupby(self, st, o, x, args, kw):
        raise NotUnderstood("groupby")

    def m_infer_objects(self, st, o, x, args, kw):
        if False in args or kw.get("copy") is False:
            return self.it.new(st, Arr(x.kind, x.st, x.length, x.index, x.name))
        return self.m_copy(st, o, x, [], {})

    def m_set_flags(self, st, o, x, args, kw):
        return o

    # ---- table methods
    def d_axis(self, args, kw, name):
        b = bindargs(name, ("axis", "skipna"), args, kw, axis=0, skipna=True, numeric_only=False, min_count=0)
        if b["axis"] not in (1, "columns"):
            raise NotUnderstood("column reduction")
        return self.concrete(b["skipna"])

    def rowred(nm):
        def d(self, st, o, x, args, kw):
            skip = self.d_axis(args, kw, nm)
            r = self.across(st, [c for _, c in x.cols], nm, bool(skip), "series")
            y = self.it.get(st, r)
            return self.it.new(st, y.set(name=None))
        return d

    for _k in ("max", "min", "sum", "mean"):
        locals()["d_" + _k] = rowred(_k)
    del _k

    def d_copy(self, st, o, x, args, kw):
        it = self.it
        deep = kw.get("deep", args[0] if args else True)
        cols = []
        for n, c in x.cols:
            y = it.get(st, c)
            s = it.get(st, y.st)
            cols.append((n, it.new(st, y.set(st=y.st if deep is False else it.new(st, s.set(origin=None))))))
        return it.new(st, DF(cols, x.index, x.length))

    def d_select_dtypes(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("select_dtypes", ("include", "exclude"), args, kw, include=None, exclude=None)

        def kinds(v):
            if v is None:
                return None
            vs = v if isinstance(v, tuple) else (it.concrete_items(st, v) if isinstance(it.obj(st, v), PyList) else [v])
            out = set()
            for q in vs:
                if isinstance(q, LibFn):
                    q = q.name.split(".")[-1]
                q = str(q)
                if q in ("number", "numeric"):
                    out |= {"float", "int", "num"}
                elif q.startswith("float"):
                    out |= {"float"}
                elif q.startswith("int"):
                    out |= {"int"}
                elif q.startswith("bool"):
                    out |= {"bool"}
                elif q in ("object", "O"):
                    out |= {"obj"}
                elif q in ("floating",):
                    out |= {"float"}
                elif q in ("integer",):
                    out |= {"int"}
                else:
                    raise NotUnderstood("dtype selector " + q)
            return out
        inc, exc = kinds(b["include"]), kinds(b["exclude"])
        cols = []
        for n, c in x.cols:
            d = it.dtype(st, c)
            if (inc is None or d in inc) and (exc is None or d not in exc):
                cols.append((n, c))
        return it.new(st, DF(cols, x.index, x.length))

    def d_dropna(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("dropna", (), args, kw, axis=0, how="any", thresh=None, subset=None, inplace=False, ignore_index=False)
        if b["axis"] not in (0, "index"):
            raise NotUnderstood("dropna option")
        cols = x.cols
        if b["subset"] is not None:
            names = it.concrete_items(st, b["subset"]) or [b["subset"]]
            cols = [(n, c) for n, c in cols if n in names]
        acc = LF if b["how"] == "any" else LT
        for n, c in cols:
            na = X.isna(it.rowwise(st, c))
            acc = X.b_or(acc, na) if b["how"] == "any" else X.b_and(acc, na)
        acc = X.b_not(acc)
        if b["thresh"] is not None:
            cnt = L0
            for n, c in cols:
                cnt = X.add(cnt, X.ite(X.isna(it.rowwise(st, c)), L0, L1))
            acc = X.compare(">=", cnt, leaf(Rat(it.poly(b["thresh"]), ONE)))
        r = self.df_filter(st, x, acc)
        if b["ignore_index"] is True:
            r = self.d_reset_index(st, r, it.get(st, r), [], {"drop": True})
        if b["inplace"] is True:
            if x.origin:
                it.event("mutate", "drops rows of the caller's table", st)
            st.heap[o.id] = it.get(st, r)
            return None
        return r

    def d_drop(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("drop", ("labels", "axis", "index", "columns", "level", "inplace"), args, kw, labels=None, axis=0,
                     columns=None, index=None, inplace=False, errors="raise", level=None)
        c = b["columns"] if b["columns"] is not None else (b["labels"] if b["axis"] in (1, "columns") else None)
        if c is None:
            raise NotUnderstood("drop rows")
        names = [c] if isinstance(c, (str, StrV)) else it.concrete_items(st, c)
        if b["inplace"] is True:
            self.df_drop(st, o, names)
            return None
        r = it.new(st, x.set(cols=tuple((n, q) for n, q in x.cols if n not in names), origin=None))
        return r

    def d_assign(self, st, o, x, args, kw):
        it = self.it
        r = self.d_copy(st, o, x, [], {})
        for k, v in kw.items():
            if isinstance(v, Func):
                v = it.call(st, v, [r], {})
            self.df_set(st, r, it.get(st, r), k, v)
        return r

    def d_insert(self, st, o, x, args, kw):
        b = bindargs("insert", ("loc", "column", "value", "allow_duplicates"), args, kw, allow_duplicates=False)
        it = self.it
        self.df_set(st, o, x, b["column"], b["value"])
        p = it.poly(b["loc"])
        y = it.get(st, o)
        if p.is_const():
            cols = list(y.cols)
            c = cols.pop()
            cols.insert(int(p.cval()), c)
            st.heap[o.id] = y.set(cols=tuple(cols))

    def d_rename(self, st, o, x, args, kw):
        it = self.it
        b = bindargs("rename", ("mapper",), args, kw, mapper=None, columns=None, inplace=False, axis=None, index=None, copy=None)
        m = b["columns"] if b["columns"] is not None else b["mapper"]
        d = it.obj(st, m)
        if not isinstance(d, PyDict):
            raise NotUnderstood("rename")
        mp = dict(d.items)
        cols = tuple((mp.get(n, n), c) for n, c in x.cols)
        if b["inplace"] is True:
            if x.origin:
                it.event("mutate", "renames columns of the caller's table", st)
            st.heap[o.id] = x.set(cols=cols)
            return None
        return it.new(st, x.set(cols=cols, origin=None))

    def d_join(self, st, o, x, args, kw):
        it = self.it
        y = it.obj(st, args[0])
        r = self.d_copy(st, o, x, [], {})
        new = [(n, c) for n, c in y.cols] if isinstance(y, DF) else [(y.name, args[0])]
        for n, c in new:
            self.df_set(st, r, it.get(st, r), n, c)
        return r

    def d_rolling(self, st, o, x, args, kw):
        return self.m_rolling(st, o, x, args, kw)

    def d_abs(self, st, o, x, args, kw):
        return self.f_builtins_abs(st, [o], {})

    def d_isna(self, st, o, x, args, kw):
        return self.it.map1(st, o, X.isna, "isna", "bool")

    d_isnull = d_isna

    def d_notna(self, st, o, x, args, kw):
        return self.it.map1(st, o, lambda e: X.b_not(X.isna(e)), "notna", "bool")

    d_notnull = d_notna

    def _dall(self, st, x, isall):
        it = self.it
        items = [c for _, c in x.cols]

        def f(*es):
            acc = LT if isall else LF
            for e in es:
                acc = X.b_and(acc, self.cond(e)) if isall else X.b_or(acc, self.cond(e))
            return acc
        if not items:
            return it.arr(st, LT if isall else LF, x.length, "series", x.index, None, "bool")
        return self.ew(st, f, items, "bool", "row test", numeric=False, kind="series")

    def d_all(self, st, o, x, args, kw):
        if kw.get("axis", args[0] if args else 0) not in (1, "columns"):
            raise NotUnderstood("column all")
        return self._dall(st, x, True)

    def d_any(self, st, o, x, args, kw):
        if kw.get("axis", args[0] if args else 0) not in (1, "columns"):
            raise NotUnderstood("column any")
        return self._dall(st, x, False)

    def d_where(self, st, o, x, args, kw):
        b = bindargs("where", ("cond", "other"), args, kw, other=FNAN, inplace=False)
        return self.d_wm(st, o, x, b, False)

    def d_mask(self, st, o, x, args, kw):
        b = bindargs("mask", ("cond", "other"), args, kw, other=FNAN, inplace=False)
        return self.d_wm(st, o, x, b, True)

    def d_wm(self, st, o, x, b, inv):
        it = self.it
        m = it.obj(st, b["cond"])
        if not isinstance(m, DF):
            raise NotUnderstood("table where")
        mk = dict(m.cols)
        cols = [(n, self.where_(st, c, mk[n], b["other"], inv)) for n, c in x.cols]
        if b["inplace"] is True:
            if x.origin:
                it.event("mutate", "changes the caller's table", st)
            st.heap[o.id] = x.set(cols=tuple(cols))
            return None
        return it.new(st, DF(cols, x.index, x.length))

    def d_bin(op):
        def d(self, st, o, x, args, kw):
            return self.elementwise(st, op, o, args[0])
        return d

    for _n, _o in SBIN.items():
        locals()["d_" + _n] = d_bin(_o)
    del _n, _o

    def d_replace(self, st, o, x, args, kw):
        it = self.it
        kw2 = {k: v for k, v in kw.items() if k != "inplace"}
        cols = [(n, self.m_replace(st, c, it.get(st, c), args, kw2) if it.dtype(st, c) != "obj" else c) for n, c in x.cols]
        if kw.get("inplace") is True:
            if x.origin:
                it.event("mutate", "changes the caller's table", st)
            st.heap[o.id] = x.set(cols=tuple(cols))
            return None
        return it.new(st, DF(cols, x.index, x.length))

    def d_fillna(self, st, o, x, args, kw):
        it = self.it
        kw2 = {k: v for k, v in kw.items() if k != "inplace"}
        cols = [(n, self.m_fillna(st, c, it.get(st, c), args, kw2)) for n, c in x.cols]
        if kw.get("inplace") is True:
            if x.origin:
                it.event("mutate", "fills gaps in the caller's table", st)
            st.heap[o.id] = x.set(cols=tuple(cols))
            return None
        return it.new(st, DF(cols, x.index, x.length))

    def d_ffill(self, st, o, x, args, kw):
        it = self.it
        cols = [(n, self.m_ffill(st, c, it.get(st, c), [], {})) for n, c in x.cols]
        return it.new(st, DF(cols, x.index, x.length))

    def d_bfill(self, st, o, x, args, kw):
        it = self.it
        cols = [(n, self.m_bfill(st, c, it.get(st, c), [], {})) for n, c in x.cols]
        return it.new(st, DF(cols, x.index, x.length))

    def d_shift(self, st, o, x, args, kw):
        it = self.it
        cols = [(n, self.m_shift(st, c, it.get(st, c), args, kw)) for n, c in x.cols]
        return it.new(st, DF(cols, x.index, x.length))

    def d_diff(self, st, o, x, args, kw):
        it = self.it
        cols = [(n, self.m_diff(st, c, it.get(st, c), args, kw)) for n, c in x.cols]
        return it.new(st, DF(cols, x.index, x.length))

    def d_reset_index(self, st, o, x, args, kw):
        b = bindargs("reset_index", ("level",), args, kw, level=None, drop=False, inplace=False)
        if b["drop"] is not True or b["level"] is not None:
            raise NotUnderstood("reset_index without drop")
        return self.whole(st, o, x, self.relabel(st, x, self.renumber(x.index)), b["inplace"])

    @staticmethod
    def renumber(tok):
        """token of the same rows under the labels 0, 1, ..."""
        if not is_kept(tok):
            return RANGE
        base, cs = tok, []
        while is_kept(base):
            cs.append(base[2])
            base = base[1]
        r = ("renumbered", base)
        for c in reversed(cs):
            r = ("keep", r, c)
        return r

    def relabel(self, st, x, tok, e=None):
        it = self.it
        cols = []
        if is_kept(x.index) and e is None:
            for n, c in x.cols:
                s = it.get(st, it.get(st, c).st)
                cols.append((n, it.new(st, Arr("series", it.new(st, s.set(origin=None)), x.length, tok, n))))
            return it.new(st, DF(cols, tok, x.length))
        for n, c in x.cols:
            s = it.get(st, it.get(st, c).st)
            cols.append((n, it.arr(st, it.content(st, c) if e is None else e, x.length, "series", tok, n, s.dtype)))
        return it.new(st, DF(cols, tok, x.length))

    def whole(self, st, o, x, r, inplace):
        if inplace is not True:
            return r
        if x.origin:
            self.it.event("mutate", "changes the rows of the caller's table", st)
        st.heap[o.id] = self.it.get(st, r)
        return None

    def row_repeats(self, st, x):
        return X.compare(">", X.at_in("@row"), L0)

    def d_duplicated(self, st, o, x, args, kw):
        return self.it.arr(st, self.row_repeats(st, x), x.length, "series", x.index, None, "bool")

    def d_drop_duplicates(self, st, o, x, args, kw):
        b = bindargs("drop_duplicates", ("subset",), args, kw, subset=None, keep="first", inplace=False, ignore_index=False)
        r = self.df_filter(st, x, X.b_not(self.row_repeats(st, x)))
        if b["ignore_index"] is True:
            r = self.relabel(st, self.it.get(st, r), RANGE)
        return self.whole(st, o, x, r, b["inplace"])

    def d_sort_index(self, st, o, x, args, kw):
        from interp import opq
        self.it.event("label", "sorts by label", st)
        return self.whole(st, o, x, self.relabel(st, x, ("sorted", x.index), opq("sorted rows")), kw.get("inplace"))

    def d_sort_values(self, st, o, x, args, kw):
        from interp import opq
        return self.whole(st, o, x, self.relabel(st, x, ("sorted", x.index), opq("sorted rows")), kw.get("inplace"))

    def d_head(self, st, o, x, args, kw):
        return self.df_rows(st, x, SliceV(None, args[0] if args else kw.get("n", 5), None))

    def d_tail(self, st, o, x, args, kw):
        n = self.it.poly(args[0] if args else kw.get("n", 5))
        return self.df_rows(st, x, SliceV(self.num(x.length - n), None, None))

    def df_rows(self, st, x, k):
        it = self.it
        cols = [(n, self.slice(st, c, it.get(st, c), k)) for n, c in x.cols]
        c0 = it.get(st, cols[0][1])
        return it.new(st, DF(cols, c0.index, c0.length))

    def d_sample(self, st, o, x, args, kw):
        self.it.event("impure", "picks rows at random")
        raise NotUnderstood("sample")

    def d_clip(self, st, o, x, args, kw):
        return it_new_df(self, st, x, lambda c: self.m_clip(st, c, self.it.get(st, c), args, kw))

    def d_astype(self, st, o, x, args, kw):
        return it_new_df(self, st, x, lambda c: self.m_astype(st, c, self.it.get(st, c), args, kw))

    def d_round(self, st, o, x, args, kw):
        return it_new_df(self, st, x, lambda c: self.m_round(st, c, self.it.get(st, c), args, kw))

    def d_apply(self, st, o, x, args, kw):
        b = bindargs("apply", ("func", "axis"), args, kw, axis=0, raw=False, result_type=None, args=())
        it = self.it
        if b["axis"] in (1, "columns"):
            if it.is_rows(x.length):
                it.event("perrow", "a Python function is called once per row", st)
            raise NotUnderstood("DataFrame.apply over rows")
        cols = [(n, it.call(st, b["func"], [c], {})) for n, c in x.cols]
        return it.new(st, DF(cols, x.index, x.length))

    def d_iterrows(self, st, o, x, args, kw):
        raise NotUnderstood("iterrows")

    def d_itertuples(self, st, o, x, args, kw):
        raise NotUnderstood("itertuples")

    def d_get(self, st, o, x, args, kw):
        for n, c in x.cols:
            if n == args[0]:
                return c
        return args[1] if len(args) > 1 else None

    def d_pop(self, st, o, x, args, kw):
        c = self.df_get(st, o, x, args[0])
        self.df_drop(st, o, [args[0]])
        return c

    def d_to_numpy(self, st, o, x, args, kw):
        return self.it.new(st, PyList([c for _, c in x.cols], "rows2"))

    def d_items(self, st, o, x, args, kw):
        return self.it.new(st, PyList([(n, c) for n, c in x.cols]))


def leaf_strict(r, e):
    return r


def it_new_df(lib, st, x, f):
    return lib.it.new(st, DF([(n, f(c)) for n, c in x.cols], x.index, x.length))


def LabelV_types():
    from interp import LabelV
    return LabelV


def PyRaise_(name, msg=""):
    from interp import PyRaise
    return PyRaise(name, msg)


def LibFn_vec(f):
    return f
