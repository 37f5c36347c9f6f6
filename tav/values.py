"""Values and heap objects of the abstract interpreter."""
from fractions import Fraction
from poly import Poly, Rat, ONE
import expr as X


class Opaque:
    """A value the analysis does not describe (with the reason)."""
    __slots__ = ("why", "refs")

    def __init__(self, why, refs=()):
        self.why = why
        self.refs = refs

    def __repr__(self):
        return "<unknown: %s>" % self.why


class AliasV(Opaque):
    """another view of the cells of an array, not described itself."""
    __slots__ = ("ref",)

    def __init__(self, why, ref):
        Opaque.__init__(self, why)
        self.ref = ref


class Num:
    """Symbolic scalar; t in int, float, bool."""
    __slots__ = ("e", "t")

    def __init__(self, e, t):
        self.e, self.t = e, t

    def __repr__(self):
        return X.show(self.e)


class FloatConst(Fraction):
    pass


class SpecialFloat:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


FNAN = SpecialFloat("nan")
FINF = SpecialFloat("inf")
FNINF = SpecialFloat("-inf")


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "#%d" % self.id


class Obj:
    """immutable heap object with functional update."""
    __slots__ = ()

    def set(self, **kw):
        n = object.__new__(type(self))
        for c in type(self).__mro__:
            for s in getattr(c, "__slots__", ()):
                setattr(n, s, kw[s] if s in kw else getattr(self, s))
        return n


class Stor(Obj):
    """array storage: e = value of position t; origin: input name or None; loop: None or LoopInfo fields."""
    __slots__ = ("e", "origin", "dtype", "loop", "off", "cur")

    def __init__(self, e, origin=None, dtype="float"):
        self.e, self.origin, self.dtype = e, origin, dtype
        self.loop = None
        self.off = None
        self.cur = None


class Lost(Obj):
    """an object whose contents the analysis no longer knows."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Arr(Obj):
    """series / ndarray / list / index over a storage."""
    __slots__ = ("kind", "st", "length", "index", "name")

    def __init__(self, kind, st, length, index=None, name=None):
        self.kind, self.st, self.length, self.index, self.name = kind, st, length, index, name


class Frame(Obj):
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals")

    def __init__(self, vars, parent, module, globals_=(), nonlocals=()):
        self.vars, self.parent, self.module = vars, parent, module
        self.globals_, self.nonlocals = globals_, nonlocals


class Inst(Obj):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ClassO(Obj):
    __slots__ = ("name", "module", "bases", "attrs")

    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs


class PyList(Obj):
    """list / 2-d array of known length."""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items, self.kind = tuple(items), kind


class PyDict(Obj):
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="dict"):
        self.items = tuple(items)      # pairs
        self.kind = kind


class DF(Obj):
    __slots__ = ("cols", "index", "length", "origin")

    def __init__(self, cols, index, length, origin=None):
        self.cols, self.index, self.length, self.origin = tuple(cols), index, length, origin


class Func:
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "name", "self_", "qual", "cls")

    def __init__(self, node, module, closure, defaults, kwdefaults, name, qual, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.cls = name, qual, cls
        self.self_ = None

    def bind(self, s):
        f = Func(self.node, self.module, self.closure, self.defaults, self.kwdefaults, self.name, self.qual, self.cls)
        f.self_ = s
        return f

    def __repr__(self):
        return "<function %s>" % self.qual


class Decor:
    """staticmethod / classmethod / property wrapper around a function value."""
    __slots__ = ("kind", "fn")

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class ModV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<module %s>" % self.name


class LibFn:
    """library function or type, e.g. numpy.where, pandas.Series, builtins.len"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, LibFn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<%s>" % self.name


class Meth:
    """bound method of a library object."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Acc:
    """iloc / loc / at / iat / str accessor."""
    __slots__ = ("obj", "kind")

    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class Roll:
    __slots__ = ("arr", "w", "minp", "kind", "kw")

    def __init__(self, arr, w, minp, kind, kw=None):
        self.arr, self.w, self.minp, self.kind, self.kw = arr, w, minp, kind, kw


class WinV:
    """all windows of w elements of an array, one per row; f maps a window to what stands in the row."""
    __slots__ = ("arr", "w", "f")

    def __init__(self, arr, w, f=None):
        self.arr, self.w, self.f = arr, w, f


class HostFn:
    """a function of the analysis itself standing for a library one."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class Ewm:
    __slots__ = ("arr", "alpha", "minp", "adjust", "ignore_na")

    def __init__(self, arr, alpha, minp, adjust, ignore_na):
        self.arr, self.alpha, self.minp, self.adjust, self.ignore_na = arr, alpha, minp, adjust, ignore_na


class IndexV:
    __slots__ = ("token", "length", "own")

    def __init__(self, token, length, own=None):
        """own: True when it is the index object of a caller's series, False when surely another, None when open."""
        self.token, self.length, self.own = token, length, own


class RangeV:
    __slots__ = ("a", "b", "step")

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class IterV:
    """enumerate / zip / reversed / items over iterables."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class SliceV:
    __slots__ = ("a", "b", "step")

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class StrV:
    """text with symbolic parts."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, StrV) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in self.parts)


class ExcV:
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, args


class NoneLoc:
    pass


class State:
    """heap + path guard; forked by copying the dict of immutable objects."""
    __slots__ = ("heap", "guard")

    def __init__(self, heap, guard):
        self.heap, self.guard = heap, guard

    def fork(self):
        return State(dict(self.heap), self.guard)


def is_kept(tok):
    """labels (or marker) of rows selected by a condition."""
    return isinstance(tok, tuple) and len(tok) == 3 and tok[0] == "keep"
