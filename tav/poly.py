"""Sparse polynomials and rational functions with exact rational coefficients over interned atoms.

Atoms are `Atom` objects (see expr.py); a monomial is a tuple of (atom_id, exponent) sorted by id."""
from fractions import Fraction
from functools import lru_cache

ATOMS = []          # id -> Atom


class Poly:
    __slots__ = ("d", "_h", "_s")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._s = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    # -- protocol -----------------------------------------------------
    def key(self):
        if self._s is None:
            self._s = tuple(sorted(self.d.items()))
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __bool__(self):
        return bool(self.d)

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(Fraction(o))
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def degree_in(self, aid):
        r = 0
        for m in self.d:
            for a, e in m:
                if a == aid:
                    r = max(r, e)
        return r

    def coeff_split(self, aid):
        """dict exponent -> Poly for the powers of one atom."""
        r = {}
        for m, c in self.d.items():
            e = 0
            rest = []
            for a, x in m:
                if a == aid:
                    e = x
                else:
                    rest.append((a, x))
            r.setdefault(e, {})[tuple(rest)] = c
        return {e: Poly(d) for e, d in r.items()}

    def lead(self):
        """(monomial, coeff) of a fixed total order, used for normalisation only."""
        m = max(self.d, key=lambda m: (sum(e for _, e in m), m))
        return m, self.d[m]

    def __repr__(self):
        return show_poly(self)


ZERO = Poly({})
ONE = Poly.const(1)


@lru_cache(maxsize=200000)
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def show_mono(m):
    return "*".join(ATOMS[a].show() + ("" if e == 1 else "^%d" % e) for a, e in m)


def show_num(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return "%d/%d" % (c.numerator, c.denominator)


def show_poly(p, limit=14):
    if not p.d:
        return "0"
    out = []
    items = sorted(p.d.items(), key=lambda mc: (-sum(e for _, e in mc[0]), mc[0]))
    for m, c in items[:limit]:
        s = show_mono(m)
        if not s:
            t = show_num(c)
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = show_num(c) + "*" + s
        out.append(t)
    if len(items) > limit:
        out.append("...")
    return " + ".join(out).replace("+ -", "- ")


# ---------------------------------------------------------------- gcd
_GCD = {}


def _mono_content(p):
    """greatest monomial dividing every term."""
    it = iter(p.d)
    cur = dict(next(it))
    for m in it:
        if not cur:
            break
        md = dict(m)
        cur = {a: min(e, md[a]) for a, e in cur.items() if a in md}
    return tuple(sorted(cur.items()))


def mono_div(m, q):
    d = dict(m)
    for a, e in q:
        x = d[a] - e
        if x:
            d[a] = x
        else:
            del d[a]
    return tuple(sorted(d.items()))


def poly_div_mono(p, q):
    if not q:
        return p
    return Poly({mono_div(m, q): c for m, c in p.d.items()})


def _mono_gcd(a, b):
    bd = dict(b)
    return tuple(sorted((x, min(e, bd[x])) for x, e in a if x in bd))


def cancel(num, den):
    """num/den in lowest terms; den's leading coefficient is 1."""
    if not num.d:
        return ZERO, ONE
    if den.is_const():
        return num.scale(1 / den.cval()), ONE
    k = (num, den)
    r = _GCD.get(k)
    if r is not None:
        return r
    n, d = num, den
    mg = _mono_gcd(_mono_content(n), _mono_content(d))
    n, d = poly_div_mono(n, mg), poly_div_mono(d, mg)
    if not d.is_const() and len(d.d) > 1 and not n.is_const():
        common = n.atoms() & d.atoms()
        if common:
            n, d = _sympy_cancel(n, d)
    lc = d.lead()[1]
    if lc != 1:
        n, d = n.scale(1 / lc), d.scale(1 / lc)
    r = (n, d)
    _GCD[k] = r
    return r


def _sympy_cancel(n, d):
    from sympy.polys.rings import PolyRing
    from sympy.polys.domains import QQ
    from sympy.polys.orderings import lex
    ids = sorted(n.atoms() | d.atoms())
    pos = {a: i for i, a in enumerate(ids)}
    R = _ring(len(ids))

    def conv(p):
        e = R.zero
        dd = {}
        for m, c in p.d.items():
            ex = [0] * len(ids)
            for a, x in m:
                ex[pos[a]] = x
            dd[tuple(ex)] = QQ(c.numerator, c.denominator)
        return R.from_dict(dd)

    def back(q):
        out = {}
        for ex, c in q.items():
            m = tuple((ids[i], x) for i, x in enumerate(ex) if x)
            out[m] = Fraction(int(c.numerator), int(c.denominator))
        return Poly(out)

    a, b = conv(n), conv(d)
    g = a.gcd(b)
    if g.is_ground:
        return n, d
    return back(a.exquo(g)), back(b.exquo(g))


@lru_cache(maxsize=None)
def _ring(k):
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    return ring(["x%d" % i for i in range(k)], QQ)[0]


class Rat:
    """Rational function, always in lowest terms."""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d):
        self.n = n
        self.d = d
        self._h = None

    @staticmethod
    def make(n, d=ONE):
        if d.is_zero():
            raise ZeroDivisionError
        n, d = cancel(n, d)
        return Rat(n, d)

    @staticmethod
    def const(c):
        return Rat(Poly.const(c), ONE)

    @staticmethod
    def atom(a):
        return Rat(Poly.atom(a), ONE)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rat) and self.n == o.n and self.d == o.d

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def cval(self):
        return self.n.cval() / self.d.cval() if self.d.d else None

    def is_poly(self):
        return self.d.is_const()

    def is_zero(self):
        return self.n.is_zero()

    def __add__(self, o):
        if self.d == o.d:
            return Rat.make(self.n + o.n, self.d) if not self.d.is_const() else Rat(self.n + o.n, ONE)
        if self.d.is_const():
            return Rat(self.n * o.d + o.n, o.d)
        if o.d.is_const():
            return Rat(self.n + o.n * self.d, self.d)
        return Rat.make(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.d.is_const() and o.d.is_const():
            return Rat(self.n * o.n, ONE)
        return Rat.make(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if o.n.is_zero():
            raise ZeroDivisionError
        return Rat.make(self.n * o.d, self.d * o.n)

    def pow(self, k):
        if k >= 0:
            return Rat(self.n.pow(k), self.d.pow(k))
        return Rat.make(self.d.pow(-k), self.n.pow(-k))

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def __repr__(self):
        if self.d.is_const():
            return show_poly(self.n)
        def par(p):
            s = show_poly(p)
            return "(" + s + ")" if len(p.d) > 1 else s
        return par(self.n) + "/" + par(self.d)


RZERO = Rat(ZERO, ONE)
RONE = Rat(ONE, ONE)
