"""Linear inequality domain: exact rational feasibility of a conjunction of linear facts (general simplex on slack bounds,
strict bounds as infinitesimals)."""
from fractions import Fraction

F0 = Fraction(0)


class _D(tuple):
    """a + b*delta, delta an infinitesimal."""
    __slots__ = ()

    def __add__(self, o):
        return _D((self[0] + o[0], self[1] + o[1]))

    def __sub__(self, o):
        return _D((self[0] - o[0], self[1] - o[1]))

    def mul(self, c):
        return _D((self[0] * c, self[1] * c))


ZERO_D = _D((F0, F0))


def feasible(rows):
    """rows: list of (dict var -> coeff, const, rel) meaning sum + const REL 0, REL in '<', '<=', '=', '>', '>='."""
    cols = {}
    slack = {}          # normalised linear form -> index
    forms = []
    lo, hi = [], []
    for d, c, rel in rows:
        d = {v: Fraction(k) for v, k in d.items() if k}
        c = Fraction(c)
        if not d:
            ok = {"<": c < 0, "<=": c <= 0, "=": c == 0, ">": c > 0, ">=": c >= 0}[rel]
            if not ok:
                return False
            continue
        v0 = min(d)
        k0 = d[v0]
        key = tuple(sorted((v, k / k0) for v, k in d.items()))
        b = -c / k0
        if k0 < 0:
            rel = {"<": ">", "<=": ">=", "=": "=", ">": "<", ">=": "<="}[rel]
        j = slack.get(key)
        if j is None:
            j = slack[key] = len(forms)
            forms.append(dict(key))
            lo.append(None)
            hi.append(None)
            for v in d:
                cols.setdefault(v, len(cols))
        if rel in ("=", ">=", ">"):
            x = _D((b, Fraction(1 if rel == ">" else 0)))
            if lo[j] is None or x > lo[j]:
                lo[j] = x
        if rel in ("=", "<=", "<"):
            x = _D((b, Fraction(-1 if rel == "<" else 0)))
            if hi[j] is None or x < hi[j]:
                hi[j] = x
        if lo[j] is not None and hi[j] is not None and lo[j] > hi[j]:
            return False
    n = len(cols)
    m = len(forms)
    # variables 0..n-1 structural (free, nonbasic at 0), n..n+m-1 slacks (basic)
    LO = [None] * n + lo
    HI = [None] * n + hi
    val = [ZERO_D] * (n + m)
    tab = {}
    for j, f in enumerate(forms):
        tab[n + j] = {cols[v]: k for v, k in f.items()}
    for _ in range(2000):
        bad = None
        for b in sorted(tab):
            if LO[b] is not None and val[b] < LO[b]:
                bad = (b, LO[b], 1)
                break
            if HI[b] is not None and val[b] > HI[b]:
                bad = (b, HI[b], -1)
                break
        if bad is None:
            return True
        b, target, sgn = bad
        r = tab[b]
        piv = None
        for x in sorted(r):
            k = r[x] * sgn
            if k > 0 and (HI[x] is None or val[x] < HI[x]) or k < 0 and (LO[x] is None or val[x] > LO[x]):
                piv = x
                break
        if piv is None:
            return False
        a = r[piv]
        theta = (target - val[b]).mul(1 / a)
        val[b] = target
        val[piv] = val[piv] + theta
        for y, ry in tab.items():
            if y != b and piv in ry:
                val[y] = val[y] + theta.mul(ry[piv])
        # pivot: piv becomes basic
        nr = {b: 1 / a}
        for x, k in r.items():
            if x != piv:
                nr[x] = -k / a
        del tab[b]
        for y, ry in list(tab.items()):
            k = ry.pop(piv, None)
            if k:
                for x, c in nr.items():
                    q = ry.get(x, F0) + k * c
                    if q:
                        ry[x] = q
                    else:
                        ry.pop(x, None)
        tab[piv] = nr
    return True
