"""Lowers the package's results and the reference definitions to diagrams, once per configuration."""
import os
import ast
import driver as DR
from driver import explore, new_input, int_param, real_param, get_class, result_of, Case
import expr as X
import domain as D
from expr import NotUnderstood, LNAN
from values import *
from poly import Poly, Rat
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, "ref")


class Vanished(Exception):
    """a public name the properties speak about does not exist any more."""


def options(cls):
    """switch settings to enumerate: list of dicts."""
    out = [{}]
    for n, k in spec.CLASSES[cls][2]:
        if k == "bool":
            out = [dict(o, **{n: b}) for o in out for b in (False, True)]
        elif k == "optint":
            out = [dict(o, **{n: b}) for o in out for b in (None, "sym")]
    return out


def opt_key(o):
    return tuple(sorted(o.items(), key=str))


def param_values(cls, opts, const=None):
    kw = {}
    for n, k in spec.CLASSES[cls][2]:
        if const and n in const:
            kw[n] = const[n]
        elif k == "int":
            kw[n] = int_param(n, 1)
        elif k == "int0":
            kw[n] = int_param(n, 0)
        elif k == "real":
            kw[n] = real_param(n)
        elif k == "bool":
            kw[n] = opts[n]
        elif k == "optint":
            kw[n] = None if opts[n] is None else int_param(n, 1)
    return kw


def inputs(it, st, cls):
    return {n: new_input(it, st, n) for n in spec.CLASSES[cls][1].split()}


def need(it, st, mod, name):
    try:
        return get_class(it, st, mod, name)
    except KeyError:
        raise Vanished("%s.%s" % (mod, name))


def need_attr(it, st, o, name, cls):
    from interp import PyRaise
    try:
        return it.getattr(st, o, name)
    except PyRaise as ex:
        if ex.name == "AttributeError":
            raise Vanished("%s.%s" % (cls, name))
        raise


_CODE = {}


def code(cls, acc, fill, opts, facts=(), const=None, before=(), ambient=None, labels=None, gaps=False, ints=False, signed=False):
    """regions of the lowered accessor; every case has .value (E or None) and .res (Arr)."""
    key = (cls, acc, fill, opt_key(opts), tuple(facts), opt_key(const or {}), tuple(before), ambient, labels, gaps, ints, signed)
    if key in _CODE:
        return _CODE[key]
    mod = "ta." + spec.CLASSES[cls][0]

    def run(it, st, c):
        it.load_module(st, mod)
        it.seal(st)
        k = need(it, st, mod, cls)
        kw = inputs(it, st, cls)
        kw.update(param_values(cls, opts, const))
        kw["fillna"] = fill
        o = it.call(st, k, [], kw)
        c.built = len(it.events)
        for b in before:
            it.call(st, need_attr(it, st, o, b, cls), [], {})
        c.mark = len(it.events)
        v = it.call(st, need_attr(it, st, o, acc, cls), [], {})
        c.obj, c.ref = o, v
        c.value, c.res = result_of(it, st, v, c)
        c.origin = it.origin(st, v)
    import lib
    lib.AMBIENT, lib.LABELS, DR.GAPS, DR.INTS, DR.SIGNED = ambient, labels, gaps, ints, signed
    try:
        r = explore(run, facts)
    finally:
        lib.AMBIENT = lib.LABELS = None
        DR.GAPS = DR.INTS = DR.SIGNED = False
    _CODE[key] = r
    import oracle
    oracle.learn(spec.CLASSES[cls][2], r)
    return r


_REF = {}


def ref(cls, acc, fill, opts, facts=(), const=None, signed=False):
    """(raw, published) reference diagrams as cases; `published` has the documented gap filling applied."""
    key = (cls, acc, fill, opt_key(opts), tuple(facts), opt_key(const or {}), signed)
    if key in _REF:
        return _REF[key]
    r = spec.BY[(cls, acc)]

    def run(it, st, c):
        fr = it.load_module(st, "refdefs")
        vs = it.get(st, fr).vars
        kw = inputs(it, st, cls)
        kw.update(param_values(cls, opts, const))
        kw["fill"] = fill
        d = it.call(st, vs[cls], [], kw)
        v = it.getitem(st, d, acc)
        c.raw, c.res = result_of(it, st, v, c)
        c.value = c.raw
        if fill and r.fill != spec.NOFILL:
            if r.fill == spec.NEAR:
                v = it.call(st, vs["fillnear"], [v], {})
            else:
                v = it.call(st, vs["fillgap"], [v, kw["close"] if r.fill == "close" else r.fill], {})
            c.value, c.res = result_of(it, st, v, c)
    DR.SIGNED = signed
    try:
        out = explore(run, facts, root=REF)
    finally:
        DR.SIGNED = False
    _REF[key] = out
    return out


def pairs(cls, acc, fill, opts, const=None, facts=()):
    """(facts, code case, reference case) over common regions."""
    out = []
    for c in code(cls, acc, fill, opts, facts, const):
        for s in ref(cls, acc, fill, opts, c.facts, const):
            out.append((s.facts, c, s))
    return out
