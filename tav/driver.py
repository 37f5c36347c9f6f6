"""Runs the abstract interpreter on one entry point, splitting the parameter space where the code does."""
import os
import sys
from fractions import Fraction
from poly import Poly, Rat, ONE, ZERO
import expr as X
import domain as D
from expr import leaf, TP, LNAN, NotUnderstood
from values import *
import interp as I
from interp import Interp, NeedSplit, PyRaise, INPUT

sys.setrecursionlimit(20000)
ROOT = os.environ.get("TAV_ROOT", "/repo")
ANALYSED = set()          # files of the analysed tree that were read
OHLCV = ("open", "high", "low", "close", "volume")


class Case:
    """result of one region of the parameter space."""

    def __init__(self, facts):
        self.facts = facts
        self.value = None          # E, list of named results, ...
        self.error = None
        self.events = []
        self.notes = []
        self.extra = {}


def fresh_interp(facts=(), root=None):
    it = Interp(root or ROOT, list(facts))
    st = State({}, X.LT)
    it.st0 = st
    it.caller_refs = set()
    return it, st


INTS = False      # world in which the caller's numbers are of an integer type
SIGNED = False    # world in which prices may be zero or negative (a spread): every price is a positive number minus one level
GAPS = False      # world in which the caller's series have missing rows anywhere


def new_input(it, st, name, length=None, kind="series", cell=None, dtype="num", index=INPUT):
    e = X.at_in(cell or name)
    if GAPS:
        e = X.ite(X.compare(">", X.at_in((cell or name) + "?"), X.L0), X.LNAN, e)
    if SIGNED and (cell or name) != "volume":
        e = X.sub(e, leaf(Rat.atom(X.sym("pricelevel", "pos"))))
    if INTS and dtype == "num":
        dtype = "int"
    a = it.arr(st, e, length or X.NP_, kind, index, name, dtype, origin=name)
    it.caller_refs.add(a.id)
    return a


def int_param(name, lb=1):
    return Num(leaf(Rat.atom(X.sym(name, "int", lb))), "int")


def real_param(name, typ="pos"):
    return Num(leaf(Rat.atom(X.sym(name, typ))), "float")


def explore(run, facts=(), limit=40, root=None):
    """run(it, st, case) for every region; regions are split on demand."""
    todo = [tuple(facts)]
    done = []
    while todo:
        f = todo.pop(0)
        if len(done) + len(todo) > limit:
            c = Case(f)
            c.error = "too many regions"
            done.append(c)
            return done
        it, st = fresh_interp(f, root)
        c = Case(f)
        c.it, c.st = it, st
        try:
            run(it, st, c)
        except NeedSplit as ns:
            for g in (ns.p, -ns.p - 1):
                if X.row_decide(g, tuple(f)) is not False:
                    todo.append(tuple(f) + (g,))
            continue
        except PyRaise as ex:
            c.error = "raises %s %s" % (ex.name, ex.msg)
            c.raised = ex
        except NotUnderstood as ex:
            c.error = "%s:%s (%s): %s" % (it.loc + (str(ex),))
        c.events = it.events
        c.notes = it.notes
        done.append(c)
    return done


def load(it, st, mod):
    fr = it.load_module(st, mod)
    return fr


def get_class(it, st, mod, name):
    fr = load(it, st, mod)
    vs = it.get(st, fr).vars
    if name not in vs:
        raise KeyError(name)
    return vs[name]


def result_of(it, st, v, c):
    """content, length, index and name of a returned series."""
    o = it.obj(st, v)
    if isinstance(v, Opaque):
        raise NotUnderstood("result unknown: " + v.why)
    if not isinstance(o, Arr):
        raise NotUnderstood("result is not a series: %r" % (v,))
    e = it.simp(it.rowwise(st, v))
    return e, o
