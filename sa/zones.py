"""
Difference-bound reasoning for integer comparisons.

Facts of the form  x - y < c,  x < c,  x == y + c  over integer-valued terms
are kept as a difference-bound matrix; closing it decides whether another such
atom is implied, refuted or open.  Exact for conjunctions of integer
difference constraints.
"""
from fractions import Fraction
from math import floor, ceil

from .terms import *

INF = None


def asdiff(p):
    """ polynomial -> (x, y, c) meaning  x - y + c, with x/y None for zero; or None """
    x = y = None
    c = Fraction(0)
    for m, k in p.items():
        if m == ():
            c = Fraction(k)
            continue
        if len(m) != 1:
            return None
        if k == 1 and x is None:
            x = m[0]
        elif k == -1 and y is None:
            y = m[0]
        else:
            return None
    return x, y, c


class DBM:
    """ d[(x, y)] = c : x - y <= c """

    def __init__(self):
        self.d = {}
        self.v = {None}
        self.ok = True

    def copy(self):
        n = DBM()
        n.d, n.v, n.ok = dict(self.d), set(self.v), self.ok
        return n

    def le(self, x, y, c):
        """ x - y <= c (integers) """
        c = floor(c)
        if x == y:
            if c < 0:
                self.ok = False
            return
        self.v.update((x, y))
        k = (x, y)
        if k not in self.d or self.d[k] > c:
            self.d[k] = c

    def close(self):
        vs = list(self.v)
        d = self.d
        for k in vs:
            for i in vs:
                if (i, k) not in d:
                    continue
                a = d[(i, k)]
                for j in vs:
                    if (k, j) in d:
                        s = a + d[(k, j)]
                        if i == j:
                            if s < 0:
                                self.ok = False
                                return self
                            continue
                        if (i, j) not in d or d[(i, j)] > s:
                            d[(i, j)] = s
        return self

    def assume(self, atom, val):
        """ returns False when the atom is outside the domain """
        if isapp(atom, 'lt0'):
            df = asdiff(topoly(atom.args[0]))
            if df is None or not intdiff(df):
                return False
            x, y, c = df
            if val:
                # x - y + c < 0  <=>  x - y <= -c - 1 (integers, c integral) in general x-y <= ceil(-c)-1
                self.le(x, y, ceil(-c) - 1)
            else:
                self.le(y, x, floor(c))
            return True
        if isapp(atom, 'eq0') and val:
            df = asdiff(topoly(atom.args[0]))
            if df is None or not intdiff(df):
                return False
            x, y, c = df
            if Fraction(c).denominator != 1:
                self.ok = False
                return True
            self.le(x, y, -c)
            self.le(y, x, c)
            return True
        return False


def intdiff(df):
    x, y, c = df
    return all(t is None or typ(t) == 'int' for t in (x, y))


def build(facts, bounds=()):
    z = DBM()
    neq = []
    for t, lo, hi in bounds:
        if lo is not None:
            z.le(None, t, -lo)
        if hi is not None:
            z.le(t, None, hi)
    for a, v in facts:
        if isapp(a, 'eq0') and not v:
            neq.append(a)
            continue
        z.assume(a, v)
    return z, neq


def feasible(facts, bounds=()):
    """ exact for integer differences with disequalities (split) """
    z, neq = build(facts, bounds)
    return _feas(z, neq)


def _feas(z, neq):
    z = z.copy().close()
    if not z.ok:
        return False
    for i, a in enumerate(neq):
        df = asdiff(topoly(a.args[0]))
        if df is None or not intdiff(df):
            continue
        x, y, c = df
        l = z.copy()
        l.le(x, y, -c - 1)
        r = z.copy()
        r.le(y, x, c - 1)
        rest = neq[i + 1:]
        return _feas(l, rest) or _feas(r, rest)
    return True


def implied(atom, facts, bounds=()):
    """ True / False / None """
    df = asdiff(topoly(atom.args[0]))
    if df is None or not intdiff(df):
        return None
    vs = {df[0], df[1]} - {None}
    rel = [(a, v) for a, v in facts if isinstance(a, App) and a.op in ('lt0', 'eq0')]
    if not rel and not bounds:
        return None
    if not feasible(rel + [(atom, True)], bounds):
        return False
    if not feasible(rel + [(atom, False)], bounds):
        return True
    return None
