"""Algebra of pieces of text: which pieces of a stream a term denotes.

A text term is flattened into a list of pieces.  A piece is an atom, or a part
(base, lo, hi) of a base with symbolic bounds; adjacent parts of the same base
are merged, so that  x[0] ~ x[1:]  and  k ~ x[len(k):]  (k a matched prefix of
x) both become x again.
"""
from .terms import *
from .report import Lost

TEXTCHANGING = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase',
                'replace', 'translate', 'expandtabs', 'splitlines', 'split', 'rsplit', 'zfill'}
ZERO = Const(0)


def facttable(facts):
    return {a: v for a, v in facts}


def lensum(p):
    """sum of lengths with positive factors -> (texts, constant)"""
    xs = []
    for m, c in p.items():
        if m == ():
            continue
        if c <= 0 or len(m) != 1 or not isapp(m[0], 'len'):
            return None
        xs.append(m[0].args[0])
    return (xs, p.get((), 0)) if xs else None


def knownempty(facts):
    """text terms the facts say are empty"""
    out = set()
    for a, v in facts:
        if isapp(a, 'truth') and v is False:
            out.add(a.args[0])
        elif isapp(a, 'not') and isapp(a.args[0], 'truth') and v is True:
            out.add(a.args[0].args[0])
        elif isapp(a, 'eq') and v is True and Const('') in a.args:
            out.add(a.args[0] if a.args[1] == Const('') else a.args[1])
        elif isapp(a, 'eq0') and v is True:
            ls = lensum(topoly(a.args[0]))
            if ls and ls[1] == 0:
                out.update(ls[0])
        elif isapp(a, 'lt0'):
            p = topoly(a.args[0])
            if v is True:
                ls = lensum(p)          # len(x) + ... + c < 0
                if ls and ls[1] >= -1 and min(p[m] for m in p if m) >= 1:
                    out.update(ls[0])
            else:
                ls = lensum({m: -c for m, c in p.items()})      # len(x) + ... - c <= 0
                if ls and ls[1] == 0:
                    out.update(ls[0])
    todo = list(out)
    while todo:
        x = todo.pop()
        if isapp(x, 'concat'):
            for y in x.args:
                if y not in out:
                    out.add(y)
                    todo.append(y)
    return out


class Pieces:
    def __init__(self, prefixof, afters=None):
        self.prefixof = prefixof        # term -> base it is a matched prefix of, or None
        self.afters = afters or {}
        self.odd = []                   # pieces that are not understood
        self.changed = []               # text-changing operations

    def flatten(self, t):
        """-> list of ('atom', t) / ('part', base, lo, hi) with hi None = end"""
        if isconst(t):
            if t.v == '':
                return []
            return [('atom', t)]
        if isapp(t, 'concat'):
            out = []
            for x in t.args:
                out += self.flatten(x)
            return out
        b = self.prefixof(t)
        if b is not None:
            return self.part(b, ZERO, App('len', t))
        if isapp(t, 'slice'):
            x, lo, hi, st = t.args
            if st not in (NONE, Const(1)):
                self.odd.append(t)
                return [('atom', t)]
            lo = ZERO if lo == NONE else lo
            return self.part(x, lo, None if hi == NONE else hi)
        if isapp(t, 'getitem') and isconst(t.args[1]) and isinstance(t.args[1].v, int) and t.args[1].v >= 0:
            return self.part(t.args[0], t.args[1], Const(t.args[1].v + 1))
        if isapp(t, 'strmeth') or isapp(t, 'mcall'):
            name = t.args[1] if isapp(t, 'mcall') else t.args[0]
            recv = t.args[0] if isapp(t, 'mcall') else t.args[1]
            if name == 'removeprefix':
                a = t.args[2][0]
                if self.prefixof(a) == recv:
                    return self.part(recv, App('len', a), None)
            if name in TEXTCHANGING and isinstance(recv, T) and typ(recv) == 'str':
                self.changed.append(t)
                return [('atom', t)]
        if t in self.afters:
            return self.flatten(self.afters[t])
        return [('atom', t)]

    def part(self, x, lo, hi):
        # parts of parts
        if isapp(x, 'slice') and x.args[3] in (NONE, Const(1)) and x.args[2] == NONE:
            off = ZERO if x.args[1] == NONE else x.args[1]
            return self.part(x.args[0], add(off, lo), None if hi is None else add(off, hi))
        if isconst(lo) and lo.v == 0 and hi is None:
            return self.flatten(x)
        return [('part', x, lo, hi)]

    def merge(self, ps):
        ps = list(ps)
        changed = True
        while changed:
            changed = False
            for i in range(len(ps) - 1):
                a, b = ps[i], ps[i + 1]
                if a[0] == b[0] == 'part' and a[1] == b[1] and a[3] is not None and a[3] == b[2]:
                    ps[i:i + 2] = self.part(a[1], a[2], b[3])
                    changed = True
                    break
        return ps

    def norm(self, *ts):
        out = []
        for t in ts:
            out += self.flatten(t)
        return self.merge(out)


def showpieces(ps):
    return ' ~ '.join(repr(p[1]) if p[0] == 'atom' else f'{p[1]!r}[{p[2]!r}:{"" if p[3] is None else repr(p[3])}]' for p in ps) or "''"
