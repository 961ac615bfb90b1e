"""Construction of a KeyboardLayout: the effects of its constructor, in context."""
from sa.kit import *
from sa.report import Lost, Gone
from sa.zones import implied as zimplied

LAYERS = Sym('layers', 'list')


def at(e):
    return f'{(e.mod or "").replace(".", "/")}.py:{e.line}'


def construct(ck):
    it = interp()
    it.desugar = True
    c = cls(it, 'layout.KeyboardLayout')
    if c is None:
        raise Gone('lulua.layout.KeyboardLayout')
    ps = it.analyse(lambda: it.call(ClassV(c), [Sym('name', 'str'), LAYERS, Sym('keyboard')], {}))
    ck.used(it)
    return it, ps


def effects(trace, ctx=(), facts=(), path=None):
    """(event, loops around it, facts known there, innermost loop path)"""
    for e in trace:
        if e.kind == 'loop':
            for lp in e.loop.paths:
                yield from effects(lp.trace, ctx + ((e.loop, lp),), tuple(facts) + tuple(lp.facts), lp)
        else:
            yield e, ctx, facts, path


def ge(u, x, facts):
    """u >= x on all values?  True / False / None"""
    if u == x:
        return True
    if isapp(u, 'maxof'):
        rs = [ge(y, x, facts) for y in u.args if isinstance(y, T)]
        if True in rs:
            return True
        return False if all(r is False for r in rs) else None
    if isapp(u, 'minof'):
        rs = [ge(y, x, facts) for y in u.args if isinstance(y, T)]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None
    if isapp(u, 'best') and u.args[0] == 'max':
        # the maximum is at least each of those it is taken of
        known = set(facts)

        def members(segs):
            for s in segs:
                if isapp(s, 'one'):
                    s = s.args[0]
                if isapp(s, 'keyed') and s.args[0] == s.args[1]:
                    yield s.args[0]
                elif isapp(s, 'star'):
                    for a in s.args[1]:
                        if all(f in known for f in a.args[0]):
                            yield from members(a.args[1])
        return True if any(isinstance(y, T) and ge(y, x, facts) is True for y in members(u.args[1])) else None
    if isapp(u, 'after'):
        lid, nm, ty, init, steps = u.args
        r = ge(init, x, facts)
        if r is not True:
            return r
        for s in steps:
            f, v = s.args
            mus = [y for y in subterms(v) if isapp(y, 'mu') and y.args[0] == lid and y.args[1] == nm]
            mu = mus[0] if mus else App('mu', lid, nm, ty)
            q = ge(v, mu, tuple(facts) + tuple(f))
            if q is not True:
                return q
        return True
    d = padd(topoly(u), topoly(x), -1)
    if not d or list(d) == [()]:
        return d.get((), 0) >= 0
    atom = lt0(d)
    m = {}
    f2 = []
    for a, v in facts:
        if isapp(a, 'lt0') or isapp(a, 'eq0'):
            f2.append((a, v))
    for a, v in f2:
        if a == atom:
            return not v
    # u - x >= 0 from facts over integers
    r = zimplied(intify(atom), [(intify(a), v) for a, v in f2]) if isapp(atom, 'lt0') else None
    if r is not None:
        return not r
    if all(len(mm) <= 1 and (not mm or isapp(mm[0], 'len') or isapp(mm[0], 'mu')) for mm in d):
        return False
    return None


def intify(t):
    m = {x: Sym('i:' + repr(x), 'int') for x in subterms(t) if isapp(x, 'mu') and typ(x) != 'int'}
    return subst(t, m) if m else t
