"""C14: incremental effort updates."""
from checks.opt_common import *

EXPLANATION = ('One step of the optimizer is analysed with triads of symbolic counts and an uninterpreted effort per triad, from several '
               'mappings and for every outcome of its random choices. Total effort and number of triads of the final state are normalised to '
               'polynomials over counts and efforts; they must equal the total recomputed from scratch with the final mapping, and the '
               'energy returned must be the difference of the two means. Resetting must give the recomputed total from any state.')
ASSUMPTIONS = ['exact arithmetic (rounding: N02)', 'the effort of a triad depends on the triad alone (C19)']


def run(ck):
    ck.part('steps', steps, ck)
    ck.part('resetting', resetting, ck)


def TRIADS(w):
    a, b = w.letters
    # overlapping, repeated keys, both layers
    return [([(0, a), (1, b), (0, a)], Sym('v0', 'int')), ([(0, b), (0, b), (0, b)], Sym('v1', 'int')), ([(1, a), (0, b), (1, b)], Sym('v2', 'int')),
            ([(0, a), (0, b), (1, a)], Sym('v3', 'int'))]


def total(w, mods, mapping, triads):
    eff, n = Const(0), Const(0)
    for t, v in triads:
        new = []
        for l, k in t:
            q = mapping[tup(Const(l), k)]
            mod = w.mods[q.args[0].v][0]
            new.append((tuple(sorted(x.name for x in mod.args)), (q.args[1].name,)))
        eff = add(eff, mul(v, App('effort', App('str', repr(tuple(new))))))
        n = add(n, v)
    return eff, n


def setup(ck):
    it, w, c = harness()
    it.unrollwhile = 1
    return it, w, c


def steps(ck):
    it, w, c = setup(ck)
    f, _ = c.lookup('mutate')
    g, _ = c.lookup('_resetEnergy')
    if f is None:
        raise Gone('LayoutOptimizer.mutate')
    where = f'lulua/optimize.py:{f.node.lineno}'
    pos = positions(w)
    tri = TRIADS(w)
    n = bad = 0
    E0 = None
    for perm in swapmaps(w, 6):
        old = dict(zip(pos, [pos[j] for j in perm]))
        e0, n0 = total(w, None, old, tri)

        def go():
            o = make(it, w, c, perm, (), tri)
            cx = it.getattr(it.getattr(o, 'state'), 'carpalx')
            for t, v in tri:
                put(it, w, cx, [(q.args[0].v, q.args[1]) for q in (old[tup(Const(l), k)] for l, k in t)], v)
            r = it.call(f, [o], {})
            return tup(o, r, *observe(it, w, o))
        for p in nobudget(it.analyse(go)):
            n += 1
            if p.outcome == 'raise':
                raise Lost(f'raises {p.value.exc}')
            o, r, m1, m2 = p.value.args
            m = buttonmap(it, p.state, o)
            if set(m) != set(pos) or any(v not in pos for v in m.values()):
                raise Lost('mapping')       # C12
            if zero(p.facts):
                continue
            e1, n1 = total(w, None, m, tri)
            for what, got, want in observed(m1, m2, e1, n1):
                ok = same(got, want)
                if ok is None:
                    raise Lost(f'{what} {got!r}'[:200])
                if not ok:
                    bad += 1
                    ck.violated('a step leaves the effort of the new mapping', where, f'{showmap(old)} to {showmap(m)}: {what} is {got!r}'[:500])
            ok = same(r, sub(div(e1, n1), div(e0, n0)))
            if ok is None:
                raise Lost(f'energy {r!r}'[:200])
            if not ok:
                bad += 1
                ck.violated('a step returns the change of the mean effort', where, f'{showmap(old)} to {showmap(m)}: {r!r}'[:400])
        if bad > 3:
            break
    ck.count('paths', n)
    ck.used(it)
    if n and not bad:
        ck.holds('a step leaves the effort of the new mapping', where, f'{n} paths')
        ck.holds('a step returns the change of the mean effort', where, f'{n} paths')


def zero(facts):
    return any(isapp(a, 'eq0') and v for a, v in facts)


def observe(it, w, o):
    """mean effort, and mean effort with another triad added: together they show total and weight"""
    cx = it.getattr(it.getattr(o, 'state'), 'carpalx')
    m1 = meaneffort(it, cx)
    put(it, w, cx, 'X', Sym('vx', 'int'))
    return m1, meaneffort(it, cx)


def observed(m1, m2, e, n):
    v = Sym('vx', 'int')
    return ('mean effort', m1, div(e, n)), ('mean effort with one more triad', m2, div(add(e, mul(v, named('X'))), add(n, v)))


def div(a, b):
    return mul(a, App('inv', b))


def same(a, b):
    """equal for some generic values of the symbols?"""
    from fractions import Fraction
    for k in (1, 2, 3):
        env = {}
        for i, x in enumerate(sorted({x for t in (a, b) for x in subterms(t) if isinstance(x, Sym) or isapp(x, 'effort')}, key=repr)):
            env[x] = Fraction(3 * i + 7 * k + 1, i + 2)
        try:
            if Ev(env).ev(a) != Ev(env).ev(b):
                return False
        except (Lost, Undefined, TypeError):
            return None
    return True


def resetting(ck):
    it, w, c = setup(ck)
    f, _ = c.lookup('_resetEnergy')
    if f is None:
        raise Gone('LayoutOptimizer._resetEnergy')
    where = f'lulua/optimize.py:{f.node.lineno}'
    pos = positions(w)
    tri = TRIADS(w)
    n = bad = 0
    for perm in swapmaps(w, 6):
        old = dict(zip(pos, [pos[j] for j in perm]))
        e1, n1 = total(w, None, old, tri)

        def go():
            o = make(it, w, c, perm, (), tri)
            cx = it.getattr(it.getattr(o, 'state'), 'carpalx')
            put(it, w, cx, 'Y', Sym('vy', 'int'))
            it.call(f, [o], {})
            return tup(o, it.call(it.getattr(o, 'energy'), [], {}), *observe(it, w, o))
        for p in nobudget(it.analyse(go)):
            n += 1
            if p.outcome == 'raise':
                raise Lost(f'raises {p.value.exc}')
            if zero(p.facts):
                continue
            o, en, m1, m2 = p.value.args
            for what, got, want in observed(m1, m2, e1, n1) + (('the energy', en, div(e1, n1)),):
                ok = same(got, want)
                if ok is None:
                    raise Lost(f'{what} {got!r}'[:200])
                if not ok:
                    bad += 1
                    ck.violated('resetting recomputes the effort of the mapping', where, f'{showmap(old)}: {what} is {got!r}'[:400])
    if n and not bad:
        ck.holds('resetting recomputes the effort of the mapping', where, f'{n} mappings')
    # run() starts from the recomputed effort
    it2 = interp(opaque={'lulua.optimize.LayoutOptimizer._resetEnergy', 'lulua.optimize.Annealer.run'})
    c2 = cls(it2, 'optimize.LayoutOptimizer')
    r, own = c2.lookup('run')
    for p in nobudget(it2.analyse(lambda: it2.call(r, [Sym('opt', None, c2)], {}))):
        calls = [e.qual.rpartition('.')[2] for e in p.trace if e.kind == 'ocall']
        ok = '_resetEnergy' in calls and 'run' in calls and calls.index('_resetEnergy') < calls.index('run')
        ck.expect(ok if own is c2 else None, 'a run starts from the recomputed effort', f'lulua/optimize.py:{r.node.lineno}', '', f'calls {calls}')
    ck.used(it)
