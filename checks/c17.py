"""C17: effort accounting."""
from checks.opt_common import *
from fractions import Fraction

EXPLANATION = ('All sequences of up to four operations (add, remove, add several, reset, copy and go on with either one) on a fresh '
               'effort account are analysed with symbolic weights and an uninterpreted effort per triad. After each the mean effort is '
               'compared with the weighted mean of the triads that should be in, as rational functions at generic points; zero if '
               'nothing is in. For the cache, the effort of every triad over two combinations is compared with that from an account that '
               'has already seen another triad.')
ASSUMPTIONS = ['exact arithmetic (rounding: N02)', 'accounts have no other state than their attributes']


def run(ck):
    ck.part('accounting', accounting, ck)
    ck.part('cache', cache, ck)


OPS = ['add A', 'add B', 'remove A', 'remove B', 'add both', 'reset', 'copy', 'fork']


def val(x):
    return {'A': Sym('va', 'int'), 'B': Sym('vb', 'int')}[x]


def sequences(depth):
    def go(seq, n):
        if seq:
            yield seq
        if n == 0:
            return
        for op in OPS:
            if op.startswith('remove') and inside(seq).get(op[-1], 0) < 1:
                continue
            if op in ('copy', 'fork') and seq and seq[-1] in ('copy', 'fork'):
                continue
            yield from go(seq + (op,), n - 1)
    yield from go((), depth)


def inside(seq):
    n = {'A': 0, 'B': 0}
    for op in seq:
        if op.startswith('add both'):
            n['A'] += 1
            n['B'] += 1
        elif op.startswith('add'):
            n[op[-1]] += 1
        elif op.startswith('remove'):
            n[op[-1]] -= 1
        elif op == 'reset':
            n = {'A': 0, 'B': 0}
    return n


def newaccount(it, w):
    c = cls(it, 'carpalx.Carpalx')
    if c is None:
        raise Gone('lulua.carpalx.Carpalx')
    wr = w.inst(cls(it, 'writer.Writer'), layout=w.layout())
    return it.call(ClassV(c), [Sym('model'), wr], {})


def accounting(ck):
    it, w, _ = harness()
    old = it.hooks['lulua.carpalx.Carpalx._triadEffort']

    def effort(i, args, kw):
        e = old(i, args, kw)
        return App('effort', e.args[0], i.freeze(i.getattr(args[0], 'params')))
    it.hooks['lulua.carpalx.Carpalx._triadEffort'] = effort
    c = cls(it, 'carpalx.Carpalx')
    if c is None:
        raise Gone('lulua.carpalx.Carpalx')
    node = c.attrs.get('addTriad')
    where = f'lulua/carpalx.py:{node.node.lineno}' if node is not None else 'lulua/carpalx.py'
    a, b = w.letters
    T3 = {'A': [(0, a), (1, b), (0, a)], 'B': [(0, b), (0, b), (1, a)]}
    n = bad = 0
    for seq in sequences(4):
        def go():
            cx = newaccount(it, w)
            combs = {x: tup(*[w.comb(l, k) for l, k in t]) for x, t in T3.items()}
            other = None
            for op in seq:
                if op in ('add A', 'add B'):
                    it.call(it.getattr(cx, 'addTriad'), [combs[op[-1]], val(op[-1])], {})
                elif op.startswith('remove'):
                    it.call(it.getattr(cx, 'removeTriad'), [combs[op[-1]], val(op[-1])], {})
                elif op == 'add both':
                    it.call(it.getattr(cx, 'addTriads'), [w.dct([(combs[x], val(x)) for x in 'AB'])], {})
                elif op == 'reset':
                    it.call(it.getattr(cx, 'reset'), [], {})
                else:
                    new = it.call(it.getattr(cx, 'copy'), [], {})
                    # go on with the copy, or with the original; the other one is then changed
                    cx, other = (new, cx) if op == 'copy' else (cx, new)
                    it.call(it.getattr(other, 'addTriad'), [combs['B'], Sym('noise', 'int')], {})
            return meaneffort(it, cx)
        cnt = inside(seq)
        for p in nobudget(it.analyse(go)):
            n += 1
            what = ', '.join(seq)
            if p.outcome == 'raise':
                bad += 1
                ck.violated('the effort is the weighted mean of the triads put in', where, f'{what}: {p.value.exc}')
                continue
            why = compare(p, cnt)
            if why:
                bad += 1
                ck.violated('the effort is the weighted mean of the triads put in', where, f'{what}: {why}'[:400])
        if bad > 3:
            break
    ck.count('paths', n)
    ck.used(it)
    if not bad:
        ck.holds('the effort is the weighted mean of the triads put in', where, f'{n} paths')


def compare(p, cnt):
    syms = {x for t in [p.value] + [f for f, _ in p.facts] for x in subterms(t) if isapp(x, 'effort')}
    eff = {}
    for x in syms:
        k = repr(x.args[0])
        eff[x] = Fraction(len(k) % 7 + 2, 3) if False else None
    vals = [{'va': 3, 'vb': 5, 'noise': 11}, {'va': 4, 'vb': 1, 'noise': 7}, {'va': Fraction(1, 2), 'vb': 9, 'noise': 2},
            {'va': 0, 'vb': 0, 'noise': 3}, {'va': 2, 'vb': 0, 'noise': 5}]
    A = "((), ('A',)), (('S',), ('B',)), ((), ('A',))"
    for j, v in enumerate(vals):
        e = {}
        ea, eb = Fraction(7 + j, 3), Fraction(13, 2 + j)
        for x in syms:
            if x.args[1] != Sym('model'):
                return f'effort computed with other parameters: {x.args[1]!r}'[:200]
            e[x] = ea if A in repr(x.args[0]) else eb
        env = {Sym(k, 'int'): y for k, y in v.items()}
        env.update(e)
        ev = Ev(env)
        try:
            if not ev.holds(p.facts):
                continue
        except Undefined:
            return f'undefined for weights {v}'
        wa, wb = v['va'] * cnt['A'], v['vb'] * cnt['B']
        want = (wa * ea + wb * eb) / Fraction(wa + wb) if wa + wb != 0 else 0
        try:
            got = ev.ev(p.value)
        except Undefined:
            return f'undefined for weights {v}'
        if got != want:
            return f'weights {v}, efforts {ea} and {eb}: {got} instead of {want}'
    return None


def cache(ck):
    """seeing one triad never changes the effort of another"""
    from checks.c19 import account, PARAMS
    it, w, mk, where = account(ck)
    xs = [(0, w.letters[0]), (0, w.letters[1]), (1, w.letters[0])]
    trs = list(itertools.product(xs[:2], repeat=3)) + [(xs[0], xs[2], xs[0]), (xs[2], xs[0], xs[0]), (xs[2], xs[2], xs[1])]

    def one(first, t):
        def go():
            w.intern()
            cx = mk()
            if first is not None:
                put(it, w, cx, first, Const(1))
                it.call(it.getattr(cx, 'removeTriad'), [tup(*[w.comb(l, k) for l, k in first]), Const(1)], {})
                it.call(it.getattr(cx, 'reset'), [], {})
            put(it, w, cx, t, Const(1))
            return meaneffort(it, cx)
        ps = [p for p in nobudget(it.analyse(go))]
        if any(p.outcome == 'raise' for p in ps):
            raise Lost(f'raises {[p.value.exc for p in ps if p.outcome == "raise"]}')
        return ps

    def value(ps, j):
        ev = Ev(PARAMS(it, j))
        hit = ev.pick(ps)
        if len(hit) != 1:
            raise Lost('paths do not partition')
        return ev.ev(hit[0].value)
    n = bad = 0
    base = {t: one(None, t) for t in trs}
    for t in trs:
        for u in trs:
            ps = one(u, t)
            n += 1
            for j in range(3):
                a, b = value(base[t], j), value(ps, j)
                if a != b:
                    bad += 1
                    if bad < 3:
                        ck.violated('the cache never changes a result', where, f'effort of {showt(t)} is {a}, after {showt(u)} it is {b}')
                    break
    ck.count('pairs of triads', n)
    if not bad:
        ck.holds('the cache never changes a result', where, f'{n} pairs of triads')


def showt(t):
    return '-'.join(f'{l},{k.name}' for l, k in t)
