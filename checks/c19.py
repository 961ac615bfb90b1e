"""C19: the effort of a triad."""
from checks.opt_common import *
from checks import c18
from fractions import Fraction

EXPLANATION = ('The effort of triads of one- to three-key combinations is extracted as a term over symbolic model parameters (weights, '
               'penalties per hand, row and finger, base effort per key), with hand, row and finger of the keys as constants. The terms are '
               'compared with the formula of the model at generic rational points; the stroke path is that of the rules (C18).')
ASSUMPTIONS = ['exact arithmetic (rounding: N02)', 'hand, row and finger of a key are those of C20 and C21']

ROLE = {'A': (('LEFT', 'LITTLE'), 2), 'B': (('RIGHT', 'INDEX'), 1), 'C': (('LEFT', 'INDEX'), 3), 'D': (('RIGHT', 'RING'), 0), 'S': (('LEFT', 'LITTLE'), 3),
        'T': (('RIGHT', 'THUMB'), 4)}
ORDER = [('LEFT', n) for n in ('LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB')] + [('RIGHT', n) for n in ('THUMB', 'INDEX', 'MIDDLE', 'RING', 'LITTLE')]


def role(k):
    return ROLE.get(k.name, (('LEFT', 'MIDDLE'), 0))


def PARAMS(it, j):
    """generic values of the parameters"""
    env = {}
    i = 0
    for n in NAMES:
        i += 1
        if j >= 4 and (n.startswith('base') if j == 4 else n[0] in 'pw' if j == 5 else n in ('kS', 'baseB', 'pHLEFT', 'k3')):
            env[Sym(n, 'float')] = Fraction(0)
            continue
        env[Sym(n, 'float')] = Fraction((i * 7 + j * 3) % 11 + 1, (i * (j + 2)) % 5 + 1)
    return env


NAMES = ['kb', 'kp', 'ks', 'k1', 'k2', 'k3', 'kS', 'w0', 'wH', 'wR', 'wF', 'fH', 'fR', 'fF', 'pHLEFT', 'pHRIGHT'] + [f'pR{i}' for i in range(5)] + \
    [f'pF{h}{f}' for h, f in ORDER] + [f'base{k}' for k in ROLE]


def strokepath(keys):
    rs = [role(k) for k in keys]
    fs = [ORDER.index(r[0]) + 1 for r in rs]
    same = len(set(keys)) < 3
    return c18.hand([r[0][0] for r in rs]), c18.row([r[1] for r in rs]), c18.finger(fs, same)


def account(ck):
    it, w, _ = harness(letters=('A', 'B', 'C', 'D'), mods=((), ('S',), ('S', 'T')), modkeys=('S', 'T'))
    it.runmin = True
    order, hands, fingers = c18.domain(it)
    it.hooks.pop('lulua.carpalx.Carpalx._triadEffort')

    def hf(i, a, k):
        (h, f), r = role(a[1] if len(a) > 1 else k.get('b'))
        return tup(hands[h], fingers[f])
    it.hooks['lulua.writer.Writer.getHandFinger'] = hf
    old = it.hooks['lulua.keyboard.PhysicalKeyboard.getRow']

    def row(i, a, k):
        b = a[1] if len(a) > 1 else k.get('btn')
        if b.name in ('Bl1', 'Cl1', 'Dl1', 'El1'):
            return old(i, a, k)
        return Const(role(b)[1])
    it.hooks['lulua.keyboard.PhysicalKeyboard.getRow'] = row

    def path(i, a, k):
        xs = i.concrete(a[1] if len(a) > 1 else k.get('t'))
        if xs is None or not all(isinstance(x, Enum) for x in xs) or len(xs) != 3:
            return NotImplemented
        return tup(*[Const(x) for x in strokepath(xs)])
    it.hooks['lulua.carpalx.Carpalx._strokePath'] = path
    c, mp = cls(it, 'carpalx.Carpalx'), it.modattr('lulua.carpalx', 'ModelParams')
    if c is None or mp is None:
        raise Gone('lulua.carpalx.Carpalx')
    S = lambda n: Sym(n, 'float')
    te = c.attrs.get('_triadEffort')
    where = f'lulua/carpalx.py:{te.node.lineno}' if te is not None else f'lulua/carpalx.py:{c.node.lineno}'

    def mk():
        pf = w.dct([(hands[h], w.dct([(fingers[f], S(f'pF{h}{f}')) for f in fingers])) for h in ('LEFT', 'RIGHT')])
        params = it.call(mp, [], dict(kBPS=tup(S('kb'), S('kp'), S('ks')), k123S=tup(S('k1'), S('k2'), S('k3'), S('kS')),
                                      w0HRF=tup(S('w0'), S('wH'), S('wR'), S('wF')), pHand=w.dct([(hands[h], S('pH' + h)) for h in ('LEFT', 'RIGHT')]),
                                      pRow=tup(*[S(f'pR{i}') for i in range(5)]), pFinger=pf, fHRF=tup(S('fH'), S('fR'), S('fF')),
                                      baselineEffort=w.dct([(Const(k), S('base' + k)) for k in ROLE])))
        wr = w.inst(cls(it, 'writer.Writer'), layout=w.layout())
        return it.call(ClassV(c), [params, wr], {})
    return it, w, mk, where


def formula(w, t, v):
    """effort of a triad [(layer, key)]"""
    g = lambda n: v[Sym(n, 'float')]
    combs = [list(w.mods[l][0].args) + [k] for l, k in t]

    def nested(f):
        b = [sum(f(k) for k in c) + (len(c) - 1) * g('kS') for c in combs]
        return g('k1') * b[0] * (1 + g('k2') * b[1] * (1 + g('k3') * b[2]))

    def penalty(k):
        (h, f), r = role(k)
        return g('w0') + g('wH') * g('pH' + h) + g('wR') * g(f'pR{r}') + g('wF') * g(f'pF{h}{f}')
    s = min(sum(x * g(n) for x, n in zip(strokepath(ks), ('fH', 'fR', 'fF'))) for ks in itertools.product(*combs))
    return g('kb') * nested(lambda k: g('base' + k.name)) + g('kp') * nested(penalty) + g('ks') * s


def run(ck):
    ck.part('formula', terms, ck)
    ck.part('models', shipped, ck)


def terms(ck):
    it, w, mk, where = account(ck)
    A, B, C, D = w.letters
    trs = [[(0, A), (0, B), (0, C)], [(0, A), (0, A), (0, A)], [(1, A), (0, B), (0, D)], [(0, D), (1, B), (0, D)], [(0, C), (0, A), (1, D)],
           [(1, A), (1, B), (1, A)], [(2, C), (0, B), (0, A)], [(0, B), (2, D), (1, C)], [(0, D), (0, C), (2, B)], [(2, A), (2, B), (2, C)],
           [(0, B), (0, B), (0, A)], [(0, C), (0, D), (0, D)]]
    n = bad = 0
    for t in trs:
        def go():
            cx = mk()
            put(it, w, cx, t, Const(1))
            return meaneffort(it, cx)
        ps = nobudget(it.analyse(go))
        what = ' '.join('+'.join([k.name for k in w.mods[l][0].args] + [b.name]) for l, b in t)
        for j in range(7):
            env = PARAMS(it, j)
            ev = Ev(env)
            hit = ev.pick(ps)
            if len(hit) != 1:
                raise Lost(f'{what}: {len(hit)} paths')
            p = hit[0]
            n += 1
            want = formula(w, t, env)
            if p.outcome == 'raise':
                bad += 1
                ck.violated('the effort of a triad follows the model', where, f'{what}: {p.value.exc}')
                break
            try:
                got = ev.ev(p.value)
            except Undefined as e:
                bad += 1
                ck.violated('the effort of a triad follows the model', where, f'{what}: undefined {e}')
                break
            if isinstance(got, float):
                ok = abs(got - float(want)) < 1e-9 * max(1, abs(float(want)))
            else:
                ok = got == want
            if not ok:
                bad += 1
                ck.violated('the effort of a triad follows the model', where, f'{what}: {got} instead of {want} for {dict((k.name, str(x)) for k, x in env.items() if k.name[0] == "k")}'[:400])
                break
    ck.count('triads', len(trs))
    ck.count('points', n)
    ck.used(it)
    if not bad:
        ck.holds('the effort of a triad follows the model', where, f'{len(trs)} triads, {n} points')


def shipped(ck):
    """the models offered are complete"""
    it = interp()
    ms = it.modattr('lulua.carpalx', 'models')
    if ms is None:
        raise Gone('lulua.carpalx.models')
    st = it.analyse(lambda: NONE)[0].state
    order, hands, fingers = c18.domain(it)
    for name, m in dictof(st, ms).items():
        if not isapp(m, 'nt'):
            raise Lost(f'model {name!r}')
        d = dict(zip(m.args[0].info.fields, m.args[1:]))
        where = 'lulua/carpalx.py'
        ln = lambda x: len(x.args) if isapp(x, 'tuple') else None
        for f, k in (('kBPS', 3), ('k123S', 4), ('w0HRF', 4), ('fHRF', 3), ('pRow', 5)):
            ck.expect(None if ln(d.get(f)) is None else ln(d[f]) == k, 'a model has all weights', where, f'{name.v} {f}', f'{name.v}: {f} has {ln(d.get(f))} values')
        ck.expect(set(dictof(st, d['pHand'])) == {hands['LEFT'], hands['RIGHT']}, 'a model has all penalties', where, f'{name.v} hands', f'{name.v}: hands')
        for h, x in dictof(st, d['pFinger']).items():
            ck.expect(set(dictof(st, x)) == set(fingers.values()), 'a model has all penalties', where, f'{name.v} {h!r}', f'{name.v}: fingers of {h!r}')
        ck.expect(len(dictof(st, d['pFinger'])) == 2, 'a model has all penalties', where, f'{name.v} hands', f'{name.v}: hands')
        neg = [repr(k) for f in d.values() for k, v in (dictof(st, f).items() if isinstance(f, Ref) else enumerate(f.args)) if isconst(v) and v.v < 0]
        ck.expect(not neg, 'weights are not negative', where, name.v, f'{name.v}: {neg}')
    ck.used(it)
