"""C15: annealing."""
from checks.opt_common import *
import itertools
import math

EXPLANATION = ('The annealing loop is analysed for 0 to 3 steps with a symbolic energy change per step, on a real optimizer state (mapping and '
               'effort account), every decision of the loop giving a path. A step leaves a mark in the mapping and a triad in the account, '
               'in place. On every path the marks show which steps were kept; for every small integer valuation of the energy changes that '
               'satisfies the conditions of the path, the result is compared with the history: lowest energy reached, with the state '
               'belonging to it, unharmed by a further step; improvements kept; a rejected step leaves no trace.')
ASSUMPTIONS = ['exact arithmetic (rounding: N02)', 'three steps stand for any number: the loop carries no other state than the energies and the two snapshots']

VALS = (-300, -1, 0, 1, 2)      # 2 after 300 is accepted
MARK = tup(Const('mark'), Const('mark'))


def run(ck):
    ck.part('annealing', annealing, ck)
    ck.part('long runs', longer, ck)
    ck.part('snapshots', snapshots, ck)


def snapshots(ck):
    """a copy of a state has a mapping and an account of its own, whatever their size"""
    it, w, c = harness()
    sc = cls(it, 'optimize.LayoutOptimizerState')
    f = sc.lookup('copy')[0] if sc is not None else None
    if f is None:
        raise Gone('LayoutOptimizerState.copy')
    where = f'lulua/optimize.py:{f.node.lineno}'
    rule = 'a snapshot is an independent copy'
    for n in range(0, 7):
        def go():
            o = make(it, w, c, range(4))
            s = it.getattr(o, 'state')
            if 'buttonMap' not in it.get(s).attrs:
                raise Lost('optimizer state')
            it.setattr(s, 'buttonMap', w.dct([(tup(Const(0), Const(i)), tup(Const(0), Const(n - i))) for i in range(n)]))
            if not {'buttonMap', 'carpalx'} <= set(it.get(s).attrs):
                raise Lost('optimizer state')
            put(it, w, it.getattr(s, 'carpalx'), 'q', Sym('v', 'int'))
            r = it.call(f, [s], {})
            a, b = it.getattr(s, 'buttonMap'), it.getattr(r, 'buttonMap')
            x, y = it.getattr(s, 'carpalx'), it.getattr(r, 'carpalx')
            flat = lambda t: {k: v for k, v in it.get(t).attrs.items() if not isinstance(v, Ref)}
            it.ev('copied', same=r == s, maps=(a, b), equal=dictof(it.st, a) == dictof(it.st, b), acc=(x, y),
                  sums=flat(x) == flat(y))
            return NONE
        for p in nobudget(it.analyse(go)):
            if p.outcome == 'raise':
                ck.violated(rule, where, f'{n} positions: {p.value.exc}')
                continue
            e = [e for e in p.trace if e.kind == 'copied'][0]
            ok = not e.same and e.maps[0] != e.maps[1] and e.equal and e.acc[0] != e.acc[1] and e.sums
            ck.expect(ok, rule, where, f'{n} positions', f'{n} positions: shared map {e.maps[0] == e.maps[1]}, equal {e.equal}, shared account {e.acc[0] == e.acc[1]}, equal sums {e.sums}')
    ck.used(it)


def chain(t):
    out = []
    while isapp(t, 'mut'):
        out.append(t.args[1])
        t = t.args[0]
    if t != Const('start'):
        return None
    return tuple(reversed(out))


def content(it, st, s):
    """(steps kept, account) of a state"""
    if not isinstance(s, Ref):
        raise Lost(f'state {s!r}'[:100])
    a = st.get(s.id).attrs
    if 'buttonMap' not in a or 'carpalx' not in a:
        raise Lost('optimizer state')
    m = dictof(st, a['buttonMap'])
    c = chain(m.get(MARK, NONE))
    if c is None:
        raise Lost('mapping')
    acc = {k: v for k, v in st.get(a['carpalx'].id).attrs.items() if not isinstance(v, Ref) or k in ('absEffort', 'N')} if isinstance(a['carpalx'], Ref) else None
    if acc is None:
        raise Lost('effort account')
    return c, tuple(sorted((k, repr(v)) for k, v in acc.items() if not isinstance(v, Ref)))


LONG = [(-300, 2, -1, 1, 0, 2, -5, 300, -300, 1, 2, 3), (1, 1, 1, -1, -1, -1, -1, 2, 2, 2, -7, 7, 100, -100, 0, 0, 1, -1, 3, -2, 50, 60, -1, -2),
        (100,) + (5, -5, 1, -1, 20) * 4 + (0, 90, 80, -3, 1), (-100,) + (99, -1) * 9 + (100, 100, -2), (0,) * 12]


def longer(ck):
    """runs of many steps with given energy changes"""
    annealing(ck, LONG)


def annealing(ck, runs=None):
    it, w, c = harness()
    a = cls(it, 'optimize.Annealer')
    f = a.lookup('run')[0] if a is not None else None
    if f is None:
        raise Gone('Annealer.run')
    where = f'lulua/optimize.py:{f.node.lineno}'
    it.opaque = set(it.opaque) | {'tqdm.tqdm'}
    x, y = w.letters
    k = {'n': 0}
    cur = []

    def mutate(i, args, kw):
        o = args[0]
        j = k['n']
        k['n'] += 1
        s = i.getattr(o, 'state')
        bm, cx = i.getattr(s, 'buttonMap'), i.getattr(s, 'carpalx')
        before = content(i, i.st, s)
        m = dictof(i.st, bm)
        i.set(bm, i.get(bm).with_(segs=tuple(seg1(tup(p, App('mut', v, j) if p == MARK else v)) for p, v in m.items())))
        g, _ = i.get(cx).cls.lookup('addTriad')
        if g is None:
            raise Lost('Carpalx.addTriad')
        t = tup(*[w.comb(0, [x, y][(j >> b) & 1]) for b in range(3)])
        i.call(g, [cx, t, Sym(f'v{j}', 'int')], {})
        i.ev('step', n=j, before=before, after=content(i, i.st, s))
        return Sym(f'd{j}', 'int') if runs is None or j >= len(cur) else Const(cur[j])
    it.hooks['lulua.optimize.LayoutOptimizer.mutate'] = mutate
    n = bad = seen = 0
    for steps in (0, 1, 2, 3) if runs is None else runs:
        vals = [VALS] * steps if runs is None else [(v,) for v in steps]
        if runs is not None:
            cur[:] = steps
            steps = len(steps)

        def go():
            k['n'] = 0
            o = make(it, w, c, range(4))
            s = it.getattr(o, 'state')
            bm = it.getattr(s, 'buttonMap')
            it.set(bm, it.get(bm).with_(segs=it.get(bm).segs + (seg1(tup(MARK, Const('start'))),)))
            first = content(it, it.st, s)
            r = it.call(f, [o], {'steps': Const(steps)})
            end = content(it, it.st, it.getattr(o, 'state'))
            took = k['n']
            mutate(it, [o], {})
            it.ev('end', first=first, end=end, took=took)
            return r
        covered = set()
        for p in nobudget(it.analyse(go)):
            n += 1
            r = p.value
            evs = [e for e in p.trace if e.kind == 'step']
            ends = [e for e in p.trace if e.kind == 'end']
            if any(e.kind == 'loop' for e in p.trace):
                raise Lost('loop not unrolled')
            for d in itertools.product(*vals):
                ev = Ev({Sym(f'd{i}', 'int'): v for i, v in enumerate(d)})
                try:
                    if not ev.holds(p.facts):
                        continue
                except Undefined as e:
                    # decided before this point of the path on another path
                    covered.add(d)
                    bad += 1
                    ck.violated('annealing has a result for every energy change', where, f'energy changes {d}: {e or "undefined"}')
                    break
                covered.add(d)
                seen += 1
                if p.outcome == 'raise':
                    bad += 1
                    ck.violated('annealing has a result for every energy change', where, f'energy changes {d}: {p.value.exc}')
                    break
                if not ends or ends[0].took != steps:
                    bad += 1
                    ck.violated('as many steps as asked for', where, f'{ends and ends[0].took} of {steps} steps')
                    break
                why = verdict(it, p, evs[:steps], ends[0], r, d, ev)
                if why:
                    bad += 1
                    ck.violated(why[0], where, f'energy changes {d}: {why[1]}')
                    break
            if bad > 3:
                return
        if len(covered) != math.prod(map(len, vals)):
            raise Lost('paths do not cover all energy changes')
    ck.count('paths', n)
    ck.count('valuations', seen)
    ck.used(it)
    if not bad:
        for rule in RULES:
            ck.holds(rule, where, f'{n} paths, {seen} valuations')


RULES = ['the best state reached is returned', 'the energy returned belongs to the state returned', 'a rejected step leaves no trace',
         'improvements are never rejected', 'snapshots are never changed by later steps']


def verdict(it, p, evs, end, r, d, ev):
    E = lambda c: sum(d[j] for j in c)
    if not (isapp(r, 'tuple') and len(r.args) == 2):
        raise Lost(f'result {r!r}'[:100])
    acct = {end.first[0]: end.first[1]}
    cur = end.first
    reached = [cur[0]]
    for j, e in enumerate(evs):
        if e.before != cur and j == 0:
            return RULES[2], 'the first step does not start from the initial state'
        acct[e.after[0]] = e.after[1]
        nxt = evs[j + 1].before if j + 1 < len(evs) else end.end
        if nxt == e.after:
            reached.append(nxt[0])
        elif nxt == e.before:
            if d[j] < 0:
                return RULES[3], f'step {j + 1} is undone'
        elif acct.get(nxt[0]) == nxt[1]:
            return RULES[2], f'after step {j + 1} (kept so far {e.before[0]}) the state is that of steps {nxt[0]}'
        else:
            return RULES[2], f'after step {j + 1} mapping and effort account do not belong together'
        cur = nxt
    got = content(it, p.state, r.args[0])
    en = ev.ev(r.args[1])
    if got[0] not in acct:
        return RULES[4], f'the state returned has steps {got[0]}, never reached'
    if acct[got[0]] != got[1]:
        return RULES[4], 'mapping and effort account of the state returned do not belong together'
    best = min(E(c) for c in reached)
    if en != E(got[0]):
        return RULES[1], f'energy {en}, the state has {E(got[0])}'
    if en != best or got[0] not in reached:
        return RULES[0], f'energy {en}, the best one reached is {best}'
    return None
