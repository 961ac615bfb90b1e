"""C06: counting keys, combinations and skipped characters."""
from checks.sm import *

EXPLANATION = ('SimpleStats.process is summarised for every class of event (0, 1 and 2 modifiers, skipped characters, foreign objects) with '
               'symbolic counters; on every path the increments derived from the content terms of the counters must be exactly one for the '
               'combination and one per key, or one for the skipped character. ButtonCombination.__iter__ is analysed inline.')
ASSUMPTIONS = ['a combination has distinct modifier and letter keys; the number of modifiers enters only through iteration']


def run(ck):
    ck.part('counting', counting, ck)


def counting(ck):
    it, w = harness(ck)
    m = Machine(ck, it, 'stats.SimpleStats', w)
    ev = Events(it)
    for c in ('buttons', 'combinations', 'unknown'):
        ck.expect(c in m.counters, 'the basic statistics count keys, combinations and skipped characters', m.where, c, f'no counter {c}')
    alpha = []
    for mods in ((), ('S',), ('S', 'T')):
        for b in ('a', 'b', 'Fl_space'):
            mk = ev.comb(b, mods)
            alpha.append(('+'.join(mods + (b,)), mk, ('comb', ev.canon(mk), mods + (b,))))
    for c in SKIPPED:
        alpha.append(('skip ' + c, ev.skip(c), ('skip', c)))

    def spec(q, inp):
        if inp[0] == 'skip':
            return q, {('unknown', Const(inp[1])): 1}
        d = {('buttons', key(k)): 1 for k in inp[2]}
        d[('combinations', inp[1])] = 1
        return q, d
    more = []
    for k in keynames():
        for mods in ((), ('El_shift',), ('Fr_altgr', 'Dl_caps')):
            if k not in mods:
                mk = ev.comb(k, mods)
                more.append(('+'.join(mods + (k,)), mk, ('comb', ev.canon(mk), mods + (k,))))
    explore(ck, m, None, alpha, spec, 'each event adds one per key and one for the combination, or one for the skipped character',
            extra=more, extrathen=alpha[:3])
    rejects(ck, m)
    ck.used(it)
