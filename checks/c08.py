"""C08: triads."""
from checks.sm import *

EXPLANATION = ('TriadStats.process is summarised per abstract window and event class and explored to a fixpoint in product with the window '
               'automaton over three distinct combinations, all ignored keys and skipped characters; every key of the shipped keyboard is '
               'classified as ignored or not from a two-element window.')
ASSUMPTIONS = ['the collector sees combinations of one letter key each (asserted by the code)']
IGNORED = ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs')


def run(ck):
    ck.part('triads', triads, ck)


def triads(ck):
    it, w = harness(ck)
    m = Machine(ck, it, 'stats.TriadStats', w)
    ev = Events(it)
    letters = [('a', ev.comb('Dl1')), ('b', ev.comb('Dr3')), ('A', ev.comb('Dl1', ('El_shift',))), ('tab+a', ev.comb('Dl1', ('Cl_tab',)))]
    alpha = [(n, mk, ('type', ev.canon(mk))) for n, mk in letters]
    alpha += [(k, ev.comb(k), ('ignore',)) for k in IGNORED]
    alpha += [('shift+' + k, ev.comb(k, ('El_shift',)), ('ignore',)) for k in IGNORED[:1]]
    alpha += [('skip ' + repr(c), ev.skip(c), ('skip',)) for c in SKIPPED]

    def spec(win, inp):
        if inp[0] == 'skip':
            return (), {}
        if inp[0] == 'ignore':
            return win, {}
        new = win + (inp[1],)
        if len(new) == 3:
            return new[1:], {('triads', ('tuple',) + new): 1}
        return new, {}

    def eq(got, want):
        def tup(k):
            if isinstance(k, tuple) and k[0] == 'tupleof' and all(isinstance(x, tuple) and x[0] == 'one' for x in k[1:]):
                return ('tuple',) + tuple(x[1] for x in k[1:])
            return k
        return {(c, tup(k)): v for (c, k), v in got.items()} == want
    more = [(k, ev.comb(k), ('ignore',) if k in IGNORED else ('type', ev.canon(ev.comb(k)))) for k in keynames()]
    more += [('Fr_altgr+' + k, mk, ('ignore',) if k in IGNORED else ('type', ev.canon(mk))) for k in keynames() for mk in [ev.comb(k, ('Fr_altgr',))]]
    count = [0] * 3

    def some(node):
        count[len(node[1])] += 1
        return count[len(node[1])] == 1
    seen = explore(ck, m, (), alpha, spec, 'exactly the windows of three typed combinations are counted', deltaeq=eq, limit=300,
                   extra=more, extrafrom=some, extrathen=alpha[:4])
    # every key
    full = [(s, q) for s, q in seen if len(q) == 2][:1]
    rule = 'every key but the whitespace keys and backspace takes part in triads'
    bad = []
    names = keynames()
    for k in names:
        for s, q in full:
            mk = ev.comb(k)
            c = ev.canon(mk)
            want = {} if k in IGNORED else {('triads', ('tuple',) + q + (c,)): 1}
            for st in m.step(s, mk):
                if [a for a, v in st.facts if not counterfact(a, m)]:
                    raise Lost('depends on ' + repr(st.facts))
                if st.outcome == 'raise' or not eq(st.deltas, want):
                    bad.append(k)
    ck.count('keys', len(names))
    if full:
        ck.expect(not bad, rule, m.where, f'{len(names)} keys', f'wrong for {bad[:5]}')
    rejects(ck, m)
    ck.used(it)
