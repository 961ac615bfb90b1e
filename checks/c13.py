"""C13: pins."""
from checks.opt_common import *

EXPLANATION = ('One step of the optimizer is analysed from every third mapping of four positions (two layers, two keys), for every outcome of '
               'its random choices and every kind of pins (single positions, whole layers, both): a pinned position keeps its target, a '
               'position of a pinned layer never leaves its layer by a step. parsePin is folded over the documented argument forms, and the '
               'pins optimize() hands to the optimizer are compared with the expansion of the wildcards.')
ASSUMPTIONS = ['positions are treated uniformly: four positions stand for all', 'fnmatch implements shell wildcards']


def run(ck):
    ck.part('steps', steps, ck)
    ck.part('parsing', parsing, ck)
    ck.part('expansion', expansion, ck)


def steps(ck):
    it, w, c = harness()
    it.unrollwhile = 1
    f, _ = c.lookup('mutate')
    if f is None:
        raise Gone('LayoutOptimizer.mutate')
    where = f'lulua/optimize.py:{f.node.lineno}'
    pos = positions(w)
    L = [tup(Const(i), NONE) for i in (0, 1)]
    pinsets = [(pos[0],), (pos[3],), (pos[1], pos[2]), (L[0],), (L[1],), (L[0], L[1]), (L[0], pos[1]), (pos[2], L[0])]
    n = bad = moved = 0
    for k, perm in enumerate(swapmaps(w, 8)):
        old = dict(zip(pos, [pos[j] for j in perm]))
        for pins in pinsets:
            energy = (k + len(pins)) % 3 == 0
            tri = [([(0, w.letters[0]), (1, w.letters[1]), (0, w.letters[0])], Sym('v'))] if energy else []

            def go():
                o = make(it, w, c, perm, pins, tri)
                it.call(f, [o], {'withEnergy': Const(energy)})
                return o
            for p in nobudget(it.analyse(go)):
                n += 1
                if p.outcome == 'raise':
                    raise Lost(f'raises {p.value.exc}')
                m = buttonmap(it, p.state, p.value)
                for a, b in old.items():
                    if m.get(a) == b:
                        continue
                    moved += 1
                    if fuzzy(m.get(a, NONE)):
                        raise Lost('mapping')
                    if a in pins:
                        bad += 1
                        ck.violated('a pinned key never moves', where, f'pins {[show(x) for x in pins]}: {showmap(old)} becomes {showmap(m)}')
                    elif tup(a.args[0], NONE) in pins and (a not in m or m[a].args[0] != a.args[0]):
                        bad += 1
                        ck.violated('keys of a pinned layer stay on their layer', where, f'pins {[show(x) for x in pins]}: {showmap(old)} becomes {showmap(m)}')
            if bad > 3:
                return
    ck.count('paths', n)
    ck.used(it)
    if not moved:
        raise Lost('no step moves anything')
    if not bad:
        ck.holds('a pinned key never moves', where, f'{n} paths')
        ck.holds('keys of a pinned layer stay on their layer', where, f'{n} paths')


FORMS = {'0': {(0, None)}, '1,Bl1': {(1, 'Bl1')}, '2,B*': {(2, 'B*')}, '0;1,Bl1': {(0, None), (1, 'Bl1')}, '0;1': {(0, None), (1, None)},
         '1,[A-C]*;0,Dl_caps;12': {(1, '[A-C]*'), (0, 'Dl_caps'), (12, None)}}


def parsing(ck):
    it = interp()
    f = it.modattr('lulua.optimize', 'parsePin')
    if f is None:
        raise Gone('lulua.optimize.parsePin')
    where = f'lulua/optimize.py:{f.node.lineno}'
    for s, want in FORMS.items():
        for p in nobudget(it.analyse(lambda: it.call(f, [Const(s)], {}))):
            if p.outcome == 'raise':
                ck.violated('pin arguments mean what they say', where, f'{s!r} raises {p.value.exc}')
                continue
            xs = it.concrete(p.value)
            got = {tuple(y.v for y in x.args) for x in xs} if xs is not None and all(isapp(x, 'tuple') and all(isconst(y) for y in x.args) for x in xs) else None
            if got is None:
                raise Lost(f'{s!r} gives {p.value!r}')
            ck.expect(got == want, 'pin arguments mean what they say', where, repr(s), f'{s!r} gives {got}')
    ck.used(it)


def expansion(ck):
    from checks.c16 import pinned
    pinned(ck)
