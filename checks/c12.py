"""C12: the optimizer only permutes."""
from checks.opt_common import *

EXPLANATION = ('One step of the optimizer is analysed from mappings of four positions (two layers, two keys) for every outcome of its random '
               'choices, with and without energy: in every final state the mapping has the same positions as keys and as values. A step is '
               'the only writer of the mapping (writers of buttonMap are enumerated), and a swap is checked for every pair and mapping, so '
               'any sequence of steps permutes.')
ASSUMPTIONS = ['positions are treated uniformly: four positions stand for all']


def run(ck):
    ck.part('steps', steps, ck)
    ck.part('writers', writers, ck)
    ck.part('initial mapping', initial, ck)


def steps(ck):
    it, w, c = harness()
    f, _ = c.lookup('mutate')
    if f is None:
        raise Gone('LayoutOptimizer.mutate')
    where = f'lulua/optimize.py:{f.node.lineno}'
    pos = positions(w)
    n = bad = 0
    pinsets = [(), (pos[0],), (tup(Const(0), NONE),)]
    for ip, perm in enumerate(swapmaps(w, 6)):
        for pins in pinsets:
            for energy in (False, True):
                it.unrollwhile = 2 if ip == 1 and not pins else 1
                tri = [([(0, w.letters[0]), (1, w.letters[1]), (0, w.letters[0])], Sym('v'))] if energy else []

                def go():
                    o = make(it, w, c, perm, pins, tri)
                    it.call(f, [o], {'withEnergy': Const(energy)})
                    return o
                for p in nobudget(it.analyse(go)):
                    n += 1
                    if p.outcome == 'raise':
                        if 'raises' in repr(p.facts):
                            continue
                        bad += 1
                        ck.violated('a step permutes the positions', where, f'raises {p.value.exc}')
                        break
                    m = buttonmap(it, p.state, p.value)
                    if set(m) != set(pos) or sorted(map(repr, m.values())) != sorted(map(repr, pos)):
                        if fuzzy(list(m) + list(m.values())):
                            raise Lost(f'mapping {m}'[:200])
                        bad += 1
                        ck.violated('a step permutes the positions', where,
                                    f'{showmap(dict(zip(pos, [pos[j] for j in perm])))} becomes {showmap(m)}')
                        break
                if bad > 2:
                    return
    if not n:
        raise Lost('no step can be taken')
    ck.count('paths', n)
    ck.used(it)
    if not bad:
        ck.holds('a step permutes the positions', where, f'{n} paths')


def writers(ck):
    """who else changes the mapping of an optimizer or state?"""
    it = interp()
    mod = it.repo.mods.get('lulua.optimize')
    if mod is None:
        raise Gone('lulua.optimize')
    n = 0
    ok = {'mutate', 'optimize'}
    # helpers of a step: named only by it
    users = {}
    for fn in ast.walk(mod.tree):
        if isinstance(fn, ast.FunctionDef):
            for x in ast.walk(fn):
                nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if nm is not None and nm != fn.name:
                    users.setdefault(nm, set()).add(fn.name)
    names = [fn.name for fn in ast.walk(mod.tree) if isinstance(fn, ast.FunctionDef)]
    for _ in names:
        ok |= {x for x in names if x.startswith('_') and users.get(x) and users[x] <= ok}
    for fn in ast.walk(mod.tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for s in ast.walk(fn):
            t = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else s.targets if isinstance(s, ast.Delete) else []
            for x in t:
                for y in ast.walk(x):
                    if isinstance(y, ast.Subscript) and 'buttonMap' in ast.unparse(y.value):
                        n += 1
                        if fn.name not in ok:
                            ck.undecided('only a step writes the mapping', f'lulua/optimize.py:{s.lineno}', f'{fn.name} writes {ast.unparse(y)}')
    ck.holds('only a step writes the mapping', 'lulua/optimize.py', f'{n} stores')


def initial(ck):
    """the mapping optimize() starts from, and its command line swaps"""
    from checks.c16 import started
    for what, m, pos, where in started(ck):
        keys, vals = set(m), sorted(map(repr, m.values()))
        if fuzzy(list(m) + list(m.values())):
            raise Lost('initial mapping')
        ck.expect(sorted(map(repr, keys)) == vals, 'the initial mapping is a permutation', where, what, f'{what}: {showmap(m)}')
        ck.expect(keys == set(pos), 'every letter key of every layer takes part, no modifier does', where, what, f'{what}: {showmap(m)}')
