"""C05: merging statistics."""
from checks.sm import *

EXPLANATION = ('For every collector class: its counters are the dictionaries it starts with; update() is analysed on collectors whose counters '
               'have shared and exclusive keys and symbolic counts, and the content terms of the result must be the sums on every path, the '
               'merged-in side unchanged, also by later merges. combine(): every path of the record loop must merge every collector of the '
               'record once into the object that is written, and the reading loop may end only at the end of the stream.')
ASSUMPTIONS = ['dictionary entries are merged uniformly: counters are abstracted by two keys per side, one of them shared',
               'pickle.load raises EOFError exactly at the end of the stream']


def run(ck):
    it = interp()
    it2, w = harness(ck)
    st = ck.part('collector list', collectors, ck, it)
    for c in st or []:
        ck.part(f'merging {c.name}', merging, ck, it2, w, c)
    ck.part('merging of nested counters', nested, ck)
    ck.part('combining', combining, ck, st or [])


def collectors(ck, it):
    base = cls(it, 'stats.Stats')
    al = it.modattr('lulua.stats', 'allStats')
    if al is None or base is None:
        raise Gone('lulua.stats.allStats')
    xs = it.concrete(al)
    if xs is None:
        raise Lost('allStats')
    have = [x.info for x in xs if isinstance(x, ClassV)]
    every = [c for q, c in sorted(it.classes.items()) if q.startswith('lulua.stats.') and c is not base and c.subclassof(base)
             and c.lookup('process')[1] is not base]
    for c in every:
        ck.expect(c in have, 'every collector is among those combined', f'lulua/stats.py ({c.name})', '', f'{c.name} is missing from allStats')
    names = [c.lookup('name')[0] for c in have]
    ck.expect(len(set(names)) == len(names), 'collectors have different names', 'lulua/stats.py', repr(names), repr(names))
    return have


def fill(c, tag, keys):
    """a counter with symbolic counts"""
    segs = []
    for s in c[2]:
        k, v = s[1:] if s[0] == 'kv' else s[1][1:]
        segs.append(('one', ('tuple', k, fill(v, f'{tag}/{k!r}', keys))))
    if not segs:
        segs = [('one', ('tuple', Const(k), Sym(f'{tag}.{k}', 'int'))) for k in keys]
    return ('obj', 'dict', tuple(segs)) + tuple(c[3:])


def content(c):
    if isinstance(c, tuple) and c[0] == 'obj' and c[1] == 'dict':
        d = {}
        for s in c[2]:
            if not isinstance(s, tuple):
                raise Lost(f'counter content {s!r}')
            k, v = s[1:] if s[0] == 'kv' else s[1][1:]
            d[k] = content(v)
        return d
    return c


def plus(a, b):
    if isinstance(a, dict):
        return {k: plus(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k)) for k in list(a) + [x for x in b if x not in a]}
    return add(a, b)


def merging(ck, it, w, ci):
    it.recursive_ok = {f'lulua.stats.{n.name}' for n in ast.walk(it.repo.mods['lulua.stats'].tree) if isinstance(n, ast.FunctionDef)}
    m = Machine(ck, it, 'stats.' + ci.name, w)
    f, where = ci.lookup('update')
    w_ = f'lulua/stats.py:{f.node.lineno}'
    ck.expect(bool(m.counters) or None, 'the collector has counters', w_, ', '.join(m.counters), ci.name)
    sides = {}
    for tag, keys in (('a', (1, 2)), ('b', (2, 3)), ('c', (3, 4)), ('e', ())):
        sides[tag] = {k: fill(m.init[k], f'{tag}.{k}', keys) for k in m.counters}

    def build(tag):
        attrs = {k: thaw(it, v) for k, v in m.state0}
        attrs.update({k: thaw(it, v) for k, v in sides[tag].items()})
        return it.new(Obj('inst', cls=ci, attrs=attrs))

    for seq in (('a', 'b'), ('e', 'a', 'b'), ('a', 'e'), ('e', 'a', 'c', 'b')):
        def run_():
            xs = [build(t) for t in seq]
            for x in xs[1:]:
                it.call(f, [xs[0], x], {})
            return App('tuple', *xs)
        want = {}
        for k in m.counters:
            tot = content(sides[seq[0]][k])
            for t in seq[1:]:
                tot = plus(tot, content(sides[t][k]))
            want[k] = tot
        for p in it.analyse(run_):
            if p.outcome == 'raise':
                ck.violated('merging adds up every count', w_, f'{ci.name}: raises {p.value.exc}')
                continue
            if p.outcome == 'budget':
                raise Lost('too many paths')
            if any(e.kind in ('ocall', 'loop', 'mcall') for e in p.trace):
                raise Lost('merge not followed: ' + repr([e for e in p.trace if e.kind in ('ocall', 'loop', 'mcall')][0])[:150])
            cn = Canon(it, p.state)
            got = [dict(cn.of(x)[2]) for x in p.value.args]
            vals = [a for a, v in p.facts if not isapp(a, 'raises')]
            for k in m.counters:
                g = content(got[0][k])
                ck.expect(g == want[k] or (None if fuzzy(g) else False), 'merging adds up every count', w_, f'{ci.name}.{k} over {"+".join(seq)}',
                          f'{ci.name}.{k} is {g} instead of {want[k]}' + (f' when {vals}' if vals else ''))
                for t, x in zip(seq[1:], got[1:]):
                    same = content(x[k]) == content(sides[t][k]) or (None if fuzzy(content(x[k])) else False)
                    ck.expect(same, 'the merged-in side is unchanged', w_, f'{ci.name}.{k}',
                              f'{ci.name}.{k} of the merged-in side becomes {content(x[k])}')
    ck.count('merges', 4)
    ck.used(it)


NESTED = [({}, {}), ({}, {1: 'x'}), ({1: 'x'}, {}), ({1: 'x'}, {1: 'y'}), ({1: 'x', 2: 'y'}, {3: 'z', 1: 'w'}), ({1: 'a'}, {2: 'b', 3: 'c', 4: 'd'}),
          ({}, {1: {}}), ({}, {1: {2: 'x'}}), ({}, {1: {2: 'x', 3: 'y', 4: 'z'}}), ({1: {2: 'a'}}, {1: {2: 'b'}}), ({1: {2: 'a'}}, {1: {3: 'b'}, 5: {2: 'c'}}),
          ({1: {}, 2: {3: 'u'}}, {1: {2: 'x'}, 2: {}}), ({1: {2: {3: 'a', 4: 'b'}}}, {1: {2: {3: 'c'}, 6: {7: 'd'}}}), ({'t': 'a', 'm': {1: 'b'}}, {'t': 'c', 'm': {1: 'd', 2: 'e'}})]


def nested(ck):
    """the helper that merges two dictionaries, on nested dictionaries with zero to three keys"""
    it = interp()
    f = it.modattr('lulua.stats', 'updateDictOp')
    if f is None:
        return
    it.recursive_ok = {'lulua.stats.updateDictOp': 5}
    where = f'lulua/stats.py:{f.node.lineno}'

    def build(d):
        if isinstance(d, str):
            return Sym(d, 'int')
        return it.new(Obj('dict', segs=tuple(seg1(App('tuple', Const(k), build(v))) for k, v in d.items())))

    def spec(d):
        return {Const(k): spec(v) for k, v in d.items()} if isinstance(d, dict) else Sym(d, 'int')
    for a, b in NESTED:
        def go():
            x, y = build(a), build(b)
            it.call(f, [x, y, Ext('operator.add')], {})
            return App('tuple', x, y)
        for p in it.analyse(go):
            what = f'{a} + {b}'
            if p.outcome == 'raise':
                ck.violated('nested counters are added up', where, f'{what}: raises {p.value.exc}')
                continue
            if p.outcome == 'budget' or any(e.kind in ('ocall', 'loop', 'mcall') for e in p.trace):
                raise Lost(f'merge not followed: {what} {[e for e in p.trace if e.kind in ("ocall", "loop", "mcall")][:1]}')
            cn = Canon(it, p.state)
            g = content(cn.of(p.value.args[0]))
            ck.expect(g == plus(spec(a), spec(b)) or (None if fuzzy(g) else False), 'nested counters are added up', where, what, f'{what}: {g}')
    ck.used(it)


def combining(ck, st):
    ups = {f'{c.lookup("update")[1].qual}.update' for c in st}
    it = hookdomain(interp(opaque=ups))
    f = it.modattr('lulua.stats', 'combine')
    if f is None:
        raise Gone('lulua.stats.combine')
    ps = it.analyse(lambda: it.call(f, [Sym('args')], {}))
    ck.used(it)
    where = f'lulua/stats.py:{f.node.lineno}'
    names = {c.lookup('name')[0]: c for c in st}
    done = [p for p in ps if p.outcome == 'return']
    if not done:
        raise Lost('no path completes')
    LOAD = ('pickle.load', '_pickle.load')

    def loads(tr):
        return [e for e in tr if e.kind == 'call' and e.name in LOAD]
    for p in done:
        dumps = [e for e in p.trace if e.kind == 'call' and e.name in ('pickle.dump', '_pickle.dump')]
        if len(dumps) != 1:
            ck.expect(False if not dumps and not any('pickle' in str(getattr(e, 'name', '')) for e in p.trace) else None,
                      'the combined result is written once', where, '', f'{len(dumps)} times')
            continue
        d = dumps[0].fargs[0]
        if isinstance(d, Ref):
            o = p.state.get(d.id)
            items = [s.args[0].args for s in o.segs if isapp(s, 'one')]
        elif isapp(d, 'dictof'):
            items = [x.args[0].args if isapp(x, 'one') else x.args for x in d.args]
        else:
            raise Lost(f'written: {d!r}')
        objs = dict((k, v) for k, v in items)
        for n, c in names.items():
            ck.expect(n in objs, 'the combined result has every collector', where, repr(n), f'{n!r} is not written')
        # loops
        for e in p.trace:
            for lp in e.loop.paths if e.kind == 'loop' else ():
                rec = {x.result for x in loads(lp.trace)} | {e.loop.binder}
                for x in lp.trace:
                    if x.kind == 'setitem' and x.key in names and isapp(x.value, 'getitem') and x.value.args[0] in rec and \
                            (x.obj == d or isinstance(x.obj, Ref) and any(k == x.key for k, _ in items)):
                        ck.violated('every record is merged once into every collector', f'lulua/stats.py:{x.line}', f'{x.key!r} is replaced by that of the record')
        reader = None
        merged = 0
        for e in p.trace:
            if e.kind != 'loop':
                continue
            l = e.loop
            inner = [x for lp in l.paths for x in loads(lp.trace)]
            if inner and reader is None:
                reader = l
                reading(ck, l, LOAD)
            recs = set()
            for lp in l.paths:
                us = [x for x in lp.trace if x.kind == 'ocall' and x.qual in ups]
                if any(x.kind == 'loop' for x in lp.trace) and not us:
                    raise Lost('nested record loop')
                if not us and not (any(any(y.kind == 'ocall' and y.qual in ups for y in q.trace) for q in l.paths)):
                    continue
                if lp.outcome != 'next':
                    if lp.outcome in ('break', 'return', 'raise', 'else') and not us:
                        continue
                merged += 1
                rec = {x.result for x in loads(lp.trace)} | {l.binder}
                for n, c in names.items():
                    mine = [x for x in us if x.args[0] == objs.get(n)]
                    good = [x for x in mine if isapp(x.args[1], 'getitem') and x.args[1].args[0] in rec and x.args[1].args[1] == n]
                    ck.expect(True if len(mine) == len(good) == 1 else False, 'every record is merged once into every collector', f'lulua/stats.py:{l.line}',
                              repr(n), f'{n!r}: merged {[x.args[1] for x in mine]}' + (f' when {lp.facts}' if lp.facts else ''))
                for x in us:
                    if x.args[0] not in objs.values():
                        ck.violated('records are merged into what is written', f'lulua/stats.py:{x.line}', f'merges into {x.args[0]!r}')
                if lp.outcome == 'break':
                    ck.violated('combining goes on to the end of the stream', f'lulua/stats.py:{l.line}', 'stops after a record')
        if reader is None or not merged:
            raise Lost('record loop not found')


def reading(ck, l, LOAD):
    rule = 'records are read until the end of the stream, none is dropped'
    for lp in l.paths:
        ld = [x for x in lp.trace if x.kind == 'call' and x.name in LOAD]
        eof = any(isapp(a, 'raises') and v and a.args[1] == 'EOFError' or isapp(a, 'raises') and v and 'EOFError' in repr(a) for a, v in lp.facts)
        where = f'lulua/stats.py:{l.line}'
        if lp.outcome in ('break', 'return', 'else'):
            other = [a for a, v in lp.facts if isapp(a, 'raises') and v]
            unsure = any('Unpickl' in repr(a) or 'unknown' in repr(a.args[1]) for a in other)
            ck.expect(True if eof else (None if unsure else False), rule, where, 'ends at EOFError',
                      f'reading ends when {lp.facts}')
        elif lp.outcome == 'next':
            ys = [x for x in lp.trace if x.kind in ('yield', 'append') and ld and x.value == ld[0].result]
            us = [x for x in lp.trace if x.kind == 'ocall']
            ck.expect(True if len(ys) == 1 or us else (False if not ys else None), rule, where, 'hands on the record', f'drops the record when {lp.facts}')
