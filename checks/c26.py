"""C26: identity of keys and combinations."""
import ast
import itertools

from checks.data import *
from sa.terms import topoly
from sa.transfer import send, receive

EXPLANATION = ('Keys are created by the program in the abstract state of a fresh process, for every order and kind and for every pattern of equal and '
               'different names, then compared, hashed and asked for their name. What a process would store for a key or combination is computed from '
               'the class (its reduction protocol) and handed to a second process that has created other keys before. Combinations are compared for '
               'every pair of small modifier and key sets. A keyboard is asked for every key by name.')
ASSUMPTIONS = ['names are only compared with each other (otherwise the names tried, all shipped ones among them, are representative)',
               'pickle follows its documented protocol']
KINDS = ('Button', 'LetterButton', 'MultiRowButton')
NAMES = ['x', 'y', 'X', 'x1', 'x ', '']
LONG = ['LongKeyName12', 'LongKeyName1', 'LongKeyName', 'longkeyname12', 'Fl_space', 'Fr_space', 'Bl_1', 'Bl_10', '1', '01', 'a b', 'a  b', ' a', '\u00e4', 'a\u0308',
        '\u0639', '\U0001f600', 'K' * 70, 'K' * 71, 'a/b', 'a.b', 'None', '0']


def allnames():
    out = dict.fromkeys(LONG)
    for n, (path, kb) in definitions('keyboards').items():
        if not isinstance(kb, Exception):
            out.update(dict.fromkeys(b['name'] for _, _, _, b in buttons(kb)))
    return list(out)


def eq(it, a, b):
    return it.force(it.compare(ast.Eq(), a, b))


def ne(it, a, b):
    return it.force(it.compare(ast.NotEq(), a, b))


def hsh(it, a):
    return it.callbuiltin('hash', [a], {})


def make(it, kind, name, **kw):
    c = cls(it, 'keyboard.' + kind)
    if c is None:
        raise Gone('lulua.keyboard.' + kind)
    args = [Const(name)]
    if kind == 'MultiRowButton':
        args.append(Const(2))
    return it.call(ClassV(c), args, kw)


def line(it, q):
    f = it.classes.get('lulua.' + q.rpartition('.')[0])
    f = f.lookup(q.rpartition('.')[2])[0] if f is not None else None
    return f'lulua/{q.split(".")[0]}.py:{f.node.lineno if f is not None and getattr(f, "node", None) is not None else 0}'


def run(ck):
    ck.part('keys', keys, ck)
    ck.part('other objects', others, ck)
    ck.part('many names', many, ck)
    ck.part('shipped names', shipped, ck)
    ck.part('keys across processes', across, ck)
    ck.part('combinations', combinations, ck)
    ck.part('combinations across processes', acrosscomb, ck)


def sole(ps, what):
    if len(ps) != 1:
        raise Lost(f'{what}: {len(ps)} paths')
    return ps[0]


def verdict(ck, p, where, rule, what, wants):
    """wants: expected constants of the returned tuple"""
    if p.outcome == 'raise':
        ck.violated(rule, where, f'{what}: fails with {p.value.exc!r}'[:200])
        return
    for (name, want), v in zip(wants, p.value.args):
        ok = None
        if isconst(v):
            ok = v.v == want
        elif isinstance(v, Const):
            ok = False
        else:
            e = v.args[0] if isapp(v, 'not') else v
            if isapp(e, 'eq0') and all(isapp(x, 'hash') for m in topoly(e.args[0]) for x in m):
                # different objects may have the same hash
                ok = False
        ck.expect(ok, rule, where, f'{what} {name}', f'{what}: {name} is {v!r}, expected {want!r}'[:240])


def keys(ck):
    it = interp(start=True)
    where = line(it, 'keyboard.Button.__eq__')
    ck.used(it)
    for kinds in itertools.product(KINDS, repeat=2):
        for pre in ((), ('y',), ('x', 'y')):
            for n1, n2 in itertools.product(NAMES[:4], repeat=2):
                def go():
                    for q in pre:
                        make(it, 'Button', q)
                    a = make(it, kinds[0], n1)
                    make(it, 'LetterButton', 'z')
                    b = make(it, kinds[1], n2)
                    ha, hb = hsh(it, a), hsh(it, b)
                    return tup(eq(it, a, b), eq(it, b, a), ne(it, a, b), it.getattr(a, 'name'), it.getattr(b, 'name'), Const(ha == hb if n1 == n2 else True))
                p = sole(it.analyse(go), 'two keys')
                s = n1 == n2
                what = f'{kinds[0]} {n1!r}, {kinds[1]} {n2!r}'
                ck.count('pairs')
                verdict(ck, p, where, 'keys are equal exactly if their names are, and then have the same hash', what,
                        [('equality', s), ('equality', s), ('difference', not s), ('name of the first', n1), ('name of the second', n2), ('same hash', True)])
    ck.used(it)


def others(ck):
    it = interp(start=True)
    where = line(it, 'keyboard.Button.__eq__')

    def go():
        a = make(it, 'Button', 'x')
        return tup(eq(it, a, Const('x')), eq(it, a, Const(0)), eq(it, a, NONE))
    ps = it.analyse(go)
    for p in ps:
        if p.outcome == 'raise':
            continue
        for v in p.value.args:
            if isconst(v):
                ck.expect(v.v is not True, 'a key equals nothing but keys', where, '', f'a key equals another value: {v!r}')
    ck.used(it)


def many(ck):
    """names of all sorts, in one process and sent to another"""
    it = interp(start=True)
    where = line(it, 'keyboard.Button.__init__')
    names = allnames()
    store = {}

    def one():
        ks = [make(it, KINDS[i % 3], n) for i, n in enumerate(names)]
        store['out'] = [send(it, k) for k in ks]
        return tup(*[it.getattr(k, 'name') for k in ks], *[eq(it, a, b) for a in ks for b in ks])
    rule = 'keys are equal exactly if their names are, and then have the same hash'
    p = sole(it.analyse(one), 'keys')
    verdict(ck, p, where, rule, f'{len(names)} names', [('name', n) for n in names] + [(f'equality of {a!r} and {b!r}', a == b) for a in names for b in names])
    if p.outcome == 'raise':
        return

    def two():
        ks = [make(it, 'Button', n) for n in reversed(names)][::-1]
        rs = [receive(it, x) for x in store['out']]
        return tup(*[it.getattr(k, 'name') for k in rs], *[eq(it, a, b) for a, b in zip(ks, rs)], *[Const(hsh(it, a) == hsh(it, b)) for a, b in zip(ks, rs)])
    p = sole(it.analyse(two), 'keys')
    verdict(ck, p, where, 'keys keep their identity across processes', f'{len(names)} names',
            [('name', n) for n in names] + [(f'equality of {n!r}', True) for n in names] + [(f'hash of {n!r}', True) for n in names])
    ck.count('names', len(names))
    ck.used(it)


def shipped(ck):
    for n, (path, kb) in definitions('keyboards').items():
        if isinstance(kb, Exception):
            continue
        it = interp(start=True)
        where = line(it, 'keyboard.PhysicalKeyboard.__getitem__')
        names = [b['name'] for _, _, _, b in buttons(kb)]
        bs = {}
        w = dict(kb=None)

        def build():
            rows = []
            L = lambda xs: it.new(Obj('list', segs=tuple(seg1(x) for x in xs)))
            for row in kb['rows']:
                r = []
                for half in row:
                    h = []
                    for b in half:
                        x = make(it, Shipped.CLASSES[b.get('kind', 'standard')], b['name'])
                        bs[b['name']] = x
                        h.append(x)
                    r.append(L(h))
                rows.append(L(r))
            c = cls(it, 'keyboard.PhysicalKeyboard')
            return it.call(ClassV(c), [Const(n), Const('d'), L(rows)], {})

        def go():
            k = build()
            ks = it.concrete(it.call(it.getattr(k, 'keys'), [], {}))
            if ks is None:
                raise Lost('keys of a keyboard')
            order = [names.index(x) if x in names else -1 for r in ks for x in [next((a for a, b in bs.items() if b == r), None)]]
            ok = True
            for i, name in enumerate(names):
                for f in ('find', '__getitem__'):
                    r = it.call(it.getattr(k, f), [Const(name)], {})
                    if r != bs[name]:
                        it.ev('wrongkey', name=name, got=r)
            return tup(Const(tuple(order)), it.callbuiltin('len', [k], {}))
        p = sole(it.analyse(go), 'keyboard')
        if p.outcome == 'raise':
            ck.violated('a keyboard finds each of its keys by name', where, f'{n}: {p.value.exc!r}'[:160])
            continue
        bad = [e for e in p.trace if e.kind == 'wrongkey']
        ck.count('shipped keys', len(names))
        rule = 'a keyboard finds each of its keys by name'
        ck.expect(not bad, rule, where, f'{len(names)} keys of {n}', f'{n}: looking for {bad[0].name if bad else ""} gives another key')
        o, l = p.value.args
        ck.expect(o.v == tuple(range(len(names))), 'a keyboard lists each key once, in order', line(it, 'keyboard.PhysicalKeyboard.keys'), n, f'{n}: keys listed as {o.v}'[:200])
        ck.expect(l.v == len(names) if isconst(l) else None, 'the size of a keyboard is the number of its keys', line(it, 'keyboard.PhysicalKeyboard.__len__'), n, f'{n}: {l!r}')

        x = names[0]
        for bad in ['nosuchkey', '', x[:1], x[:-1], x + '1', x.lower(), x.upper(), x + ' ']:
            if bad in names:
                continue

            def miss():
                k = build()
                return it.call(it.getattr(k, 'find'), [Const(bad)], {})
            ps = it.analyse(miss)
            ck.expect(all(p.outcome == 'raise' for p in ps), 'unknown names are errors', where, f'{n} {bad!r}', f'looking for the unknown name {bad!r} gives {ps[0].value!r}'[:200])
        ck.used(it)


def across(ck):
    """stored in one process, loaded in another that knows other keys"""
    where = None
    sc = lambda it: it.new(Obj('dict', segs=(seg1(tup(Const('xorg'), Const(7))), seg1(tup(Const('windows'), tup(Const(1), Const(2)))))))
    for kind in KINDS:
        for n1 in ('x', 'y'):
            it = interp(start=True)
            where = line(it, 'keyboard.Button.__init__')
            out = []

            def one():
                make(it, 'Button', 'p')
                out.append(send(it, make(it, kind, n1, width=Sym('width', 'num'), isMarked=Const(True), scancode=sc(it))))
                return NONE
            p = sole(it.analyse(one), 'storing a key')
            if p.outcome == 'raise':
                ck.violated('keys keep their identity across processes', where, f'storing a key fails: {p.value.exc!r}'[:160])
                continue
            for pre in ((), ('x',), ('y', 'x'), ('q', 'p', 'x', 'y'), ('y', 'p')):
                it2 = interp(start=True, repo=it.repo) if False else it

                def two():
                    for q in pre:
                        make(it2, 'LetterButton', q)
                    a = receive(it2, out[0])
                    b = make(it2, 'Button', 'x')
                    return tup(eq(it2, a, b), it2.getattr(a, 'name'), Const(hsh(it2, a) == hsh(it2, b) if n1 == 'x' else True), Const(it2.get(a).cls.qual),
                               Const(it2.getattr(a, 'width') == Sym('width', 'num')), it2.getattr(a, 'isMarked'))
                ps = it2.analyse(two)
                p = sole(ps, 'loading a key')
                ck.count('transfers')
                verdict(ck, p, where, 'keys keep their identity across processes', f'{kind} {n1!r} loaded after creating {pre}',
                        [('equality with x', n1 == 'x'), ('name', n1), ('same hash', True), ('kind', 'lulua.keyboard.' + kind), ('width kept', True), ('mark', True)])
        ck.used(it)


def comb(it, m, b):
    c = cls(it, 'layout.ButtonCombination')
    if c is None:
        raise Gone('lulua.layout.ButtonCombination')
    return it.call(ClassV(c), [m, b], {})


def combinations(ck):
    it = interp(start=True)
    w = World(it)
    where = line(it, 'layout.ButtonCombination.__eq__')
    K = [World.key(x) for x in 'ABC']
    sets = [App('frozenset'), App('frozenset', K[0]), App('frozenset', K[1]), App('frozenset', K[0], K[1])]
    for m1, b1, m2, b2 in itertools.product(sets, sets[1:], sets, sets[1:]):
        def go():
            a, b = comb(it, m1, b1), comb(it, m2, b2)
            return tup(eq(it, a, b), ne(it, a, b), Const(hsh(it, a) == hsh(it, b) if (m1, b1) == (m2, b2) else True))
        p = sole(it.analyse(go), 'combinations')
        s = (m1, b1) == (m2, b2)
        ck.count('combinations')
        show = lambda m, b: '+'.join(k.name for k in m.args) + ':' + '+'.join(k.name for k in b.args)
        verdict(ck, p, where, 'combinations are equal exactly if modifiers and keys are, and then have the same hash', f'{show(m1, b1)}, {show(m2, b2)}',
                [('equality', s), ('difference', not s), ('same hash', True)])
    ck.used(it)


def acrosscomb(ck):
    it = interp(start=True)
    w = World(it)
    where = line(it, 'layout.ButtonCombination.__init__')
    K = [World.key(x) for x in 'ABC']
    sets = [App('frozenset'), App('frozenset', K[0]), App('frozenset', K[0], K[1])]
    for m, b in itertools.product(sets, sets[1:]):
        def go():
            a = receive(it, send(it, comb(it, m, b)))
            c = comb(it, m, b)
            d = comb(it, App('frozenset', K[2]), b)
            return tup(eq(it, a, c), eq(it, a, d), Const(hsh(it, a) == hsh(it, c)), Const(it.freeze(it.getattr(a, 'modifier')) == m), Const(it.freeze(it.getattr(a, 'buttons')) == b))
        p = sole(it.analyse(go), 'combinations')
        ck.count('transfers')
        verdict(ck, p, where, 'combinations keep their identity across processes', f'{[k.name for k in m.args]} {[k.name for k in b.args]}',
                [('equality', True), ('equality with another', False), ('same hash', True), ('modifiers kept', True), ('keys kept', True)])
    ck.used(it)
