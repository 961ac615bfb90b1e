"""C27: saving and loading keys, keyboards and layouts."""
import itertools
from fractions import Fraction

from checks.c26 import *

EXPLANATION = ('Keys of every kind with every combination of optional fields, keyboards and layouts of several shapes are saved and loaded by the program on '
               'the abstract heap, with unknown widths, texts and codes; every field of the result is compared with the original, and both the object and '
               'the saved data are compared with their state before. Saved data must be plain (mappings, lists, numbers, text). A copied layout is '
               'modified and the original compared with its state before.')
ASSUMPTIONS = ['fields are not inspected by saving and loading beyond what the paths show (unknown values stand for all values)']


def run(ck):
    ck.part('keys', keyfields, ck)
    ck.part('loading keys', keydata, ck)
    ck.part('keyboards', keyboards, ck)
    ck.part('layouts', layouts, ck)
    ck.part('copies', copies, ck)
    ck.part('equality', equality, ck)


def deep(it, v):
    """structure of a value: what a reader of it sees"""
    v = it.force(v)
    if isinstance(v, Ref):
        o = it.get(v)
        if o.kind == 'dict':
            return ('dict', frozenset((deep(it, s.args[0].args[0]), deep(it, s.args[0].args[1])) if s.op == 'one' else s for s in o.segs))
        if o.kind in ('list', 'set'):
            xs = [deep(it, s.args[0]) if s.op == 'one' else s for s in o.segs]
            return (o.kind, frozenset(xs) if o.kind == 'set' else tuple(xs))
        if o.kind == 'inst':
            return ('inst', o.cls.qual, frozenset((k, deep(it, x)) for k, x in o.attrs.items()))
        if o.kind == 'gen':
            raise Lost('generator')
    if isapp(v, 'tuple'):
        return ('tuple', tuple(deep(it, x) for x in v.args))
    if isapp(v, 'nt'):
        return ('nt', v.args[0].info.qual, tuple(deep(it, x) for x in v.args[1:]))
    if isapp(v, 'frozenset'):
        return ('frozenset', frozenset(deep(it, x) for x in v.args))
    return v


def under(p, d):
    """the structure, with the values the path fixes"""
    m = {}
    for a, v in p.facts.items() if isinstance(p.facts, dict) else p.facts:
        if isapp(a, 'eq') and v is True:
            for x, y in (a.args, a.args[::-1]):
                if isconst(y) and not isinstance(x, Const):
                    m[x] = y
        elif isapp(a, 'eq0') and v is True:
            q = dict(topoly(a.args[0]))
            c = q.pop((), 0)
            if len(q) == 1:
                (mono, k), = q.items()
                if len(mono) == 1:
                    x = Fraction(-c) / k
                    m[mono[0]] = Const(int(x) if x.denominator == 1 else float(x))
        elif isinstance(a, Sym) and v is False and a.typ in ('num', 'int', 'str'):
            m[a] = Const('' if a.typ == 'str' else 0)

    def go(d):
        if isinstance(d, dict):
            return {k: go(v) for k, v in d.items()}
        if isinstance(d, (tuple, list, frozenset)):
            return type(d)(go(x) for x in d)
        try:
            return m.get(d, d)
        except TypeError:
            return d
    return go(d) if m else d


def settle(p, e):
    for k in e.d:
        e.d[k] = under(p, e.d[k])
    return e


def plain(d):
    """made of mappings, lists and scalars only; offending part or None"""
    if isinstance(d, tuple):
        if d[0] == 'dict':
            for k, v in d[1]:
                r = plain(v) or (k if isinstance(k, tuple) else None)
                if r:
                    return r
            return None
        if d[0] == 'list':
            for x in d[1]:
                r = plain(x)
                if r:
                    return r
            return None
        return d
    if isinstance(d, (ClassV, Enum)):
        return d
    return None


def D(it, **kw):
    return it.new(Obj('dict', segs=tuple(seg1(tup(Const(k), v)) for k, v in kw.items())))


def L(it, xs):
    return it.new(Obj('list', segs=tuple(seg1(x) for x in xs)))


def scancodes(it, i):
    if i == 0:
        return NONE
    if i == 1:
        return D(it, xorg=Sym('xorg', 'int'))
    return D(it, xorg=Sym('xorg', 'int'), windows=(tup if i == 2 else lambda *a: L(it, a))(Sym('w1', 'int'), Sym('w2', 'int')), macos=Sym('mac', 'int'))


FIELDS = ('name', 'width', 'isMarked', 'scancode')


def fields(it, b, kind):
    out = {f: deep(it, it.getattr(b, f)) for f in FIELDS + (('span',) if kind == 'MultiRowButton' else ())}
    out['class'] = it.get(b).cls.qual
    return out


def seqs(x):
    """tuples and lists alike"""
    if isinstance(x, tuple) and x and x[0] in ('list', 'tuple'):
        return ('list', tuple(seqs(y) for y in x[1]))
    if isinstance(x, tuple) and x and x[0] == 'dict':
        return ('dict', frozenset((k, seqs(v)) for k, v in x[1]))
    return x


def outcome(ck, ps, where, rule, what):
    """every path must return; yields the paths"""
    for p in nobudget(ps):
        if p.outcome == 'raise':
            ck.expect(False if len(ps) == 1 else None, rule, where, what, f'{what}: fails with {p.value.exc!r}'[:200])
        else:
            yield p


def keyfields(ck):
    it = interp(start=True)
    where = line(it, 'keyboard.Button.serialize')
    for kind, mark, sc, wd in itertools.product(KINDS, (False, True, None), (0, 1, 2), (False, True)):
        res = {}

        def go():
            res.clear()
            c = cls(it, 'keyboard.' + kind)
            if c is None:
                raise Gone('lulua.keyboard.' + kind)
            kw = {}
            if mark is not None:
                kw['isMarked'] = Const(mark)
            if wd:
                kw['width'] = Sym('width', 'num')
            if sc:
                kw['scancode'] = scancodes(it, sc)
            a = it.call(ClassV(c), [Const('x')] + ([Sym('span', 'int')] if kind == 'MultiRowButton' else []), kw)
            res['fields'] = fields(it, a, kind)
            res['before'] = deep(it, a)
            s = it.call(it.getattr(a, 'serialize'), [], {})
            res['after'] = deep(it, a)
            res['saved'] = deep(it, s)
            b = it.call(it.getattr(ClassV(cls(it, 'keyboard.Button')), 'deserialize'), [s], {})
            res['saved2'] = deep(it, s)
            res['loaded'] = fields(it, b, kind)
            res['equal'] = eq(it, a, b)
            it.ev('result', r=dict(res))
            return NONE
        what = f'{kind}, marked {mark}, codes {("no", "without windows", "with windows")[sc]}' + (', width given' if wd else '')
        ck.count('keys')
        for p in outcome(ck, it.analyse(go), where, 'loading a saved key gives an equal key with the same fields', what):
            r = under(p, next(e.r for e in p.trace if e.kind == 'result'))
            diff = [f for f in r['fields'] if r['fields'][f] != r['loaded'].get(f)]
            ck.expect(not diff, 'loading a saved key gives an equal key with the same fields', where, what,
                      f'{what}: {diff} is {[r["loaded"].get(f) for f in diff]}, was {[r["fields"][f] for f in diff]}'[:300])
            ck.expect(r['before'] == r['after'], 'saving does not change the object', where, what, f'{what}: {r["after"]!r} was {r["before"]!r}'[:300])
            ck.expect(r['saved'] == r['saved2'], 'loading does not change the data', where, what, f'{what}: {r["saved2"]!r} was {r["saved"]!r}'[:300])
            bad = plain(r['saved'])
            ck.expect(not bad, 'saved data is plain', where, what, f'{what}: saved data contains {bad!r}'[:200])
    ck.used(it)


def keydata(ck):
    """from data as in a keyboard file"""
    it = interp(start=True)
    where = line(it, 'keyboard.Button.deserialize')
    kinds = {'standard': 'Button', 'letter': 'LetterButton', 'multi': 'MultiRowButton', None: 'Button'}
    for kind, mark, sc, wd in itertools.product(kinds, (None, True, False), (0, 1, 3), (False, True)):
        def go():
            d = dict(name=Const('x'))
            if kind:
                d['kind'] = Const(kind)
            if kind == 'multi':
                d['span'] = Sym('span', 'int')
            if mark is not None:
                d['isMarked'] = Const(mark)
            if wd:
                d['width'] = Sym('width', 'num')
            if sc:
                d['scancode'] = scancodes(it, sc)
            data = D(it, **d)
            before = deep(it, data)
            f = it.getattr(ClassV(cls(it, 'keyboard.Button')), 'deserialize')
            a = it.call(f, [data], {})
            fa = fields(it, a, kinds[kind])
            mid = deep(it, data)
            it.ev('result', before=before, mid=mid, after=None, f=fa, want={k: seqs(deep(it, v)) for k, v in d.items() if k != 'kind'})
            # and once more
            b = it.call(f, [data], {})
            it.ev('again', f=fields(it, b, kinds[kind]))
            return NONE
        what = f'kind {kind}, marked {mark}, ' + ('no codes' if not sc else 'codes') + (', width' if wd else '')
        ck.count('key data')
        for p in outcome(ck, it.analyse(go), where, 'loading keeps every field of the data', what):
            e = next(e for e in p.trace if e.kind == 'result')
            g = next(x for x in p.trace if x.kind == 'again')
            for x in (e, g):
                settle(p, x)
            ck.expect(e.before == e.mid, 'loading does not change the data', where, what, f'{what}: {e.mid!r} was {e.before!r}'[:300])
            diff = [f for f, v in e.want.items() if seqs(e.f.get(f)) != v]
            ck.expect(not diff, 'loading keeps every field of the data', where, what, f'{what}: {diff} is {[e.f.get(x) for x in diff]}'[:300])
            ck.expect(e.f['class'].endswith('.' + kinds[kind]), 'loading gives a key of the kind named', where, what, f'{what}: {e.f["class"]}')
            ck.expect(e.f == g.f, 'loading the same data again gives the same key', where, what, f'{what}: {g.f!r}'[:300])
    ck.used(it)


def keyboards(ck):
    it = interp(start=True)
    where = line(it, 'keyboard.PhysicalKeyboard.deserialize')
    for shape in (((1, 1),), ((2, 1), (1, 0)), ((0, 2), (1, 1), (2, 2)), ()):
        def go():
            n, rows, names = itertools.count(), [], []
            for l, r in shape:
                row = []
                for k in (l, r):
                    half = []
                    for _ in range(k):
                        i = next(n)
                        d = dict(name=Const(f'k{i}'), width=Sym(f'w{i}', 'num'), scancode=scancodes(it, 3 if i != 1 else 0))
                        if i % 2:
                            d['kind'] = Const('letter')
                        names.append((len(rows), len(row), f'k{i}', 'LetterButton' if i % 2 else 'Button'))
                        half.append(D(it, **d))
                    row.append(L(it, half))
                rows.append(L(it, row))
            data = D(it, name=Sym('name', 'str'), description=Sym('desc', 'str'), rows=L(it, rows))
            before = deep(it, data)
            c = ClassV(cls(it, 'keyboard.PhysicalKeyboard'))
            kb = it.call(it.getattr(c, 'deserialize'), [data], {})
            mid = deep(it, data)
            def look(kb):
                got, all_ = [], []
                for i, row in enumerate(it.concrete(it.getattr(kb, 'rows'))):
                    for j, half in enumerate(it.concrete(row)):
                        for b in it.concrete(half):
                            got.append((i, j, it.getattr(b, 'name').v, it.get(b).cls.name))
                            all_.append(got[-1] + (fields(it, b, got[-1][3]),))
                return got, all_, (it.getattr(kb, 'name'), it.getattr(kb, 'description'))
            got, all1, head = look(kb)
            o1 = deep(it, kb)
            s = it.call(it.getattr(kb, 'serialize'), [], {})
            o2 = deep(it, kb)
            saved = deep(it, s)
            again = look(it.call(it.getattr(c, 'deserialize'), [s], {}))
            it.ev('result', before=before, mid=mid, names=names, got=got, o1=o1, o2=o2, saved=saved, saved2=deep(it, s), head=head, all1=all1, all2=again[1], head2=again[2])
            return NONE
        what = f'keyboard with rows {shape}'
        ck.count('keyboards')
        for p in outcome(ck, it.analyse(go), where, 'a loaded keyboard has every key of the data in its place', what):
            e = settle(p, next(e for e in p.trace if e.kind == 'result'))
            ck.expect(e.names == e.got, 'a loaded keyboard has every key of the data in its place', where, what, f'{what}: {e.got}, data has {e.names}'[:300])
            ck.expect(e.head == (Sym('name', 'str'), Sym('desc', 'str')), 'name and description are kept', where, what, f'{what}: {e.head!r}')
            ck.expect(e.before == e.mid, 'loading does not change the data', where, what, f'{what}: {e.mid!r}'[:300])
            ck.expect(e.o1 == e.o2, 'saving does not change the object', where, what, f'{what}: {e.o2!r}'[:300])
            ck.expect(e.all1 == e.all2 and e.head2 == e.head, 'loading a saved keyboard gives an equal keyboard', where, what, f'{what}: {e.all2!r}\nwas {e.all1!r}'[:600])
            ck.expect(e.saved == e.saved2, 'loading does not change the data', where, what, f'{what}: {e.saved2!r} was {e.saved!r}'[:300])
            bad = plain(e.saved)
            ck.expect(not bad, 'saved data is plain', where, what, f'{what}: saved data contains {bad!r}'[:200])
    ck.used(it)


def laydata(it, shape):
    ls = []
    for i, (mods, ks) in enumerate(shape):
        ls.append(D(it, layer=D(it, **{k: Sym(f't{i}{k}', 'str') for k in ks}), modifier=L(it, [L(it, [Const(x) for x in m]) for m in mods])))
    return D(it, name=Sym('name', 'str'), layout=L(it, ls))


def allkeys():
    return tuple(allnames())


SHAPES = ((([()], 'AB'), ([('S',), ('T',)], 'B'), ([('S', 'U')], '')), (([()], ''),), (), (([('S', 'T', 'U'), ()], 'ABC'), ([()], 'A')))


def layouts(ck):
    it = interp(start=True)
    where = line(it, 'layout.GenericLayout.deserialize')
    for shape in SHAPES + (((([()], allkeys()), ([('Fl_shift',), ('Fr_shift', 'Fl_alt')], allkeys()[::-1]))),):
        def go():
            data = laydata(it, shape)
            before = deep(it, data)
            c = ClassV(cls(it, 'layout.GenericLayout'))
            a = it.call(it.getattr(c, 'deserialize'), [data], {})
            mid = deep(it, data)
            o1 = deep(it, a)
            got = tuple((tuple(frozenset(it.concrete(m)) for m in it.concrete(it.getattr(l, 'modifier'))), deep(it, it.getattr(l, 'layout')))
                        for l in it.concrete(it.getattr(a, 'layers'))), it.getattr(a, 'name')
            s = it.call(it.getattr(a, 'serialize'), [], {})
            saved = deep(it, s)
            b = it.call(it.getattr(c, 'deserialize'), [s], {})
            it.ev('result', before=before, mid=mid, o1=o1, o2=deep(it, a), got=got, saved=saved, again=deep(it, b), saved2=deep(it, s))
            return NONE
        what = f'layout of shape {shape}'[:120]
        ck.count('layouts')
        rule = 'a loaded layout has every layer, modifier and text of the data'
        want = tuple((tuple(frozenset(Const(x) for x in m) for m in mods), ('dict', frozenset((Const(k), Sym(f't{i}{k}', 'str')) for k in ks)))
                     for i, (mods, ks) in enumerate(shape)), Sym('name', 'str')
        for p in outcome(ck, it.analyse(go), where, rule, what):
            e = settle(p, next(e for e in p.trace if e.kind == 'result'))
            ck.expect(e.before == e.mid, 'loading does not change the data', where, what, f'{what}: {e.mid!r}'[:300])
            ck.expect(e.o1 == e.o2, 'saving does not change the object', where, what, f'{what}: {e.o2!r}'[:300])
            ck.expect(e.got == want, rule, where, what, f'{what}: {e.got!r}\ndata has {want!r}'[:600])
            ck.expect(e.saved == e.saved2, 'loading does not change the data', where, what, f'{what}: {e.saved2!r} was {e.saved!r}'[:300])
            ck.expect(e.again == e.o1, 'loading a saved layout gives an equal layout', where, what, f'{what}: {e.again!r}'[:300])
            bad = plain(e.saved)
            ck.expect(not bad, 'saved data is plain', where, what, f'{what}: saved data contains {bad!r}'[:200])
    ck.used(it)


def copies(ck):
    it = interp(start=True)
    f = method(it, 'layout.KeyboardLayout', 'copy')
    if f is None:
        raise Gone('lulua.layout.KeyboardLayout.copy')
    where = f'lulua/layout.py:{f.node.lineno}'
    # a trie is used as a mapping here
    it.exthooks['pygtrie.CharTrie'] = lambda i, a, k: i.new(Obj('dict', segs=()))
    for nl in (1, 2, 3):
        def go():
            w = World(it, letters=('A', 'B'), modkeys=('S', 'T'), mods=((), ('S',), ('T',))[:nl])
            w.texts = None
            lc = cls(it, 'layout.KeyboardLayout')
            for h in ('modifierToLayer', 'isModifier', 'getText'):
                it.hooks.pop('lulua.layout.KeyboardLayout.' + h, None)
            lays = w.lst([w.layer(i, m) for i, m in enumerate(w.mods)])
            kb = w.keyboard()
            a = it.call(ClassV(lc), [Const('lay'), lays, kb], {})
            snap = lambda x: (deep(it, it.getattr(x, 'layers')), it.getattr(x, 'name'), deep(it, it.getattr(x, 'keyboard')))
            before = snap(a)
            b = it.call(it.getattr(a, 'copy'), [], {})
            same = snap(b) == before and snap(a) == before
            e1 = eq(it, a, b)
            # change the copy
            for i, l in enumerate(it.concrete(it.getattr(b, 'layers'))):
                d = it.getattr(l, 'layout')
                it.setitem(d, w.letters[0], Const(f'new{i}'))
                r = it.call(it.getattr(b, 'modifierToLayer'), [w.mods[i][0]], {})
                got = it.getitem(it.getattr(it.getitem(r, Const(1)), 'layout'), w.letters[0])
                if got != Const(f'new{i}'):
                    it.ev('stale', layer=i, got=got)
            it.ev('result', same=same, eq=e1, kept=snap(a) == before, before=before, after=snap(a))
            return NONE
        what = f'layout with {nl} layers'
        ck.count('copies')
        for p in outcome(ck, it.analyse(go), where, 'a copy is equal', what):
            e = settle(p, next(e for e in p.trace if e.kind == 'result'))
            ck.expect(e.same, 'a copy is equal', where, what, f'{what}: the copy differs')
            if isconst(e.eq):
                ck.expect(e.eq.v is True, 'a copy is equal', where, what, f'{what}: the copy compares {e.eq!r}')
            ck.expect(e.kept, 'changing a copy does not change the original', where, what, f'{what}: {e.after!r}, was {e.before!r}'[:400])
            st = [x for x in p.trace if x.kind == 'stale']
            ck.expect(not st, 'a copy uses its own layers', where, what, f'{what}: a change of layer {st[0].layer if st else 0} of the copy is not seen by it')
    ck.used(it)


VARIANTS = dict(
    base=[([('S',)], dict(A='a', B='b')), ([()], dict(A='c'))],
    text=[([('S',)], dict(A='a', B='x')), ([()], dict(A='c'))],
    key=[([('S',)], dict(A='a', C='b')), ([()], dict(A='c'))],
    fewer=[([('S',)], dict(A='a', B='b'))],
    less=[([('S',)], dict(A='a')), ([()], dict(A='c'))],
    modifier=[([('T',)], dict(A='a', B='b')), ([()], dict(A='c'))],
    alternative=[([('S',), ('T',)], dict(A='a', B='b')), ([()], dict(A='c'))],
    swapped=[([()], dict(A='c')), ([('S',)], dict(A='a', B='b'))],
    second=[([('S',)], dict(A='a', B='b')), ([()], dict(A='d'))],
)


def equality(ck):
    """layouts are equal exactly if all layers are; every entry is listed"""
    it = interp(start=True)
    c = ClassV(cls(it, 'layout.GenericLayout'))
    where = line(it, 'layout.GenericLayout.__eq__')
    where = where if where else 'lulua/layout.py'

    def load(v):
        ls = [D(it, layer=D(it, **{k: Const(t) for k, t in m.items()}), modifier=L(it, [L(it, [Const(x) for x in a]) for a in alts])) for alts, m in VARIANTS[v]]
        return it.call(it.getattr(c, 'deserialize'), [D(it, name=Const('n'), layout=L(it, ls))], {})
    for v, u in itertools.product(VARIANTS, VARIANTS):
        def go():
            return eq(it, load(v), load(u))
        what = f'layouts {v} and {u}'
        rule = 'layouts are equal exactly if all their layers are'
        ck.count('pairs of layouts')
        for p in outcome(ck, it.analyse(go), where, rule, what):
            ck.expect(p.value.v is (v == u) if isconst(p.value) else None, rule, where, what, f'{what} compare {p.value!r}')
    where = line(it, 'layout.GenericLayout.buttons')
    for v in VARIANTS:
        def go():
            a = load(v)
            n = it.call(it.getattr(a, '__len__'), [], {})
            return tup(n, *[tup(*x.args) for x in it.concrete(it.call(it.getattr(a, 'buttons'), [], {}))])
        want = sorted((k, t) for _, m in VARIANTS[v] for k, t in m.items())
        rule = 'listing a layout gives every entry of every layer once'
        ck.count('listings')
        for p in outcome(ck, it.analyse(go), where, rule, v):
            n, *xs = p.value.args
            try:
                got = sorted((x.args[0].v, x.args[1].v) for x in xs)
            except AttributeError:
                got = None
            ck.expect(None if got is None else got == want, rule, where, v, f'{v}: {got}, the layout has {want}')
            ck.expect(None if not isconst(n) else n.v == len(want), 'the size of a layout is its number of entries', where, v, f'{v}: {n!r}, {len(want)} entries')
    ck.used(it)
