from checks.layout_common import *
from checks.world import World, tup
from sa.evalt import Ev, Rec, Undefined, loopsof

EXPLANATION = ('Abstract interpretation of the constructor of KeyboardLayout for arbitrary layers: on every path through its loops '
               'each key with text appends exactly one combination (that modifier set, that key) to the entry of that text, an '
               'entry is created only if it is absent, each modifier set is recorded with the index and the layer it belongs '
               'to; getText and modifierToLayer read those entries; specialize maps every layer, modifier set and key through '
               'the keyboard lookup and drops nothing; the keyboard lookup returns the key of that name.')
ASSUMPTIONS = ['CharTrie behaves as a mapping for item access, setdefault and membership']


def run(ck):
    ck.part('constructor', ctor, ck)
    ck.part('lookup of combinations', lookups, ck)
    ck.part('binding to a keyboard', specialize, ck)
    ck.part('keys are found by name', find, ck)
    ck.part('bound layouts', bound, ck)


def trie(t):
    return isapp(t, 'call') and 'Trie' in str(t.args[0])


def istrie(t):
    """the trie, or the trie inside a loop"""
    return trie(t) or (isapp(t, 'mu') and 'Trie' in repr(t))


class Shape:
    """each(layers), its text dictionary and modifier list"""

    def __init__(self):
        self.layer = App('elem', LAYERS, 0)
        self.lay = App('attr', self.layer, 'layout')
        self.mods = App('attr', self.layer, 'modifier')
        self.key = App('elem', self.lay, 0)
        self.text = App('getitem', self.lay, self.key)
        self.mod = App('elem', self.mods, 0)


def strip(t):
    """forget the loop depth of binders"""
    return rebuild(t, lambda x: App('elem', x.args[0], 0) if isapp(x, 'elem') else (App('idx', x.args[0], 0) if isapp(x, 'idx') else x))


def combof(trace_events, ref):
    at_ = {}
    for e in trace_events:
        if e.kind == 'setattr' and e.obj == ref:
            at_[e.name] = e.value
    return at_


def ctor(ck):
    it, ps = construct(ck)
    S = Shape()
    for p in ps:
        if p.outcome == 'raise':
            ck.violated('binding never fails', 'lulua/layout.py', p.value.exc)
            continue
        if p.notes:
            raise Lost(str(p.notes[:2]))
        me = p.value.id
        attrs = p.state.get(me).attrs
        for n, w in (('name', Sym('name')), ('layers', LAYERS), ('keyboard', Sym('keyboard'))):
            v = attrs.get(n)
            ck.expect(None if v is None else v == w, f'{n} is kept', 'lulua/layout.py', v, f'{n} = {v!r}')
        mtl = attrs.get('_modifierToLayer')
        evs = list(effects(p.trace))
        # modifier sets
        n = 0
        for e, ctx, facts, lp in evs:
            if e.kind == 'setitem' and e.obj == mtl:
                n += 1
                k, v = strip(e.key), strip(e.value)
                want = App('tuple', App('idx', LAYERS, 0), S.layer)
                ok = k == S.mod and v == want
                understood = v.__class__ is App and v.op == 'tuple'
                ck.expect(True if ok else (False if understood and isapp(k, 'elem') else None), 'a modifier set is recorded with its layer and index', at(e),
                          f'[{k!r}] = {v!r}', f'[{k!r}] = {v!r}')
        for e, ctx, facts, lp in evs:
            if e.kind in ('delitem', 'pop', 'clear') and e.obj == mtl:
                ck.violated('every modifier set of every layer is recorded', at(e), f'{e.kind} when {showf(facts)}')
        if not n:
            o = p.state.get(mtl.id) if isinstance(mtl, Ref) else None
            ck.undecided('a modifier set is recorded with its layer and index', 'lulua/layout.py', o.segs if o else mtl)
        else:
            r = must(p.trace, lambda e: e.kind == 'setitem' and e.obj == mtl, (), [LAYERS, S.mods])
            ck.expect(r[0], 'every modifier set of every layer is recorded', 'lulua/layout.py', '', r[1])
        # combinations
        apps = [x for x in evs if x[0].kind == 'append' and (isentry(x[0].obj, p) or entrylist(x[0].obj, evs))]
        if not apps:
            ck.undecided('every key with text is offered', 'lulua/layout.py', 'no combination is appended to an entry')
        flatev = [x[0] for x in evs]
        for e, ctx, facts, lp in apps:
            c = combof(flatev, e.value)
            if isapp(e.value, 'inst') or not c:
                ck.undecided('the combination offered is that modifier set and that key', at(e), e.value)
                continue
            k = strip(entrykey(e.obj, evs))
            m, b = strip(c.get('modifier', NONE)), strip(c.get('buttons', NONE))
            ok = k == S.text and m == S.mod and b == App('frozenset', S.key)
            und = not (known(k, S) and known(m, S) and known(b, S))
            ck.expect(True if ok else (None if und else False), 'the combination offered is that modifier set and that key', at(e),
                      f'[{k!r}] += ({m!r}, {b!r})', f'[{k!r}] += ({m!r}, {b!r})')
        if apps:
            objs = {id(x[0]) for x in apps}
            r = must(p.trace, lambda e: id(e) in objs, (), [LAYERS, S.mods, S.lay], S)
            ck.expect(r[0], 'every key with text is offered', 'lulua/layout.py', '', r[1])
        for e, ctx, facts, lp in evs:
            if e.kind == 'setitem' and istrie(e.obj):
                absent = any(isapp(a, 'in') and a.args[0] == e.key and v is False for a, v in facts)
                keeps = contains(e.value, lambda x: isapp(x, 'getitem') and x.args[1] == e.key)
                fresh = isinstance(e.value, Ref)
                ck.expect(True if absent else (None if keeps or not fresh else False), 'an entry is created only if there is none', at(e), '',
                          f'entry {e.key!r} is replaced by {e.value!r}')
            if e.kind in ('delitem', 'pop', 'clear') and istrie(getattr(e, 'obj', None)):
                ck.violated('nothing offered is withdrawn', at(e), e)
            if e.kind == 'mcall' and istrie(e.recv) and e.name in ('pop', 'clear', 'popitem', 'update', 'merge'):
                ck.expect(None if e.name in ('update', 'merge') else False, 'nothing offered is withdrawn', at(e), '', e)


def known(t, S):
    def ok(x):
        return isconst(x) or x == LAYERS or (isinstance(x, App) and x.op in ('elem', 'attr', 'getitem', 'frozenset', 'tuple', 'idx', 'concat', 'slice', 'strmeth', 'one', 'fsetof'))
    return all(ok(x) for x in subterms(t))


def isentry(t, p):
    return isapp(t, 'getitem') and istrie(t.args[0])


def entrylist(t, evs):
    return isinstance(t, Ref) and any(e.kind in ('setitem', 'setdefault') and istrie(e.obj) and e.value == t for e, *_ in evs)


def entrykey(t, evs):
    if isapp(t, 'getitem'):
        return t.args[1]
    for e, *_ in evs:
        if e.kind in ('setitem', 'setdefault') and istrie(e.obj) and e.value == t:
            return e.key
    raise Lost('entry')


def excluded(facts, S):
    """the path concerns a key without text"""
    if S is None:
        return False
    for a, v in facts:
        a = strip(a)
        if isapp(a, 'isinstance') and a.args[0] == S.text and v is False:
            return True
        if isapp(a, 'eq') and S.text in a.args and NONE in a.args and v is True:
            return True
        if isapp(a, 'truth') and a.args[0] == S.text and v is False:
            return True
        if isapp(a, 'eq') and Const('') in a.args and S.text in a.args and v is True:
            return True
    return False


def must(trace, is_effect, facts, srcs, S=None, path=''):
    """exactly one effect for every element of the product of srcs, whatever the nesting"""
    if not srcs:
        n = sum(1 for e in trace if is_effect(e))
        if n == 1:
            return True, ''
        return (False, f'{n} times{path}')
    if sum(1 for e in trace if is_effect(e)):
        return (False, f'only once for all of {srcs}{path}')
    hits = []
    for e in trace:
        if e.kind == 'loop' and any(is_effect(x[0]) for x in effects([e])):
            hits.append(e.loop)
    if len(hits) > 1:
        return None, f'{len(hits)} loops'
    if not hits:
        return False, f'never{path}'
    l = hits[0]
    src = strip(l.src)
    if isapp(src, 'items'):
        src = src.args[0]
    if src not in srcs:
        # looping over something else
        return (None, f'loop over {src!r}')
    rest = [x for x in srcs if x != src]
    for lp in l.paths:
        f = tuple(facts) + tuple(lp.facts)
        if excluded(lp.facts, S):
            continue
        if lp.outcome in ('break', 'return'):
            return False, f'the loop over {src!r} is left early when {lp.facts}'
        if lp.outcome == 'raise':
            continue
        if S is not None and already(l, lp, S):
            continue
        r = must(lp.trace, is_effect, f, rest, S, f' when {showf(lp.facts)}')
        if r[0] is not True:
            if r[0] is False and 'never' in r[1] and not understood(lp.facts):
                return None, r[1]
            return r
    return True, ''


def already(l, lp, S):
    """the combination of this key and modifier set is known to be in the entry of its text"""
    for a, v in lp.facts:
        if v is True and isapp(a, 'in') and isinstance(a.args[0], Ref):
            c = combof(lp.trace, a.args[0])
            if strip(c.get('modifier', NONE)) == S.mod and strip(c.get('buttons', NONE)) == App('frozenset', S.key) and entryof(a.args[1], l, S):
                return True
    return False


def entryof(t, l, S):
    """the entry of that text, possibly within a loop"""
    if isapp(t, 'mu') and t.args[0] == l.id:
        return any(sl[0] == 'cont' and entryof(sl[1], l, S) or sl[0] == 'obj' for sl, (init, mu) in l.slots.items() if occurs(mu, t))
    return isinstance(t, Ref) or (isapp(t, 'getitem') and istrie(t.args[0]) and strip(t.args[1]) == S.text)


def showf(fs):
    return ' & '.join(('' if v else 'not ') + repr(a) for a, v in fs)[:250]


def understood(facts):
    return not any(contains(a, lambda x: isapp(x, 'unknown')) for a, _ in facts)


def lookups(ck):
    it = interp()
    me = sym(it, 'self', 'layout.KeyboardLayout')
    comb = Sym('comb', None, cls(it, 'layout.ButtonCombination'))
    mtl = App('attr', me, '_modifierToLayer')
    mod = Sym('mod')

    def one(name, args, want, rule, alts=()):
        f = method(it, 'layout.KeyboardLayout', name)
        if f is None:
            raise Gone('lulua.layout.KeyboardLayout.' + name)
        ps = it.analyse(lambda: it.call(f, [me] + args, {}))
        for p in ps:
            if p.outcome == 'raise':
                ck.expect(None if getattr(p.value, 'implicit', False) else False, rule, f'lulua/layout.py:{f.node.lineno}', '', f'raises {p.value.exc} when {showf(p.facts)}')
                continue
            v = p.value
            ok = v == want or v in alts
            und = contains(v, lambda x: isapp(x, 'unknown') or isapp(x, 'call') or isapp(x, 'after'))
            ck.expect(True if ok else (None if und else False), rule, f'lulua/layout.py:{f.node.lineno}', v, f'returns {v!r} when {showf(p.facts)}')

    b = App('attr', comb, 'buttons')
    lay = App('attr', App('getitem', App('getitem', mtl, App('attr', comb, 'modifier')), Const(1)), 'layout')
    one('modifierToLayer', [mod], App('getitem', mtl, mod), 'looking up a modifier set gives the recorded layer')
    one('getText', [comb], App('getitem', lay, App('getitem', b, Const(0))), 'looking up a combination gives its text on its layer',
        (App('getitem', lay, App('elem', b, 0)),))
    one('isModifier', [mod], App('in', mod, mtl), 'modifier sets are recognised')
    # text of a key on all layers
    f = method(it, 'layout.KeyboardLayout', 'getButtonText')
    if f is not None:
        btn = Sym('button')
        ps = it.analyse(lambda: it.call(f, [me, btn], {}))
        layers = [Rec('Layer', modifier=[], layout={'k': 'a', 'x': 'z'}), Rec('Layer', modifier=[], layout={'x': 'q'}), Rec('Layer', modifier=[], layout={'k': 'b'})]
        for p in ps:
            e = Ev({me: Rec('KL', layers=layers), btn: 'k'}, loops=loopsof(p.trace), objs=it.objs)
            if p.outcome == 'raise' or not e.holds(p.facts):
                continue
            v = e.ev(p.value)
            ck.expect(list(v) == ['a', None, 'b'], 'a key has its text on every layer, in order', f'lulua/layout.py:{f.node.lineno}', v, f'{v}')
    ck.used(it)


FIND = 'lulua.keyboard.PhysicalKeyboard.find'
GET = 'lulua.keyboard.PhysicalKeyboard.__getitem__'


def specialize(ck):
    C = 'lulua.layout.KeyboardLayout.__init__'
    it = interp(opaque={FIND, GET, C}, pure={FIND, GET})
    f = method(it, 'layout.GenericLayout', 'specialize')
    if f is None:
        raise Gone('lulua.layout.GenericLayout.specialize')
    me, kb = sym(it, 'self', 'layout.GenericLayout'), sym(it, 'kb', 'keyboard.PhysicalKeyboard')
    ps = it.analyse(lambda: it.call(f, [me, kb], {}))
    ck.used(it)
    rule = 'binding keeps every layer, modifier set and key'
    where = f'lulua/layout.py:{f.node.lineno}'
    # witness domain: layers with none, one, several modifiers and keys, also shared names and empty texts
    dom = []
    L = lambda m, d: Rec('Layer', modifier=m, layout=d)
    base = [L([()], {'Cl1': 'a', 'Cl2': 'b', 'Fl_space': ' '}), L([('El_shift',), ('Er_shift',)], {'Cl1': 'A', 'Dl1': ''}),
            L([('Fr_altgr', 'El_shift'), ('Dl_caps',), ('Dr1', 'Fr_altgr')], {'Cl1': 'xyz', 'Br1': 'a', 'Bl1': None, 'Cl2': 'b'}), L([], {}), L([('Fl_ctrl',), ('Fl_ctrl', 'El_shift', 'Fr_altgr', 'Dl_caps')], {})]
    dom.append(base)
    dom.append(base[::-1])
    dom.append([base[1]])
    dom.append([])

    def call(q, a):
        if q in (FIND, GET):
            return (('key', a[1]),)

    n = 0
    for layers in dom:
        want = [(sorted(sorted(('key', x) for x in m) for m in l.d['modifier']),
                 {('key', k): v for k, v in l.d['layout'].items()}) for l in layers]
        for p in ps:
            e = Ev({me: Rec('GL', name='n', layers=layers), kb: 'KB'}, call=call, loops=loopsof(p.trace), objs=it.objs)
            if not e.holds(p.facts):
                continue
            if p.outcome == 'raise':
                ck.violated(rule, where, f'raises {p.value.exc}')
                return
            new = [x for x in p.trace if x.kind == 'ocall' and x.qual == C]
            if len(new) != 1:
                raise Lost(f'{len(new)} layouts made')
            if p.value != new[0].args[0]:
                raise Lost('result')
            a = new[0].args
            nm, ly, k = e.ev(a[1]), e.ev(a[2]), e.ev(a[3])
            got = []
            for l in ly:
                if not (isinstance(l, Rec) and 'layout' in l.d):
                    raise Lost('layer')
                got.append((sorted(sorted(e.items(m)) for m in l.d['modifier']), l.d['layout']))
            ok = nm == 'n' and k == 'KB' and got == want
            n += 1
            if not ok:
                return ck.violated(rule, where, f'layers {layers} become {got}, not {want} (name {nm}, keyboard {k})')
    if n < len(dom):
        raise Lost('no path for a layout')
    ck.count('witness layouts', n)
    ck.holds(rule, where, f'{n} witness layouts, {len(ps)} paths')


def find(ck):
    it = interp()
    f = method(it, 'keyboard.PhysicalKeyboard', 'find')
    if f is None:
        raise Gone('lulua.keyboard.PhysicalKeyboard.find')
    me = sym(it, 'self', 'keyboard.PhysicalKeyboard')
    name = Sym('name', 'str')
    ps = it.analyse(lambda: it.call(f, [me, name], {}))
    ck.used(it)
    rule = 'a key is found by its name'
    where = f'lulua/keyboard.py:{f.node.lineno}'
    if any(isapp(p.value, 'firstof') or isapp(p.value, 'getitem') for p in ps if p.outcome != 'raise'):
        return findwit(ck, it, me, name, ps, rule, where)
    n = 0
    for p in ps:
        if p.outcome == 'raise':
            ls = [e.loop for e in p.trace if e.kind == 'loopexit']
            ck.expect(True if all(getattr(l, 'exit', None) == 'exhausted' for l in ls) and ls else None, 'a name is rejected only after all keys were compared', where, p.value.exc)
            continue
        n += 1
        nm = [App('attr', p.value, 'name')]
        hit = None
        for a, v in p.facts:
            if isapp(a, 'eq') and name in a.args:
                other = a.args[0] if a.args[1] == name else a.args[1]
                hit = v is True and (occurs(other, p.value) or other in nm)
            elif isapp(a, 'truth') and isapp(a.args[0], 'strtest') and hit is None:
                hit = False
        ck.expect(True if hit else (None if hit is None else False), rule, where, p.facts, f'returns {p.value!r} when {showf(p.facts)}')
    if not n:
        raise Lost('no key is ever returned')


def findwit(ck, it, me, name, ps, rule, where):
    """decided on witness keyboards"""
    n = 0
    for rows in ([], [[[], []]], [[['a'], []]], [[[], ['a']]], [[['a', 'b'], ['c']], [[], ['d', 'e']], [['f'], []]], [[['ab', 'a'], ['b', 'ba']], [['A'], ['abc']]]):
        keys = [k for l, r in rows for k in l + r]
        m = {k: Rec('Button', name=k) for k in keys}
        kb = Rec('KB', rows=[[[m[k] for k in h] for h in r] for r in rows])
        for q in [*keys, 'nope', '', 'B']:
            e = Ev({me: kb, name: q}, loops=loopsof([x for p in ps for x in p.trace]), objs=it.objs)
            hit = e.pick(ps)
            if len(hit) != 1:
                raise Lost(f'{len(hit)} paths')
            if hit[0].outcome == 'raise':
                got = None
            else:
                got = e.ev(hit[0].value)
            n += 1
            if got != m.get(q):
                return ck.violated(rule, where, f'{q!r} among {keys} gives {got}')
    ck.count('witness lookups', n)
    ck.holds(rule, where, f'{n} lookups')


# layers of layouts to bind: alternative modifier sets, texts of keys; modifiers that contain others, keys that are modifiers elsewhere and carry text
LAYOUTS = [
    [([()], dict(A='a', B='b')), ([('S',), ('T',)], dict(A='A', B='B'))],
    [([()], dict(A='a', B='b', C='c')), ([('S',)], dict(A='x', B='a')), ([('S', 'T'), ('S',), ('U',)][:1], dict(C='abc', A='a'))],
    [([('S',), ('S', 'T'), ('T', 'S', 'U')], dict(A='a', C='aa')), ([()], dict(B='b'))],
    [([('S', 'T', 'U'), ('S', 'T'), ('S',)], dict(A='a')), ([('T',), ('U',)], dict(A='b', B='a'))],
    [([()], dict(A='a', S='s', T='t')), ([('S',), ('A',)], dict(A='p', S='q', B='r', T='a')), ([('A', 'S')], dict(S='z', A='s'))],
    [([('A',)], dict(A='a')), ([()], dict(A='ab', B='abc', C='abc', S='a'))],
    [([()], dict(A=None, B='b', C=7)), ([('S',)], dict(A='b', B=None))],
    [([('S',)], {}), ([('T',)], dict(A='a')), ([], dict(B='b'))],
    [],
]


def bound(ck):
    """witness layouts bound to a keyboard, with a trie used as a mapping"""
    rule = 'a bound layout offers exactly the combinations of its layers'
    f = None
    for li, layers in enumerate(LAYOUTS):
        it = interp(start=True)
        f = method(it, 'layout.GenericLayout', 'specialize')
        gl = cls(it, 'layout.GenericLayout')
        if f is None:
            raise Gone('lulua.layout.GenericLayout.specialize')
        where = f'lulua/layout.py:{f.node.lineno}'
        it.exthooks['pygtrie.CharTrie'] = lambda i, a, k: i.new(Obj('dict', segs=()))
        w = World(it, letters=('A', 'B', 'C'), modkeys=('S', 'T', 'U'), mods=())
        for h in ('modifierToLayer', 'isModifier', 'getText'):
            it.hooks.pop('lulua.layout.KeyboardLayout.' + h, None)
        K = w.byname
        fs = lambda m: frozenset(K(x) for x in m)
        setof = lambda t: frozenset(t.args) if isapp(t, 'frozenset') or isapp(t, 'setof') else None

        def go():
            ls = [App('nt', ClassV(w.lay), w.lst([App('frozenset', *[Const(x) for x in sorted(m)]) for m in ms]), w.dct([(Const(k), Const(v)) for k, v in t.items()])) for ms, t in layers]
            g = it.call(ClassV(gl), [Const('lay'), w.lst(ls)], {})
            r = it.call(it.getattr(g, 'specialize'), [w.keyboard()], {})
            t = it.getattr(r, 't')
            if not isinstance(t, Ref) or it.get(t).kind != 'dict' or not all(x.op == 'one' for x in it.get(t).segs):
                raise Lost('the strings offered')
            got = []
            for x in it.get(t).segs:
                text, cs = x.args[0].args
                cs = it.concrete(cs)
                if cs is None or not isconst(text):
                    raise Lost('the combinations offered')
                for c in cs:
                    m, b = setof(it.freeze(it.getattr(c, 'modifier'))), setof(it.freeze(it.getattr(c, 'buttons')))
                    if m is None or b is None:
                        raise Lost('a combination')
                    got.append((text.v, m, b))
            back = []
            for i, (ms, t) in enumerate(layers):
                for m in ms:
                    n = it.getitem(it.call(it.getattr(r, 'modifierToLayer'), [App('frozenset', *sorted(fs(m), key=repr))], {}), Const(0))
                    if n != Const(i):
                        back.append(f'{"+".join(m)} is layer {n!r}, not {i}')
                    for k, v in t.items():
                        if isinstance(v, str):
                            c = it.call(ClassV(cls(it, 'layout.ButtonCombination')), [App('frozenset', *sorted(fs(m), key=repr)), App('frozenset', K(k))], {})
                            x = it.call(it.getattr(r, 'getText'), [c], {})
                            if x != Const(v):
                                back.append(f'{"+".join(m)}:{k} has text {x!r}, not {v!r}')
            it.ev('result', got=got, back=back)
            return NONE
        ps = it.analyse(go)
        ck.used(it)
        show = '; '.join(f'[{", ".join("+".join(m) or "none" for m in ms)}] {t}' for ms, t in layers)
        want = sorted(((v, fs(m), fs([k])) for ms, t in layers for m in ms for k, v in t.items() if isinstance(v, str)), key=repr)
        for p in ps:
            if p.outcome == 'raise':
                if p.outcome == 'raise' and len(ps) > 1:
                    raise Lost(f'{len(ps)} paths')
                ck.violated(rule, where, f'{show}: fails with {p.value.exc!r}'[:300])
                continue
            e = next(e for e in p.trace if e.kind == 'result')
            got = sorted(e.got, key=repr)
            one = len(ps) == 1
            name = lambda c: f'{c[0]!r} by ' + '+'.join(k.name for k in [*sorted(c[1], key=repr), *c[2]])
            diff = [f'not offered: {name(c)}' for c in want if c not in got] + [f'offered: {name(c)}' for c in got if c not in want] + (['offered twice'] if len(got) > len(want) else [])
            ck.expect(True if not diff else (False if one else None), rule, where, show, f'{show}: {"; ".join(diff)}'[:400])
            ck.expect(True if not e.back else (False if one else None), 'looking up a combination gives its text on its layer', where, show, f'{show}: {"; ".join(e.back)}'[:400])
        ck.count('bound layouts')
