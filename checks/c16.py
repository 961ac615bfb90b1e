"""C16: the layout written by the optimizer."""
from checks.opt_common import *
from sa.args import Args

EXPLANATION = ('optimize() is analysed from its command line (argparse modelled) on a keyboard of four letter keys, a space bar and two '
               'modifiers and a layout of two layers with distinct texts, gaps and alternative modifiers, with the annealing itself '
               'replaced by an arbitrary outcome: several permutations of the positions. What is handed to yaml.dump must hold every text '
               'of the source layout at the position the outcome gives it, all modifiers, and nothing else; the energy printed must be '
               'that of the outcome, not of the state annealing stopped in.')
ASSUMPTIONS = ['keys and texts are treated uniformly: a small layout stands for all', 'yaml.dump writes what it is given']

TEXTS = {(0, 'A'): Const('a'), (0, 'B'): Const('b'), (0, 'C'): Const('c'), (1, 'A'): Const('1'), (1, 'C'): Const('3'), (0, 'SP'): Const(' '),
         (1, 'SP'): Const('_'), (1, 'B'): Const('ab')}


MODS = ((), [('S',), ('T',)])
# text only on higher layers, the same text twice, an unused first layer, more layers, modifiers of several keys
SHAPES = [
    (TEXTS, MODS, ('S', 'T')),
    ({(1, 'A'): Const('a'), (1, 'D'): Const('d'), (0, 'D'): Const('a'), (1, 'SP'): Const('a')}, MODS, ('S', 'T')),
    ({(0, 'A'): Const('a'), (1, 'B'): Const('b'), (2, 'C'): Const('c'), (2, 'D'): Const('a'), (2, 'SP'): Const(' '), (1, 'SP'): Const('x')}, ((), [('S',)], [('T',), ('S', 'T')]), ('S', 'T')),
    ({(0, 'A'): Const('a'), (0, 'C'): Const('\u0628\u064e')}, ((),), ('S', 'T')),
    (TEXTS, MODS, ('S*', 'T')),
]


def setup(ck, cmd, perm=None, hookrun=True, shape=SHAPES[0]):
    it, w, c = harness(letters=('A', 'B', 'C', 'D'), mods=shape[1], modkeys=shape[2], other=('SP',), texts=shape[0])
    f = it.modattr('lulua.optimize', 'optimize')
    if f is None:
        raise Gone('lulua.optimize.optimize')
    kbc, glc = cls(it, 'keyboard.PhysicalKeyboard'), cls(it, 'layout.GenericLayout')
    asked = []

    def load(i, args, kw):
        lc = loaderclass(i, args[0])
        i.ev('loaded', cls=lc.qual if lc else None, key=args[1])
        if lc is kbc:
            return w.keyboard()
        if lc is glc:
            t = Sym('generic')
            i.clsof[t] = glc
            return t
        return NotImplemented
    it.hooks['lulua.util.YamlLoader.__getitem__'] = load

    def specialize(i, args, kw):
        l = w.layout(args[1] if len(args) > 1 else kw.get('keyboard'))
        return l
    it.hooks['lulua.layout.GenericLayout.specialize'] = specialize
    it.hooks['lulua.optimize.LayoutOptimizer.mutate'] = lambda i, a, k: NONE
    a, b, cc, d = w.letters
    top = len(shape[1]) - 1
    trs = [([(0, a), (min(1, top), b), (0, cc)], Const(7)), ([(top, cc), (0, a), (0, a)], Const(3))]
    ts = cls(it, 'stats.TriadStats')

    def pick(i, args, kw):
        items = [(tup(*[w.comb(l, k) for l, k in t]), v) for t, v in trs]
        d = w.inst(ts, triads=w.dct(items), layout=NONE, writer=NONE)
        return w.dct([(Const('triads'), d)])
    it.exthooks['pickle.load'] = pick

    def match(i, args, kw):
        import fnmatch
        return Const(fnmatch.fnmatchcase(args[0].v, args[1].v)) if all(isconst(a) for a in args) and len(args) == 2 else NotImplemented
    it.exthooks['fnmatch.fnmatch'] = it.exthooks['fnmatch.fnmatchcase'] = match
    pos = positions(w)

    def runhook(i, args, kw):
        o = args[0]
        s = i.getattr(o, 'state')
        bm, cx = i.getattr(s, 'buttonMap'), i.getattr(s, 'carpalx')
        i.ev('start', map=dictof(i.st, bm), pins=i.concrete(i.getattr(o, 'pins')), buttons=i.concrete(i.getattr(o, 'allButtons')), kw=dict(kw), args=tuple(args[1:]),
             triads=i.getattr(o, 'triads'))
        sc = i.get(s).cls
        ccx = i.get(cx)
        new = i.new(Obj('inst', cls=ccx.cls, attrs=dict(ccx.attrs)))
        put(i, w, new, 'OUTCOME', Const(1))
        put(i, w, cx, 'STOPPED', Const(1))
        cur = dictof(i.st, bm)
        ks = list(cur)
        if perm is None:
            return NotImplemented
        vals = list(cur.values())
        pm = perm if len(ks) == len(perm) else range(len(ks))
        out = i.new(Obj('dict', segs=tuple(seg1(tup(k, vals[j])) for k, j in zip(ks, pm))))
        # where annealing stopped is something else
        i.set(bm, i.get(bm).with_(segs=tuple(seg1(tup(k, v)) for k, v in zip(ks, vals[1:] + vals[:1]))))
        return tup(i.new(Obj('inst', cls=sc, attrs={**i.get(s).attrs, 'carpalx': new, 'buttonMap': out})), Sym('rel', 'int'))
    for q in ('LayoutOptimizer.run', 'Annealer.run'):
        it.hooks['lulua.optimize.' + q] = runhook
    Args(it, cmd)
    it.raisefilter = lambda t: False
    return it, w, f, pos


def analyse(it, f):
    return nobudget(it.analyse(lambda: it.call(f, [], {})))


BASE = ['-k', 'kb', '-l', 'lay', '-n', '5']


def started(ck):
    for extra, swaps, shape in (([], [], 0), (['-r'], [], 0), (['-s', '0,A:1,B'], [((0, 'A'), (1, 'B'))], 0),
                                (['-s', '0,A:0,B', '--mutate', '1,B:0,A'], [((0, 'A'), (0, 'B')), ((1, 'B'), (0, 'A'))], 0),
                                ([], [], 1), ([], [], 2), ([], [], 3), ([], [], 4)):
        it, w, f, pos = setup(ck, BASE + extra, tuple(range(4 * len(SHAPES[shape][1]))), shape=SHAPES[shape])
        where = f'lulua/optimize.py:{f.node.lineno}'
        for p in analyse(it, f):
            evs = [e for e in p.trace if e.kind == 'start']
            if p.outcome == 'raise' and not evs and not p.facts and repr(p.value.exc) in ('IndexError', 'KeyError', 'ValueError'):
                ck.violated('the optimizer starts with the options given', where, f'{extra}: ends with {p.value.exc}')
                continue
            if not evs:
                raise Lost(f'no optimization: {p.outcome} {p.value!r}'[:200])
            yield f'lulua-optimize {" ".join(extra)}'.strip(), evs[0].map, pos, where
            want = {p: p for p in pos}
            for a, b in swaps:
                x, y = tup(Const(a[0]), w.byname(a[1])), tup(Const(b[0]), w.byname(b[1]))
                want[x], want[y] = want[y], want[x]
            ck.expect(evs[0].map == want, 'the initial mapping is the identity with the requested exchanges', where, '', f'{extra}: {showmap(evs[0].map)}')
        ck.used(it)


PINS = {'0': ['0,None'], '0,A': ['0,A'], '1,?': [f'1,{k}' for k in 'ABCDST'], '0;1,[AB]': ['0,None', '1,A', '1,B'], '0,*': [f'0,{k}' for k in ('A', 'B', 'C', 'D', 'S', 'T', 'SP')]}


def pinned(ck):
    for arg, want in PINS.items():
        it, w, f, pos = setup(ck, BASE + ['-p', arg], tuple(range(8)))
        where = f'lulua/optimize.py:{f.node.lineno}'
        for p in analyse(it, f):
            evs = [e for e in p.trace if e.kind == 'start']
            if p.outcome == 'raise' and not evs and not p.facts and repr(p.value.exc) in ('IndexError', 'KeyError', 'ValueError'):
                ck.violated('every pattern pins exactly the keys matching it', where, f'{arg}: ends with {p.value.exc}')
                continue
            if not evs or evs[0].pins is None:
                raise Lost('no optimization')
            got = []
            for x in evs[0].pins:
                if not (isapp(x, 'tuple') and isconst(x.args[0])):
                    raise Lost(f'pin {x!r}')
                got.append(f'{x.args[0].v},{x.args[1].name if isinstance(x.args[1], Enum) else x.args[1].v}')
            # pins of keys that do not take part have no effect
            part = {show(x) for x in pos} | {'0,None', '1,None'}
            ck.expect({x for x in got if x in part} == {x for x in want if x in part}, 'every pattern pins exactly the keys matching it', where, arg, f'{arg}: {sorted(got)}')
        ck.used(it)


def run(ck):
    ck.part('output', output, ck)


PERMS = [tuple(range(8)), (1, 0, 2, 3, 4, 5, 6, 7), (4, 1, 2, 3, 0, 5, 6, 7), (3, 2, 7, 6, 5, 4, 1, 0), (7, 0, 1, 2, 3, 4, 5, 6)]


OTHERPERMS = [lambda n: tuple(range(n)), lambda n: tuple(reversed(range(n))), lambda n: tuple((i + 3) % n for i in range(n))]


def const(it, st, x):
    """python value of a plain data structure on the heap"""
    if isconst(x):
        return x.v
    if isapp(x, 'tuple'):
        return [const(it, st, y) for y in x.args]
    if isapp(x, 'frozenset'):
        return sorted(const(it, st, y) for y in x.args)
    if isinstance(x, Ref):
        o = st.get(x.id)
        if o.kind == 'dict':
            return {const(it, st, k): const(it, st, v) for k, v in dictof(st, x).items()}
        if o.kind in ('list', 'gen', 'set') and all(s.op == 'one' for s in o.segs):
            r = [const(it, st, s.args[0]) for s in o.segs]
            return r if o.kind != 'set' else sorted(r)
    raise Lost(f'value {x!r}'[:120])


def output(ck):
    n = 0
    for shape, perm in [(SHAPES[0], p) for p in PERMS] + [(x, p(4 * len(x[1]))) for x in SHAPES[1:] for p in OTHERPERMS]:
        it, w, f, pos = setup(ck, BASE, perm, shape=shape)
        where = f'lulua/optimize.py:{f.node.lineno}'
        M = dict(zip(pos, [pos[j] for j in perm]))
        want = [{} for _ in shape[1]]
        for (i, k), t in shape[0].items():
            q = M.get(tup(Const(i), w.byname(k)), tup(Const(i), w.byname(k)))
            want[q.args[0].v][q.args[1].name] = t.v
        ok = 0
        for p in analyse(it, f):
            if p.outcome == 'raise':
                if repr(p.value.exc) == 'AssertionError' and 'effort' in repr(p.facts):
                    continue            # rounding: N02
                raise Lost(f'raises {p.value.exc}')
            n += 1
            dumps = [e for e in p.trace if e.kind == 'call' and e.name in ('yaml.dump', 'yaml.safe_dump')]
            if len(dumps) != 1:
                ck.violated('the optimized layout is written once', where, f'{len(dumps)} times')
                continue
            ok += 1
            if len([e for e in p.trace if e.kind == 'start'][0].map) != len(perm):
                raise Lost('number of positions')       # C12
            d = const(it, p.state, dumps[0].args[0])
            at = f'lulua/optimize.py:{dumps[0].line}'
            if not isinstance(d, dict) or 'layout' not in d:
                raise Lost(f'output {d!r}'[:200])
            ls = d['layout']
            if len(ls) != len(want) or not all(isinstance(l, dict) for l in ls):
                raise Lost(f'output {d!r}'[:200])
            for i, l in enumerate(ls):
                mods = sorted(sorted(m) for m in l.get('modifier', []))
                ck.expect(mods == sorted(sorted(x.name for x in m.args) for m in w.mods[i]), 'every layer keeps all its modifiers', at, '', f'layer {i}: {mods}')
                ck.expect(l.get('layer') == want[i], 'every text is at its new position', at, '', f'{showmap(M)}: layer {i} has {l.get("layer")}, not {want[i]}')
            energy(ck, it, p, M, w)
        if not ok:
            raise Lost('nothing is written')
        ck.used(it)
    ck.count('paths', n)


def energy(ck, it, p, M, w):
    for e in p.trace:
        if e.kind != 'print' or not e.args:
            continue
        a = e.args[0]
        at = f'lulua/optimize.py:{e.line}'
        s = repr(a)
        syms = names(a)
        if 'rel' in syms or 'STOPPED' in s:
            ck.violated('the energy reported is that of the layout written', at, s[:300])
        elif 'OUTCOME' in s:
            ck.holds('the energy reported is that of the layout written', at, '')
        tofile = e.kwargs.get('file')
        if tofile is None or tofile == Ext('sys.stdout'):
            flat = fmttext(a)
            if flat is not None:
                bad = [l for l in flat.split('\n') if l and not l.startswith('#')]
                ck.expect(not bad, 'what is written besides the layout is a comment', at, '', f'{bad[:2]}')


def names(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Sym):
        out.add(t.name)
    elif isinstance(t, App):
        for x in t.args:
            if isinstance(x, (T, tuple)):
                names(x, out)
    elif isinstance(t, tuple):
        for x in t:
            names(x, out)
    return out


def fmttext(t):
    """text of a formatted string, values shown as •"""
    if isconst(t) and isinstance(t.v, str):
        return t.v
    if isapp(t) and t.op in ('cat', 'concat', 'fstr', 'joined'):
        parts = [fmttext(x) if isinstance(x, T) else '' for x in t.args]
        return ''.join('•' if x is None else x for x in parts)
    return None
