"""Optimizer objects for the checks C12 to C16."""
from checks.world import *
import itertools

EFFORT = {'lulua.carpalx.Carpalx._triadEffort'}


def harness(letters=('A', 'B'), mods=((), ('S',)), **kw):
    it = hookrandom(interp(opaque={'lulua.writer.Writer.__init__'}))
    w = World(it, letters=letters, mods=mods, **kw)
    it.unrollwhile = 2

    def effort(i, args, kws):
        t = args[1] if len(args) > 1 else kws.get('triad')
        return App('effort', App('str', repr(triadkey(i, i.st, t))))
    it.hooks['lulua.carpalx.Carpalx._triadEffort'] = effort
    it.hooks['lulua.keyboard.PhysicalKeyboard.getRow'] = lambda i, a, k: Const({'Bl1': 0, 'Cl1': 1, 'Dl1': 2, 'El1': 3}.get(a[1].name, 0)) \
        if isinstance(a[1], Enum) else NotImplemented
    # the constructor looks up reference keys by name
    old = it.hooks['lulua.keyboard.PhysicalKeyboard.__getitem__']

    def find(i, a, k):
        if isconst(a[1]) and a[1].v in ('Bl1', 'Cl1', 'Dl1', 'El1'):
            return World.key(a[1].v)
        return old(i, a, k)
    it.hooks['lulua.keyboard.PhysicalKeyboard.__getitem__'] = find
    it.hooks['lulua.keyboard.PhysicalKeyboard.find'] = find
    c = cls(it, 'optimize.LayoutOptimizer')
    if c is None:
        raise Gone('lulua.optimize.LayoutOptimizer')
    return it, w, c


def triadkey(it, st, t):
    """a triad as tuple of (modifier, buttons)"""
    c = Canon(it, st).of(t)
    if c[0] == 'tupleof' or c[0] == 'tuple':
        xs = [x[1] if isinstance(x, tuple) and x[0] == 'one' else x for x in c[1:]]
    elif c[0] == 'obj' and c[1] == 'list':
        xs = [x[1] for x in c[2]]
    else:
        raise Lost(f'triad {c!r}'[:100])
    out = []
    for x in xs:
        if not (isinstance(x, tuple) and x[0] == 'inst'):
            raise Lost(f'combination {x!r}'[:100])
        d = dict(x[2])
        out.append((tuple(sorted(k.name for k in d['modifier'][1:])), tuple(sorted(k.name for k in d['buttons'][1:]))))
    return tuple(out)


def positions(w):
    return [tup(Const(i), k) for i in range(len(w.mods)) for k in w.letters]


def make(it, w, c, perm, pins=(), triads=()):
    """an optimizer with a given mapping; triads: [([(layer, key)...], count)]"""
    pos = positions(w)
    bm = w.dct([(p, pos[j]) for p, j in zip(pos, perm)])
    kb = w.keyboard()
    lay = w.layout(kb)
    wr = w.inst(cls(it, 'writer.Writer'), layout=lay)
    ts = w.lst([tup(tup(*[w.comb(l, k) for l, k in t]), v) for t, v in triads])
    o = it.call(ClassV(c), [bm, ts, lay, w.lst(list(pins)), wr, Sym('model')], {})
    return o


def put(it, w, cx, t, v):
    """add a triad of positions, or of one key known by name only, to an effort account"""
    g, _ = it.get(cx).cls.lookup('addTriad')
    if g is None:
        raise Lost('Carpalx.addTriad')
    keys = [(0, World.key(t))] * 3 if isinstance(t, str) else t
    it.call(g, [cx, tup(*[w.comb(l, k) for l, k in keys]), v], {})


def named(t):
    """effort of a triad added by put(name)"""
    return App('effort', App('str', repr((((), (t,)),) * 3)))


def meaneffort(it, cx):
    return it.getattr(cx, 'effort')


def buttonmap(it, st, o):
    s = st.get(o.id).attrs.get('state')
    if not isinstance(s, Ref):
        raise Lost('optimizer state')
    return dictof(st, st.get(s.id).attrs.get('buttonMap'))


def swapmaps(w, n=None):
    ps = list(itertools.permutations(range(len(positions(w)))))
    return ps if n is None else ps[::max(1, len(ps) // n)]


def show(pos):
    return f'{pos.args[0].v},{pos.args[1].name}' if isapp(pos, 'tuple') and isconst(pos.args[0]) and isinstance(pos.args[1], Enum) else repr(pos)


def showmap(d):
    return '{' + ' '.join(f'{show(k)}→{show(v)}' for k, v in d.items()) + '}'
