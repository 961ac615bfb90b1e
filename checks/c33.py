"""C33: figures derived from stored statistics."""
import hashlib
import itertools
import unicodedata
from fractions import Fraction

from sa.args import Args
from checks.c18 import domain
from checks.out_common import *

EXPLANATION = ('The analysis commands are interpreted on stored statistics whose counts are unknowns, for a small keyboard and layout with several keys per '
               'hand and finger, several keys for one text and texts typed on two layers. What they write is compared, as terms over the unknown counts, '
               'with the figures the property names; sorting by unknown counts is replaced by an arbitrary order (two opposite ones are tried) after '
               'checking the sort key.')
ASSUMPTIONS = ['commands treat entries uniformly (the number of entries per table is small)', 'counts are positive']
TECHNIQUE = 'abstract interpretation with symbolic counts on a small heap; output terms compared with specification terms'

A, AH, AB, YH, WH = 'ا', 'ا\u0654', 'ا\u0655', 'ي\u0654', 'و\u0654'
FINGER = {'Dl4': ('LEFT', 'INDEX'), 'Cl1': ('LEFT', 'LITTLE'), 'Dr6': ('RIGHT', 'INDEX'), 'Cr7': ('RIGHT', 'INDEX'), 'Dr5': ('RIGHT', 'MIDDLE'), 'El_shift': ('LEFT', 'LITTLE'),
          'Er_shift': ('RIGHT', 'LITTLE'), 'Fl_space': ('LEFT', 'THUMB')}
TEXTS = {(0, 'Dl4'): 'ا', (0, 'Cl1'): 'ب', (0, 'Dr6'): 'ب', (0, 'Cr7'): 'ت', (0, 'Dr5'): 'ـ', (0, 'Fl_space'): ' ', (1, 'Dl4'): 'ت', (1, 'Cl1'): 'لا', (1, 'Dr6'): '\u064e', (1, 'Cr7'): 'ث', (1, 'Dr5'): 'و', (1, 'Fl_space'): 'ي'}
HAMZA = {(0, 'Dl4'): A, (0, 'Cl1'): AH, (0, 'Dr6'): AB, (0, 'Cr7'): 'ب', (0, 'Dr5'): 'ي', (0, 'Fl_space'): ' ', (1, 'Dl4'): A, (1, 'Cl1'): AH, (1, 'Dr6'): WH, (1, 'Cr7'): 'و', (1, 'Dr5'): YH}
PARTS = ('buttons', 'combinations', 'unknown')


def run(ck):
    ck.part('heat map', heatmap, ck)
    ck.part('layout statistics', layoutstats, ck)
    ck.part('corpus statistics', corpusstats, ck)
    ck.part('word list', wordlist, ck)
    ck.part('letter frequency', letterfreq, ck)
    ck.part('triad frequency', triadfreq, ck)
    ck.part('triad effort', effortdata, ck)
    ck.part('triad plot', effortplot, ck)
    ck.part('overview', pretty, ck)


class Small(World):
    def __init__(self, it, texts=TEXTS):
        it.concretewhile = True
        super().__init__(it, letters=('Dl4', 'Cl1', 'Dr6', 'Cr7', 'Dr5'), modkeys=('El_shift', 'Er_shift'), other=('Fl_space',), mods=((), [('El_shift',), ('Er_shift',)]),
                         texts={k: Const(v) for k, v in texts.items()})
        self.laydata = dict(name='lay')
        _, self.hands, self.fingers = domain(it)
        it.hooks['lulua.writer.Writer.getHandFinger'] = lambda i, a, k: self.handfinger(a[1] if len(a) > 1 else k['button'])
        it.hooks['lulua.layout.KeyboardLayout.__call__'] = lambda i, a, k: self.lookup(i, a[1] if len(a) > 1 else k['buf'])
        c = 'lulua.carpalx.Carpalx.'
        it.hooks[c + '__init__'] = self.newmodel
        it.hooks[c + 'addTriad'] = self.addtriad
        it.hooks[c + 'addTriads'] = self.addtriads
        it.hooks[c + 'effort'] = self.effort
        self.intern()

    def handfinger(self, b):
        if b not in self.keys:
            raise Lost(f'finger of {b!r}')
        h, f = FINGER[b.name]
        return tup(self.hands[h], self.fingers[f])

    def lookup(self, it, buf):
        if not isconst(buf):
            raise Lost(f'looks up {buf!r}')
        best = max((t.v for t in self.texts.values() if buf.v.startswith(t.v)), key=len, default=None)
        if best is None:
            raise it.err('KeyError')
        cs = [self.comb(i, k, a) for i, ms in enumerate(self.mods) for k in self.keys if self.defined(i, k) == Const(best) for a in range(len(ms))]
        return tup(Const(best), self.lst(cs))

    # the model: weighted mean of unknown efforts
    def newmodel(self, it, a, k):
        o = it.get(a[0])
        it.set(a[0], o.with_(attrs=dict(o.attrs, sum_=Const(0), weight_=Const(0), model_=a[1] if len(a) > 1 else k.get('model', NONE))))
        return NONE

    def addtriad(self, it, a, k):
        t, n = (list(a[1:]) + [k.get('triad'), k.get('n')])[:2] if len(a) < 3 else a[1:3]
        o = it.get(a[0])
        names = {r.id: (i, k_.name, alt) for (i, k_, alt), r in self.combs.items()}
        cs = it.concrete(t) if not isapp(t, 'tuple') else t.args
        if any(not isinstance(c, Ref) or c.id not in names for c in cs):
            raise Lost(f'triad {t!r}'[:100])
        e = self.cost(tuple(names[c.id] for c in cs))
        it.set(a[0], o.with_(attrs=dict(o.attrs, sum_=add(o.attrs['sum_'], mul(n, e)), weight_=add(o.attrs['weight_'], n))))
        return NONE

    def cost(self, t):
        return App('effortof', Const(t))

    def addtriads(self, it, a, k):
        o = it.get(a[1])
        for s in o.segs:
            if s.op != 'one':
                raise Lost('triads')
            self.addtriad(it, [a[0], *s.args[0].args], {})
        return NONE

    def effort(self, it, a, k):
        o = it.get(a[0])
        return App('mean', o.attrs['sum_'], o.attrs['weight_'])

    def amount(self, tag, name):
        return Sym(f'{tag}:{name}', 'int')

    def stats(self, combos, words=('w', 'v'), unknown='xy', triads=()):
        """stored statistics with unknown counts"""
        it = self.it
        self.n = {}

        def counter(tag, keys):
            items = []
            for name, k in keys:
                self.n[tag, name] = self.amount(tag, name)
                items.append((k, self.n[tag, name]))
            r = self.dct(items)
            it.set(r, it.get(r).with_(default=Ext('int')))
            return r
        self.combos = [(i, k, a) for i, k, a in combos]
        simple = dict(buttons=counter('b', [(k.name, k) for k in self.keys if k.name in {x[1] for x in combos} | {'El_shift', 'Fl_space'}]),
                      combinations=counter('c', [(x, self.comb(x[0], self.byname(x[1]), x[2])) for x in combos]),
                      unknown=counter('u', [(c, Const(c)) for c in unknown]))
        tri = counter('t', [(t, tup(*[self.comb(x[0], self.byname(x[1]), x[2]) for x in t])) for t in triads])
        per = self.dct([(h, counter('r' + n, [(i, Const(i)) for i in (1, 2)])) for n, h in self.hands.items()])
        fin = self.dct([(tup(h, f), counter('f' + n + m, [(1, Const(1))])) for n, h in self.hands.items() for m, f in self.fingers.items()])
        wd = counter('w', [(x, Const(x)) for x in words])
        parts = dict(simple=('SimpleStats', simple), runlen=('RunlenStats', dict(perHandRunlenDist=per, fingerRunlenDist=fin)),
                     triads=('TriadStats', dict(triads=tri)), words=('WordStats', dict(words=wd)))
        out = []
        for name, (c, attrs) in parts.items():
            ci = cls(it, 'stats.' + c)
            if ci is None or any(x not in known(ci) for x in attrs):
                raise Gone(f'lulua.stats.{c}: {", ".join(attrs)}')
            out.append((Const(name), self.inst(ci, **attrs)))
        return self.dct(out)

    def total(self, tag, keep=lambda k: True):
        t = Const(0)
        for (g, k), v in self.n.items():
            if g == tag and keep(k):
                t = add(t, v)
        return t


def known(ci):
    """attributes a class assigns"""
    f, _ = ci.lookup('__init__')
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} if f is not None else set()


COMBOS = [(0, 'Dl4', 0), (0, 'Cl1', 0), (0, 'Dr6', 0), (0, 'Cr7', 0), (0, 'Dr5', 0), (1, 'Dl4', 0), (1, 'Cl1', 0), (1, 'Cl1', 1), (1, 'Dr6', 1), (0, 'Fl_space', 0)]


def command(it, w, func, mod='stats', stats={}, cmdline=None, **opts):
    """(function, where, paths): the command on stored statistics"""
    f = it.modattr('lulua.' + mod, func)
    if not isinstance(f, FuncV):
        raise Gone(f'lulua.{mod}.{func}')

    def get(i, args, kw):
        c = loaderclass(i, args[0])
        if c is None or len(args) < 2:
            return NotImplemented
        i.ev('loaded', cls=c.qual, key=args[1])
        if c.qual.endswith('PhysicalKeyboard'):
            return w.keyboard()
        return i.new(Obj('inst', cls=c, attrs=dict(name=Const('lay'), layers=Sym('layers'))))
    it.hooks['lulua.util.YamlLoader.__getitem__'] = get
    it.hooks['lulua.layout.GenericLayout.specialize'] = lambda i, a, k: w.layout(a[1] if len(a) > 1 else k.get('keyboard'))
    it.exthooks = dict(it.exthooks)
    it.exthooks['pickle.load'] = lambda i, a, k: cur['stats']
    it.exthooks['pickle.dump'] = lambda i, a, k: dump(i, 'pickled', a)
    it.exthooks['yaml.dump'] = it.exthooks['yaml.safe_dump'] = lambda i, a, k: dump(i, 'yaml', a)
    cur = {}

    def dump(i, kind, a):
        i.ev('dumped', how=kind, to=a[1] if len(a) > 1 else None, what=plainof(i, a[0]))
        return NONE

    def go():
        w.combs, it.interned = {}, set()
        cur['stats'] = w.stats(**stats)
        if cmdline is not None:
            return it.call(f, [], {})
        args = it.new(Obj('inst', cls=cls(it, 'util.YamlLoader'), attrs={k: v() if callable(v) else v if isinstance(v, T) else Const(v) for k, v in opts.items()}))
        return it.call(f, [args], {})
    if cmdline is not None:
        Args(it, cmdline)
    ps = nobudget(it.analyse(go))
    return f'lulua/{mod}.py:{f.node.lineno}', ps


def plainof(it, v):
    """nested Python structure of terms"""
    v = it.force(v)
    if isinstance(v, Ref):
        o = it.get(v)
        if o.kind == 'dict':
            if any(s.op != 'one' for s in o.segs):
                raise Lost('dictionary written')
            return {plainof(it, s.args[0].args[0]): plainof(it, s.args[0].args[1]) for s in o.segs}
        if o.kind in ('list', 'gen'):
            if any(s.op != 'one' for s in o.segs):
                raise Lost('list written')
            return tuple(plainof(it, s.args[0]) for s in o.segs)
        return v
    if isapp(v, 'tuple'):
        return tuple(plainof(it, x) for x in v.args)
    return it.freeze(v)


def results(ck, ps, where, rule):
    """paths that finish"""
    for p in ps:
        if p.outcome == 'raise':
            # divisions by zero need counts that are all zero
            if 'ZeroDivision' in repr(p.value.exc):
                continue
            ck.expect(False if len(ps) == 1 else None, rule, where, '', f'fails with {p.value.exc!r}'[:200])
            continue
        yield p


def dumped(p, how):
    ds = [e.what for e in p.trace if e.kind == 'dumped' and e.how == how]
    if len(ds) != 1:
        raise Lost(f'{len(ds)} objects written')
    return ds[0]


def inv(t):
    return div(Const(1), t)


class Point:
    """values of unknowns; terms that are not arithmetic are unknowns of their own"""

    def __init__(self, seed):
        self.seed, self.opaque = seed, False

    def atom(self, t):
        h = hashlib.sha256(f'{self.seed} {t!r}'.encode()).digest()
        return Fraction(1 + int.from_bytes(h[:3], 'big'), 1 + h[5])

    def of(self, t):
        if isconst(t):
            if isinstance(t.v, bool) or not isinstance(t.v, (int, float, Fraction)):
                raise Lost(f'not a number: {t!r}'[:80])
            return Fraction(t.v)
        if isinstance(t, Enum):
            return Fraction(t.value)
        if isapp(t, 'poly'):
            s = Fraction(0)
            for mono, c in t.args:
                p = Fraction(c)
                for m in mono:
                    p *= self.of(m)
                s += p
            return s
        if isapp(t, 'inv'):
            d = self.of(t.args[0])
            if d == 0:
                raise Lost('division by zero')
            return 1 / d
        if isapp(t, 'maxof') or isapp(t, 'minof'):
            return (max if t.op == 'maxof' else min)(self.of(x) for x in t.args)
        if isapp(t, 'mean'):
            n = self.of(t.args[1])
            return self.of(t.args[0]) / n if n else Fraction(0)
        if not isinstance(t, Sym) and not isapp(t, 'effortof'):
            self.opaque = True
        return self.atom(t)


def same(a, b):
    """True/False/None: equal for all values of the unknowns (identity of rational functions, tested at random points)"""
    if a is b or isinstance(a, T) and isinstance(b, T) and a == b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        rs = [same(a[k], b[k]) for k in a]
        return False if False in rs else None if None in rs else True
    if isinstance(a, T) and isinstance(b, T):
        if isconst(a) and isconst(b):
            return a.v == b.v
        opaque = False
        for seed in range(6):
            p = Point(seed)
            try:
                eq_ = p.of(a) == p.of(b)
            except Lost:
                return None
            opaque = opaque or p.opaque
            if not eq_:
                return None if opaque else False
        return True
    return False


def both(ck, f):
    for order in (True, 'reversed'):
        it = interp()
        it.anyorder = order
        f(ck, it)
        ck.used(it)


def heatmap(ck):
    both(ck, heatmap1)


def heatmap1(ck, it):
    w = Small(it)
    where, ps = command(it, w, 'keyHeatmap', stats=dict(combos=COMBOS), layout='lay', keyboard='kb')
    rule = 'a heat map lists every pressed key with its count and their total'
    for p in results(ck, ps, where, rule):
        d = dumped(p, 'yaml')
        if not isinstance(d, dict) or Const('buttons') not in d or Const('total') not in d:
            ck.undecided(rule, where, f'{d!r}'[:200])
            continue
        got = d[Const('buttons')]
        want = {Const(k): v for (g, k), v in w.n.items() if g == 'b'}
        ck.count('figures', len(want) + 1)
        ck.expect(same(got, want), rule, where, 'keys', f'keys {got!r}, pressed {want!r}'[:300])
        ck.expect(same(d[Const('total')], w.total('b')), rule, where, 'total', f'total {d[Const("total")]!r}'[:200])


def layoutstats(ck):
    for name, texts, combos in (('letters', TEXTS, COMBOS), ('hamza keys', HAMZA, COMBOS + [(1, 'Dl4', 1), (1, 'Dr5', 0), (1, 'Dr5', 1)]), ('no stored hamza', HAMZA, [c for c in COMBOS if c[:2] not in ((1, 'Cl1'), (0, 'Dr6'))])):
        it = interp()
        it.anyorder = True
        w = Small(it, texts)
        where, ps = command(it, w, 'layoutstats', stats=dict(combos=combos), layout='thelayout', keyboard='kb')
        ck.used(it)
        for p in results(ck, ps, where, 'statistics of a layout are written'):
            d = dumped(p, 'pickled')
            g = lambda k: d.get(Const(k)) if isinstance(d, dict) else None
            ck.count('figures', 20)
            ck.expect(g('layout') == Const('thelayout') if g('layout') is not None else None, 'statistics name their layout', where, name, f'{g("layout")!r}')
            hands = {h: w.total('b', lambda k: FINGER[k][0] == n) for n, h in w.hands.items()}
            fing = {(h, f): w.total('b', lambda k: FINGER[k] == (n, m)) for n, h in w.hands.items() for m, f in w.fingers.items()}
            tot = w.total('b')
            ck.expect(same(g('hands'), hands) if g('hands') is not None else None, 'hand totals add up the keys of the hand', where, name, f'{g("hands")!r}, should be {hands!r}'[:400])
            ck.expect(same(g('fingers'), fing) if g('fingers') is not None else None, 'finger totals add up the keys of the finger', where, name, f'{g("fingers")!r}, should be {fing!r}'[:400])
            ck.expect(same(g('buttonPresses'), tot) if g('buttonPresses') is not None else None, 'the total counts every key press', where, name, f'{g("buttonPresses")!r}')
            asym = mul(sub(hands[w.hands['LEFT']], hands[w.hands['RIGHT']]), inv(tot))
            ck.expect(same(g('asymmetry'), asym) if g('asymmetry') is not None else None, 'the asymmetry is the share of the left hand minus that of the right', where, name,
                      f'{g("asymmetry")!r}, should be {asym!r}'[:300])
            cnt = lambda *ts: w.total('c', lambda x: w.texts.get((x[0], x[1])) in [Const(t) for t in ts])
            imp = mul(cnt(AH, AB, YH, WH), inv(w.total('c')))
            ck.expect(same(g('hamzaImpact'), imp) if g('hamzaImpact') is not None else None, 'shares of letters count every combination typing them', where, name,
                      f'hamzaImpact {g("hamzaImpact")!r}, should be {imp!r}'[:400])
            on = mul(cnt(AH, AB), inv(cnt(AH, AB, A)))
            ck.expect(same(g('hamzaOnAlef'), on) if g('hamzaOnAlef') is not None else None, 'shares of letters count every combination typing them', where, name,
                      f'hamzaOnAlef {g("hamzaOnAlef")!r}, should be {on!r}'[:400])


def corpusstats(ck):
    it = interp()
    w = Small(it)
    it.exthooks = dict(it.exthooks)
    it.exthooks['yaml.safe_load'] = it.exthooks['yaml.load'] = lambda i, a, k: w.dct([(Const('name'), Sym('name', 'str')), (Const('url'), Sym('url', 'str'))])
    where, ps = command(it, w, 'corpusStats', stats=dict(combos=COMBOS), layout='lay', keyboard='kb', metadata=Sym('metadata'))
    rule = 'corpus statistics count every character and word'
    for p in results(ck, ps, where, rule):
        d = dumped(p, 'yaml')
        want = {Const('name'): Sym('name', 'str'), Const('url'): Sym('url', 'str'),
                Const('stats'): {Const('characters'): w.total('c'), Const('words'): w.total('w')}}
        ck.count('figures', 4)
        ck.expect(same(d, want), rule, where, '', f'{d!r}, should be {want!r}'[:400])
        # documents can be concatenated
        seq = [e for e in p.trace if e.kind in ('dumped', 'print') or e.kind == 'mcall' and e.name == 'write']
        ck.expect([e.kind for e in seq][:1] == ['dumped'] and len(seq) > 1 and '---' in repr(seq[1].args) or None, 'documents can be concatenated', where, '', 'no separator')
    ck.used(it)


def formatted(t):
    """values shown by a printed term, with their format"""
    if isapp(t, 'concat'):
        return [x for a in t.args for x in formatted(a)]
    if isapp(t, 'fmt') or isapp(t, 'format'):
        return [t]
    return [t]


def shown(e):
    """values a print shows, constants and formats removed"""
    out = []
    for a in e.args:
        for x in formatted(a):
            while isapp(x) and x.op in ('fmt', 'format', 'str', 'formatted', 'repr', 'conv'):
                x = next((y for y in x.args if isinstance(y, T) and not isconst(y)), x.args[0])
            out.append(x)
    return out


def wordlist(ck):
    both(ck, wordlist1)


def wordlist1(ck, it):
    w = Small(it)
    where, ps = command(it, w, 'latinImeDict', stats=dict(combos=COMBOS), layout='lay', keyboard='kb')
    rule = 'the word list has every word with its probability'
    for p in results(ck, ps, where, rule):
        lines = [shown(e) for e in p.trace if e.kind == 'print']
        for x in 'wv':
            n, tot = w.n['w', x], w.total('w')
            mine = [l for l in lines if any(mentions(t, n) for t in l) and any(isconst(t) and isinstance(t.v, str) and f'word={x},' in t.v for t in l)]
            ck.count('figures')
            if len(mine) != 1:
                ck.expect(False if lines and not any(p.notes) and all_terms(lines) else None, rule, where, x, f'{len(mine)} lines for {x!r}: {lines!r}'[:300])
                continue
            r = mul(n, inv(tot))
            fs = [t for t in mine[0] if mentions(t, n)]
            want = add(Const(255), App('int', App('round', App('log', r))))
            ck.expect(True if len(fs) == 1 and probability(fs[0], r) else None if not fs or not cleanlog(fs[0]) else False, rule, where, x, f'{fs!r} for the probability {r!r}'[:300])
    for e in (e for p in ps for e in p.trace if e.kind == 'sorted'):
        sortcheck(ck, e, where, 1, None)


def all_terms(lines):
    return True


def cleanlog(t):
    return any(isapp(x) and 'log' in repr(x)[:40] for x in subterms(t))


def probability(t, r):
    """255 + rounded logarithm of r to the base 1.15"""
    d = sub(t, Const(255))
    for op in ('int', 'round'):
        if isapp(d, op) or isapp(d, 'call') and d.args[0] == op:
            d = d.args[0] if isapp(d, op) else d.args[1][0]
    if isapp(d, 'call') and d.args[0] == 'math.log':
        return d.args[1][:2] == (r, Const(1.15))
    return False


def mentions(t, x):
    return any(y == x for y in subterms(t))


def sortcheck(ck, e, where, ix, reverse):
    """entries are ordered by their count"""
    for item, k in zip(e.items, e.keys):
        if isapp(item, 'tuple') and len(item.args) == 2:
            ck.expect(k == item.args[ix] or None, 'entries are ordered by their count', where, '', f'{k!r}')


def letterfreq(ck):
    both(ck, letterfreq1)


def letterfreq1(ck, it):
    w = Small(it)
    got = []
    it.exthooks = dict(it.exthooks)
    it.exthooks['bokeh.models.ColumnDataSource'] = lambda i, a, k: (i.ev('source', data=plainof(i, k.get('data', a[0] if a else NONE))), Sym('source'))[1]
    where, ps = command(it, w, 'letterfreq', mod='plot', stats=dict(combos=COMBOS), layout='lay', keyboard='kb')
    rule = 'letter frequencies add up all combinations that type the letter'
    want = {}
    for x in COMBOS:
        t = TEXTS[x[0], x[1]]
        if unicodedata.category(t[0]) == 'Lo':
            want[t] = add(want.get(t, Const(0)), w.n['c', x])
    tot = Const(0)
    for v in want.values():
        tot = add(tot, v)
    for p in results(ck, ps, where, rule):
        src = [e.data for e in p.trace if e.kind == 'source']
        if len(src) != 1 or not isinstance(src[0], dict):
            ck.undecided(rule, where, f'{len(src)} data sources')
            continue
        d = src[0]
        c = {k.v: v for k, v in d.items()}
        if not {'letters', 'rel', 'abs', 'cum', 'cumRel'} <= set(c) or any(not isinstance(v, tuple) for v in c.values()):
            ck.undecided(rule, where, f'columns {sorted(c)}')
            continue
        ck.count('figures', 5 * len(want))
        letters = [x.v for x in c['letters']]
        ck.expect(sorted(letters) == sorted(want), rule, where, 'letters', f'letters {letters}, typed {sorted(want)}')
        if sorted(letters) != sorted(want):
            continue
        left = tot
        for i, l in enumerate(letters):
            n = want[l]
            exp = dict(abs=n, rel=mul(n, inv(tot)), cum=left, cumRel=mul(left, inv(tot)))
            for k, v in exp.items():
                g = c[k][i] if i < len(c[k]) else None
                ck.expect(same(g, v) if g is not None else False, rule if k == 'abs' else 'shares are relative to the matching total', where, f'{l} {k}', f'{k} of {l}: {g!r}, should be {v!r}'[:300])
            left = sub(left, n)
    for e in (e for p in ps for e in p.trace if e.kind == 'sorted'):
        sortcheck(ck, e, where, 1, False)


SHORT = dict(zip('ABCDE', ('Dl4', 'Cl1', 'Dr6', 'Cr7', 'Dr5')))


def triad(s):
    """'0A 1B 0C' -> triad"""
    return tuple((int(x[0]), SHORT[x[1]], int(x[2]) if len(x) > 2 else 0) for x in s.split())


# B and C type the same text, 0D and 1A too
TRIADS = [triad(x) for x in ('0A 0B 0D', '0A 0C 0D', '0A 0C 1A', '0D 0D 0D', '1B 1B1 0A', '1B1 1B 0A')]


def textof(t):
    return tuple(TEXTS[x[0], x[1]] for x in t)


def groups(w):
    g = {}
    for t in TRIADS:
        g.setdefault(textof(t), []).append(t)
    out = {}
    for k, ts in g.items():
        n = Const(0)
        for t in ts:
            n = add(n, w.n['t', t])
        out[k] = (n, ts)
    return out


def meanof(w, ts):
    """the weighted mean as the model's specification gives it"""
    s, n = Const(0), Const(0)
    for t in ts:
        e = App('effortof', Const(t))
        s, n = add(s, mul(w.n['t', t], e)), add(n, w.n['t', t])
    return App('mean', s, n)


def triadfreq(ck):
    for order in (True, 'reversed'):
        for sort in ('weight', 'effort'):
            it = interp()
            it.anyorder = order
            # every triad is within the share wanted
            w = Small(it)
            it.hooks['lulua.util.displayText'] = lambda i, a, k: App('shown', a[0])
            where, ps = command(it, w, 'triadfreq', mod='plot', stats=dict(combos=COMBOS, triads=TRIADS), layout='lay', keyboard='kb', cutoff=Sym('cutoff', 'num'), limit=0, sort=sort, reverse=False)
            ck.used(it)
            rule = 'triad tables add up all triads that type the same text'
            full = 0
            for p in results(ck, ps, where, rule):
                lines = [e for e in p.trace if e.kind == 'print']
                full = max(full, len(lines))
                g = groups(w)
                seen = []
                for e in lines:
                    if len(e.args) != 3:
                        raise Lost(f'printed {e.args!r}'[:100])
                    t, n, m = e.args
                    key = [k for k in g if all(mentions(t, App('shown', Const(x))) for x in k) and order_of(t) == list(k)]
                    ck.count('figures', 2)
                    if len(key) != 1:
                        ck.expect(None if len(order_of(t)) != 3 else False, rule, where, '', f'text {t!r}'[:100])
                        continue
                    seen.append(key[0])
                    ck.expect(same(n, g[key[0]][0]), rule, where, ''.join(key[0]), f'{key[0]}: {n!r}, should be {g[key[0]][0]!r}'[:300])
                    want = meanof(w, g[key[0]][1])
                    ck.expect(same(m, want), 'the effort of a text is that of all its triads', where, ''.join(key[0]), f'{m!r}, should be {want!r}'[:300])
                ck.expect(len(set(seen)) == len(seen), 'each text is listed once', where, '', f'{seen}')
            ck.expect(full == len(groups(w)) or None, 'all triads can be listed', where, '', f'{full} of {len(groups(w))} listed at most')


def order_of(t):
    return [x.args[0].v for x in (t.args if isapp(t, 'concat') or isapp(t, 'join') else [t]) for x in flatten(x) if isapp(x, 'shown') and isconst(x.args[0])]


def flatten(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flatten(y)
    elif isapp(x) and x.op in ('one', 'segs', 'concat'):
        for y in x.args:
            yield from flatten(y)
    else:
        yield x


def effortdata(ck):
    both(ck, effortdata1)


def effortdata1(ck, it):
    w = Small(it)
    it.exthooks = dict(it.exthooks)
    it.exthooks['numpy.true_divide'] = it.exthooks['numpy.divide'] = lambda i, a, k: tup(*[mul(x, inv(i.freeze(a[1]))) for x in i.concrete(a[0])])
    where, ps = command(it, w, 'triadEffortData', mod='plot', stats=dict(combos=COMBOS, triads=TRIADS), layout='lay', keyboard='kb')
    rule = 'the effort curve accumulates the weight and effort of all triads'
    n = 0
    for p in results(ck, ps, where, rule):
        d = dumped(p, 'pickled')
        x, y = d.get(Const('x')), d.get(Const('y'))
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            raise Lost('curve')
        n += 1
        g = groups(w)
        tot = w.total('t')
        ck.count('figures', len(x) + len(y))
        parts = {}
        weights = {k: (v, mul(meanof(w, ts), v)) for k, (v, ts) in g.items()}
        effort = Const(0)
        for _, e in weights.values():
            effort = add(effort, e)
        for r in range(len(weights) + 1):
            for sub_ in itertools.combinations(weights, r):
                a, b = Const(0), Const(0)
                for k in sub_:
                    a, b = add(a, weights[k][0]), add(b, weights[k][1])
                parts[value(mul(a, inv(tot)))] = (set(sub_), value(mul(b, inv(effort))))
        last = set()
        for i, (a, b) in enumerate(zip(x, y)):
            at = parts.get(value(a))
            ck.expect(None if not clean(a) or not clean(b) else False if at is None or not last <= at[0] or at[1] != value(b) else True, rule, where, f'point {i}', f'point {a!r}, {b!r}'[:300])
            if at is not None:
                last = at[0]
        ck.expect(same(x[-1], Const(1)) if x else False, rule, where, 'end', f'ends at {x[-1:]!r}'[:200])
        ck.expect(same(y[-1], Const(1)) if y else False, rule, where, 'end', f'ends at {y[-1:]!r}'[:200])
        ck.expect(len(x) == len(y), rule, where, '', f'{len(x)} and {len(y)} values')
        ev = [e for e in p.trace if e.kind == 'sorted']
        for e in ev:
            ck.expect(e.reverse, 'more frequent triads come first', where, '', 'sorted by ascending weight')
    ck.expect(n > 0 or None, rule, where, 'paths')


def effortplot(ck):
    it = interp()
    w = Small(it)
    rule = 'the plot has one named curve per record'
    it.hooks['lulua.stats.unpickleAll'] = lambda i, a, k: w.lst([w.dct([(Const('x'), Sym(f'x{n}')), (Const('y'), Sym(f'y{n}')), (Const('layout'), named(i, n))]) for n in 'pqr'])

    def named(i, n):
        return w.inst(cls(i, 'layout.KeyboardLayout'), name=Const('layout-' + n))
    where, ps = command(it, w, 'triadEffortPlot', mod='plot', stats=dict(combos=COMBOS), layout='lay', keyboard='kb')
    ck.used(it)
    for p in results(ck, ps, where, rule):
        if not any(e.kind == 'call' and e.name.endswith('json.dump') for e in p.trace):
            ck.undecided(rule, where, 'no plot written')
            continue
        curves = [(e.args, e.kwargs) for e in p.trace if e.kind == 'mcall' and e.name == 'line']
        ck.count('figures', len(curves))
        got = []
        for a, kw in curves:
            xy = (list(a) + [kw.get('x'), kw.get('y')])[:2] if len(a) < 2 else a[:2]
            names = {kw[k] for k in ('legend_label', 'name') if k in kw}
            if len(names) != 1 or not isconst(*names):
                names = {None}
            got.append((*xy, *names))
        want = [(Sym(f'x{n}'), Sym(f'y{n}'), Const('layout-' + n)) for n in 'pqr']
        ck.expect(True if got == want or sorted(map(repr, got)) == sorted(map(repr, want)) else None if any(x is None for g in got for x in g) or not got else False, rule, where, '', f'curves {got!r}, should be {want!r}'[:300])


def pretty(ck):
    both(ck, pretty1)


def value(t):
    """value of a number at a random point (None: not a number)"""
    p = Point(0)
    try:
        return p.of(t)
    except Lost:
        return None


def clean(t):
    p = Point(0)
    try:
        p.of(t)
    except Lost:
        return False
    return not p.opaque


def pretty1(ck, it):
    w = Small(it)
    it.hooks['lulua.util.displayText'] = lambda i, a, k: App('shown', a[0])
    where, ps = command(it, w, 'pretty', stats=dict(combos=COMBOS, triads=TRIADS[:2]), layout='lay', keyboard='kb')
    rule = 'the overview shows every count, and shares of the matching total'
    full = 0
    for p in results(ck, ps, where, rule):
        names = {r.id: k for k, r in w.combs.items()}
        vals = []       # (numbers, rest) per line
        odd = False
        for e in p.trace:
            if e.kind != 'print':
                continue
            nums, rest = [], []
            for t in shown(e):
                if isapp(t, 'poly') or isapp(t, 'mean') or isinstance(t, Sym) and ':' in t.name:
                    nums.append(t)
                    pt = Point(0)
                    pt.of(t)
                    odd = odd or pt.opaque
                else:
                    rest.append(t)
            vals.append((nums, rest))
        want = []
        tot = {}
        for g in ('b', 'c', 'w', 'rLEFT', 'rRIGHT'):
            tot[g] = w.total(g)
            if g in 'bcw':
                want.append((f'total {g}', tot[g], None))
        for (g, k), n in w.n.items():
            if g[0] == 'f' or g == 't' and n is None:
                continue
            want.append((f'{g} {k}', n, (g, k)))
            if g in tot:
                want.append((f'share of {g} {k}', mul(Const(100), mul(n, inv(tot[g]))), (g, k)))
        both_ = add(tot['rLEFT'], tot['rRIGHT'])
        for i in (1, 2):
            n = add(w.n['rLEFT', i], w.n['rRIGHT', i])
            want += [(f'runs of {i}', n, None), (f'share of runs of {i}', mul(Const(100), mul(n, inv(both_))), None)]
        want.append(('effort', meanof(w, TRIADS[:2]), None))
        have = {}
        for nums, rest in vals:
            for t in nums:
                have.setdefault(value(t), []).append((t, nums, rest))
        ck.count('figures', len(want))
        ok = True
        for name, t, key in want:
            v = value(t)
            if len(have.get(v, ())) != 1:
                ok = False
                ck.expect(None if odd else False, rule, where, name, f'{name}: {t!r} is shown {len(have.get(v, ()))} times'[:300])
            elif key is not None:
                g, k = key
                _, nums, rest = have[v][0]
                txt = ' '.join(str(x.v) for x in rest if isconst(x))
                refs = [names[y.id] for x in rest for y in (x.args if isapp(x, 'tuple') else [x]) if isinstance(y, Ref) and y.id in names]
                refs = [(i, k_.name, a) for i, k_, a in refs]
                lab = True
                if g == 'w':
                    lab = k in txt or None
                elif g == 'u':
                    lab = k in txt or None
                elif g[0] == 'r':
                    lab = str(k) in txt or None
                elif g == 'c':
                    lab = (refs == [k] if refs else None) and any(x == App('shown', Const(TEXTS[k[0], k[1]])) for x in rest)
                elif g == 't':
                    lab = refs == list(k) if len(refs) == 3 else None
                ck.expect(lab, 'figures are shown with what they belong to', where, name, f'{rest!r} for {name}'[:300])
        extra = set(have) - {value(t) for _, t, _ in want}
        ck.expect(True if not extra else None if odd else False, 'no other figures are shown', where, '', f'{[have[x][0][0] for x in extra]!r}'[:300])
        full += 1
    ck.expect(full > 0 or None, rule, where, 'paths')
