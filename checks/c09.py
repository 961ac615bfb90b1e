"""C09: words."""
import unicodedata
from checks.sm import *

EXPLANATION = ('WordStats.process is summarised for an arbitrary word in progress (symbolic once longer than two characters) and typed '
               'texts of up to three characters of every Unicode category; product with the word automaton to a fixpoint. Each transition '
               'must count exactly the words its delimiters end.')
ASSUMPTIONS = ['KeyboardLayout.getText returns the typed text (C04)', 'the characters of one typed text are treated uniformly by position beyond the third']
W = Sym('W', 'str')
WORD = ('Lo', 'Mn')


def run(ck):
    ck.part('words', words, ck)


def reps():
    out = {}
    for i in list(range(0x20, 0x3000)) + list(range(0xac00, 0xac02)) + list(range(0xe000, 0xe001)):
        out.setdefault(unicodedata.category(chr(i)), chr(i))
    out['Lo'], out['Mn'] = '\u0627', '\u064e'
    out.pop('Cs', None)
    return out


def words(ck):
    it, w = harness(ck)
    texts = {}
    cur = [None]
    it.hooks['lulua.layout.KeyboardLayout.getText'] = lambda i, a, k: Const(cur[0])
    m = Machine(ck, it, 'stats.WordStats', w)
    ev = Events(it)
    r = reps()
    a, b, mn = r['Lo'], '\u0628', r['Mn']
    ts = sorted(set(r.values())) + [a + b, a + mn, ' ' + a, a + ' ', '  ', a + ' ' + b, ' ' + a + ' ', a + ' ' + ' ', mn + ' ' + a, '\u0627\u0654 ', '\u0627\u0655', a + '-', a + mn + '.', 'a' + a]

    def mk(t):
        e = ev.comb('Dl1')

        def f():
            cur[0] = t
            return e()
        return f
    alpha = [(repr(t), mk(t), t) for t in ts]
    alpha += [('skip ' + repr(c), ev.skip(c), None) for c in SKIPPED]

    def spec(q, t):
        if t is None:
            return (), {}
        d = {}
        for c in t:
            if unicodedata.category(c) in WORD:
                q = q + (c,)
            elif q:
                k = ('words', q)
                d[k] = d.get(k, 0) + 1
                q = ()
        return q, d

    def flat(k):
        """the characters of a key, as a tuple of characters and W"""
        if isconst(k) and isinstance(k.v, str):
            return tuple(k.v)
        if k == W:
            return (W,)
        if isinstance(k, App) and k.op == 'rest':
            return flat(k.args[0])
        if isinstance(k, App) and k.op in ('one', 'listof', 'seq', 'concat'):
            return tuple(x for y in k.args for x in flat(y))
        if isinstance(k, App) and k.op == 'join' and k.args[0] in ('', Const('')):
            return tuple(x for y in k.args[1] for x in flat(y))
        if isinstance(k, App) and k.op == 'str':
            return flat(k.args[0])
        raise Lost(f'word {k!r}')

    def eq(got, want):
        g = {}
        for key_, v in got.items():
            k = (key_[0],) + tuple(flat(x) for x in key_[1:])
            if isinstance(v, str):
                return False
            g[k] = g.get(k, 0) + v
        return g == want

    def widen(s, q):
        if len(q) < 3:
            return s, q
        cs = [c for c in q]

        def coll(c):
            if isinstance(c, tuple) and c[0] == 'obj' and c[1] == 'list':
                f = []
                for x in c[2]:
                    try:
                        f += flat(x[1]) if isinstance(x, tuple) else flat(x)
                    except Lost:
                        return c
                if f == cs:
                    return ('obj', 'list', (App('rest', W),), c[3], c[4])
                return c
            if isinstance(c, tuple):
                return tuple(coll(x) for x in c)
            if isinstance(c, T):
                try:
                    if list(flat(c)) == cs:
                        return W
                except Lost:
                    pass
            return c
        s2 = coll(s)
        return (s2, (W,)) if s2 != s else (s, q)
    nonempty = [App('truth', W), App('not', App('eq0', topoly(App('len', W)))) if False else App('truth', W)]
    more = [(repr(chr(c)), mk(chr(c)), chr(c)) for c in
            list(range(0x20, 0x7f)) + [0xa0, 0xab, 0xad, 0xbb] + list(range(0x600, 0x700)) + list(range(0x2000, 0x2070)) + list(range(0xfb50, 0xfb60)) + list(range(0xfe70, 0xff00))
            if unicodedata.category(chr(c)) != 'Cn']
    more += [(repr(x), mk(x), x) for x in (a * 7, (a + mn) * 4, a + ' ' + b + ' ' + a, '\r\n', a + '\n' + b, mn + mn, b + '\u0640' + b)]
    kinds = set()

    def some(node):
        k = (len(node[1]), node[1][:1] == (W,))
        return not (k in kinds or kinds.add(k))
    explore(ck, m, (), alpha, spec, 'exactly the words that a delimiter ends are counted', widen=widen, limit=300, deltaeq=eq, unknowns=(App('len', W),),
            assume=lambda node: nonempty[:1], extra=more, extrafrom=some, extrathen=[x for x in alpha if x[2] in (a, ' ')])
    rejects(ck, m)
    ck.used(it)
