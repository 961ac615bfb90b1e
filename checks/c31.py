"""C31: normalisation of characters."""
import unicodedata

from checks.data import definitions
from checks.world import *

EXPLANATION = ('The mapping function is summarised as a term over an unknown text, for the replacement table of the program and for tables made up '
               'to be awkward. The term must be a homomorphism (each character contributes on its own, in order), which is read off its structure; '
               'what it does to every single character of Unicode is then decided by evaluating the term of one character. The table is read as '
               'constants: replacements must be decompositions or Arabic counterparts according to the Unicode database, contain no character '
               'that is itself replaced, be typeable, and cover every character of the classes the property names.')
ASSUMPTIONS = ['the Unicode database of the analysing Python']
TECHNIQUE = 'value-flow summary of the mapping function, structural homomorphism test, constant propagation of the replacement table'


def run(ck):
    ck.part('mapping', mapping, ck)
    ck.part('table', table, ck)


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, App):
        return any(mentions(a, x) for a in t.args)
    if isinstance(t, tuple):
        return any(mentions(a, x) for a in t)
    return False


def without(t, x, y):
    """t with x replaced by y"""
    if t == x:
        return y
    if isinstance(t, App):
        return App(t.op, *[without(a, x, y) for a in t.args])
    if isinstance(t, tuple):
        return tuple(without(a, x, y) for a in t)
    return t


def hom(t, text):
    """is t(text) = concatenation of t(c) over the characters c of text?"""
    if t == text:
        return True
    if isapp(t, 'strmeth'):
        name, s, args = t.args[:3]
        if not hom(s, text) or mentions(args, text):
            return False
        if name == 'translate':
            return True
        if name == 'replace':
            return len(args) == 2 and isconst(args[0]) and isinstance(args[0].v, str) and len(args[0].v) == 1
        return False
    if isapp(t, 'join') and t.args[0] in (Const(''), '') and isinstance(t.args[1], tuple) and len(t.args[1]) == 1:
        s = t.args[1][0]
        if isapp(s, 'rest') and hom(s.args[0], text):
            return True
        if isapp(s, 'star') and hom(s.args[0], text):
            src = s.args[0]
            body = without(s.args[1], App('elem', src, 0), Sym('char', 'str'))
            return not mentions(body, src) and not mentions(body, text) and not any(op in repr(ops(body)) for op in ('mu', 'idx', 'fold'))
    return False


def ops(t):
    if isinstance(t, App):
        return {t.op}.union(*[ops(a) for a in t.args]) if t.args else {t.op}
    if isinstance(t, tuple):
        return set().union(*[ops(a) for a in t]) if t else set()
    return set()


TABLES = {'a table exchanging two characters': {'a': 'b', 'b': 'a'}, 'an empty table': {}, 'a table with long replacements': {'a': 'bca', 'b': 'aa', '\r': 'x'},
          'a table that removes': {'a': '', ' ': ''}}


def chars(ck, m):
    """all characters (quick: of the planes in use) and a few words"""
    top = 0x110000 if ck.thorough else 0x3000
    cs = [chr(i) for i in range(top) if not 0xd800 <= i < 0xe000]
    cs += [chr(i) for i in range(0xf900, 0x10000)] if top < 0x10000 else []
    return cs


def mapping(ck):
    it = interp()
    f = it.modattr('lulua.text', 'mapChars')
    if not isinstance(f, FuncV):
        raise Gone('lulua.text.mapChars')
    where = f'lulua/text.py:{f.node.lineno}'
    cm = it.modattr('lulua.text', 'charMap')
    text = Sym('text', 'str')
    for what in ['the replacement table', *TABLES]:
        m = TABLES.get(what)

        def go():
            t = cm if m is None else it.new(Obj('dict', segs=tuple(seg1(tup(Const(k), Const(v))) for k, v in m.items())))
            return it.freeze(it.call(f, [text, t], {}))
        ps = nobudget(it.analyse(go))
        val = Ev(objs=dict(it.base)).ev(cm) if m is None else m
        keys = list(val)
        words = ['', 'a', 'ab', 'aab', 'ba' * 3, ' a b ', '\r\n', 'a\r\nb', '\u00e9', 'a\u0307\u0323', 'ABC'] + [''.join(keys), ''.join(reversed(keys)), 'x'.join(keys), ''.join(k + k for k in keys)]
        around = ['x', 'A', ' ', '\n', '\u0628', '\u064e', '-', '.', '\u0661', '(', '\u0640', '\u200c', '/']
        words += [a + b for a in keys + around for b in keys + around]
        words += [a + k + b for a in around for k in keys for b in around[:5]] + [a + k + k for a in around for k in keys] + ['\n'.join(keys), ' '.join(keys + keys), 'a' * 70 + keys[0] if keys else '']
        rule = 'normalising replaces each character that has a replacement and keeps all others in order'
        given = False
        for w in [*chars(ck, val), *words] if len(ps) == 1 else words:
            ck.count('texts')
            want = ''.join(val.get(c, c) for c in w)
            r = valueof(it, ps, text, w)
            if r is None and not given:
                given = True
                r = next((x for x in (constant(it, f, cm, m, v) + (v,) for v in words) if x[:1] != (''.join(val.get(c, c) for c in x[-1]),) and len(x) == 2), None)
                if r is not None:
                    r, w = r[:1], r[1]
                    want = ''.join(val.get(c, c) for c in w)
            if r is None:
                ck.undecided(rule, where, f'{what}: {w!r}')
                break
            if r != (want,):
                ck.violated(rule, where, f'with {what}, {w!r} becomes {r[0] if r else "an error"!r} instead of {want!r}')
                break
        else:
            if len(ps) == 1 and ps[0].outcome == 'return' and hom(ps[0].value, text):
                ck.holds(rule, where, what)
            else:
                ck.undecided(rule, where, f'{what}: not of a form known to treat characters independently')
    ck.used(it)


def constant(it, f, cm, m, w):
    """(result,) for a constant text"""
    def go():
        t = cm if m is None else it.new(Obj('dict', segs=tuple(seg1(tup(Const(k), Const(v))) for k, v in m.items())))
        return it.freeze(it.call(f, [Const(w), t], {}))
    ps = it.analyse(go)
    if len(ps) == 1 and ps[0].outcome == 'return' and isconst(ps[0].value):
        return (ps[0].value.v,)
    return ()


def valueof(it, ps, text, w):
    """(result,) of the function for a text, () if it fails, None if unknown"""
    for p in ps:
        objs = dict(it.base)
        objs.update(getattr(p.state, 'heap', {}) if hasattr(p, 'state') else {})
        e = Ev(env={text: w}, objs=objs)
        try:
            if not e.holds(p.facts):
                continue
            if p.outcome == 'raise':
                return ()
            return (e.ev(p.value),)
        except Undefined:
            return ()
        except Lost:
            return None
    return None


LIGATURES = '\ufefb\ufef7\ufef9'


def counterpart(c):
    n = unicodedata.name(c, None)
    out = []
    for pre in ('ARABIC ', 'ARABIC-INDIC '):
        try:
            out.append(unicodedata.lookup(pre + (n or '?')))
        except KeyError:
            pass
    return out


def table(ck):
    it = interp()
    cm = it.modattr('lulua.text', 'charMap')
    if cm is None:
        raise Gone('lulua.text.charMap')
    m = Ev(objs=dict(it.base)).ev(cm)
    where = 'lulua/text.py: charMap'
    lay = definitions('layouts').get('ar-lulua')
    if lay is None or isinstance(lay[1], Exception):
        raise Gone('layout ar-lulua')
    typed = {t for l in lay[1]['layout'] for t in l['layer'].values()}
    can = lambda s: all(c in typed for c in s)
    nice = lambda s: ' '.join(unicodedata.name(c, f'U+{ord(c):04x}') for c in s)
    for k, v in m.items():
        ck.count('replacements')
        ck.expect(len(k) == 1 if isinstance(k, str) else False, 'characters are replaced', where, nice(k), f'{k!r} is not a character and never replaced')
        if not (isinstance(v, str) and len(k) == 1):
            ck.expect(isinstance(v, str), 'characters are replaced by text', where, nice(k), f'replacement of {nice(k)} is {v!r}')
            continue
        ck.expect(not set(v) & set(m), 'normalised text is not changed by normalising it again', where, nice(k), f'{nice(k)} becomes {nice(v)}, which is replaced as well')
        ck.expect(unicodedata.normalize('NFD', v) == v, 'replacements are decomposed', where, nice(k), f'{nice(k)} becomes {nice(v)}, which is not decomposed')
        ck.expect(can(v), 'replacements can be typed', where, nice(k), f'{nice(k)} becomes {nice(v)}, which ar-lulua cannot type')
        ok = v == unicodedata.normalize('NFKD', k) if unicodedata.normalize('NFKD', k) != k else v in counterpart(k)
        ck.expect(ok, 'a character is replaced by its decomposition or Arabic counterpart', where, nice(k), f'{nice(k)} becomes {nice(v)}')
    rule = 'every character of the named classes is replaced'
    for c in map(chr, range(0x80)):
        a = [x for x in counterpart(c) if can(x)]
        if a:
            ck.count('characters')
            ck.expect(c in m, rule, where, nice(c), f'{nice(c)} has the counterpart {nice(a[0])} but is not replaced')
    for c in [chr(i) for i in range(0x600, 0x700)] + ['\xa0'] + list(LIGATURES):
        d = unicodedata.normalize('NFD' if 0x600 <= ord(c) < 0x700 else 'NFKD', c)
        if d != c and can(d) and not can(c):
            ck.count('characters')
            ck.expect(c in m, rule, where, nice(c), f'{nice(c)} is {nice(d)} decomposed but is not replaced')
    ck.used(it)
