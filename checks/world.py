"""A small world for the analyser: a keyboard with a few keys and a layout with
a few layers, built as heap objects with symbolic texts and counts.  Keys are
atoms known by name.  Operations other checks decide (key lookup, layer of a
modifier, text of a combination) are replaced by their specification.
"""
from checks.sm import Canon, fuzzy, showc
from sa.kit import *
from sa.report import Lost, Gone
from sa.evalt import Ev, Undefined


def tup(*xs):
    return App('tuple', *xs)


class World:
    def __init__(self, it, letters=('A', 'B'), modkeys=('S',), mods=((), ('S',)), texts=None, other=()):
        self.it = it
        self.letters = [self.key(x) for x in letters]
        # a trailing * makes a letter key a modifier
        self.modkeys = [self.key(x.rstrip('*'), 'LetterButton' if x.endswith('*') else 'Button') for x in modkeys] + [self.key(x, 'Button') for x in other]
        self.keys = self.letters + self.modkeys
        # mods: per layer, one tuple of modifier names or a list of alternatives
        self.mods = []
        for m in mods:
            alts = m if isinstance(m, list) else [m]
            self.mods.append([App('frozenset', *[self.byname(x) for x in a]) for a in alts])
        self.texts = texts
        kc, lc, lay = cls(it, 'keyboard.PhysicalKeyboard'), cls(it, 'layout.KeyboardLayout'), cls(it, 'layout.Layer')
        if None in (kc, lc, lay):
            raise Gone('PhysicalKeyboard, KeyboardLayout, Layer')
        self.kc, self.lc, self.lay = kc, lc, lay
        h = it.hooks
        find = lambda i, a, k: self.find(i, a[1])
        h['lulua.keyboard.PhysicalKeyboard.find'] = find
        h['lulua.keyboard.PhysicalKeyboard.__getitem__'] = find
        h['lulua.keyboard.PhysicalKeyboard.keys'] = lambda i, a, k: self.lst(self.keys)
        h['lulua.keyboard.PhysicalKeyboard.__iter__'] = NotImpl
        h['lulua.layout.KeyboardLayout.modifierToLayer'] = lambda i, a, k: self.tolayer(i, a[0], a[1] if len(a) > 1 else k['mod'])
        h['lulua.layout.KeyboardLayout.isModifier'] = lambda i, a, k: Const(any((a[1] if len(a) > 1 else k['mod']) in m for m in self.mods))
        h['lulua.layout.KeyboardLayout.getText'] = lambda i, a, k: self.text(i, a[0], a[1] if len(a) > 1 else k['comb'])

    @staticmethod
    def key(name, c='LetterButton'):
        return Enum('lulua.keyboard.' + c, name, 'key ' + name)

    def byname(self, n):
        for k in self.keys if hasattr(self, 'keys') else self.letters + self.modkeys:
            if k.name == n:
                return k
        raise Lost(f'key {n}')

    def find(self, it, n):
        if not isconst(n):
            raise Lost(f'key named {n!r}')
        for k in self.keys:
            if k.name == n.v:
                return k
        raise it.err('KeyError')

    def lst(self, xs):
        return self.it.new(Obj('list', segs=tuple(seg1(x) for x in xs)))

    def dct(self, items):
        return self.it.new(Obj('dict', segs=tuple(seg1(tup(k, v)) for k, v in items)))

    def inst(self, c, **attrs):
        return self.it.new(Obj('inst', cls=c, attrs=attrs))

    def keyboard(self):
        rows = self.lst([self.lst([self.lst(self.keys), self.lst([])])])
        return self.inst(self.kc, name=Const('kb'), description=Const('a keyboard'), rows=rows,
                         _buttonToRow=self.dct([(k, Const(0)) for k in self.keys]))

    def defined(self, i, k):
        """text of a key on a layer, None if it has none"""
        if self.texts is not None:
            return self.texts.get((i, k.name))
        return Const(f't{i}{k.name}') if k in self.letters else None

    def layer(self, i, m):
        items = [(k, self.defined(i, k)) for k in self.keys if self.defined(i, k) is not None]
        return App('nt', ClassV(self.lay), self.lst(m), self.dct(items))

    def layout(self, kb=None):
        ls = [self.layer(i, m) for i, m in enumerate(self.mods)]
        t = self.inst(self.lc, name=Const('lay'), layers=self.lst(ls), keyboard=kb or self.keyboard(), bufferLen=Const(1), t=Sym('trie'),
                      _modifierToLayer=self.dct([(m, tup(Const(i), l)) for i, l in enumerate(ls) for m in self.mods[i]]))
        return t

    def tolayer(self, it, lay, mod):
        ls = it.concrete(it.getattr(lay, 'layers'))
        for i, ms in enumerate(self.mods):
            if mod in ms:
                return tup(Const(i), ls[i])
        if isapp(mod, 'frozenset'):
            raise it.err('KeyError')
        raise Lost(f'modifier {mod!r}')

    def text(self, it, lay, comb):
        mod, btn = it.getattr(comb, 'modifier'), it.getattr(comb, 'buttons')
        for i, ms in enumerate(self.mods):
            if mod in ms:
                for k in self.keys:
                    if btn == App('frozenset', k):
                        t = self.defined(i, k)
                        if t is None:
                            raise it.err('KeyError')
                        return t
                raise it.err('KeyError')
        if isapp(mod, 'frozenset'):
            raise it.err('KeyError')
        raise Lost(f'combination {mod!r}')

    def intern(self):
        """combinations are created once from now on, different ones are unequal"""
        self.combs, self.it.interned = {}, set()

    def comb(self, i, k, alt=0):
        if self.combs is not None:
            r = self.combs.get((i, k, alt))
            if r is None:
                r = self.combs[(i, k, alt)] = self._comb(i, k, alt)
                self.it.interned.add(r.id)
            return r
        return self._comb(i, k, alt)

    combs = None

    def _comb(self, i, k, alt):
        c = cls(self.it, 'layout.ButtonCombination')
        return self.it.call(ClassV(c), [self.mods[i][alt], App('frozenset', k)], {})


def NotImpl(i, a, k):
    return NotImplemented


def dictof(st, ref):
    """content of a heap dictionary"""
    if not isinstance(ref, Ref):
        raise Lost(f'not a dictionary: {ref!r}'[:100])
    o = st.get(ref.id)
    d = {}
    for s in o.segs:
        if s.op != 'one':
            raise Lost(f'entry {s!r}'[:100])
        k, v = s.args[0].args
        d[k] = v
    return d


def nobudget(ps):
    for p in ps:
        if p.outcome == 'budget':
            raise Lost('too many paths')
    return ps
