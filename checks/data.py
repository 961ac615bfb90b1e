"""The shipped definitions (keyboards, layouts), read as data, and the world of
the analyser built from them.  Nothing of lulua is imported."""
import os
import yaml

from checks.world import *

DATA = os.path.join(ROOT, 'lulua', 'data')


class Dup(Exception):
    pass


class Marked(dict):
    """mapping that knows the line of its keys"""
    lines = {}


class Loader(yaml.SafeLoader):
    pass


def mapping(loader, node):
    loader.flatten_mapping(node)
    d = Marked()
    d.lines, d.dups = {}, []
    for k, v in node.value:
        key = loader.construct_object(k, deep=True)
        if key in d:
            d.dups.append((key, k.start_mark.line + 1))
        d[key] = loader.construct_object(v, deep=True)
        d.lines[key] = k.start_mark.line + 1
    return d


Loader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, mapping)


def load(path):
    with open(path, encoding='utf8') as fd:
        return yaml.load(fd, Loader)


def definitions(kind):
    """{name: (path relative to the repository, data)}"""
    d = os.path.join(DATA, kind)
    if not os.path.isdir(d):
        raise Gone(f'lulua/data/{kind}')
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.yaml') and not f.startswith('.'):
            try:
                out[f[:-5]] = (f'lulua/data/{kind}/{f}', load(os.path.join(d, f)))
            except (yaml.YAMLError, UnicodeDecodeError) as e:
                out[f[:-5]] = (f'lulua/data/{kind}/{f}', e)
    return out


def buttons(kb):
    """[(row, half, position, data)] of a keyboard"""
    for r, row in enumerate(kb['rows']):
        for h, half in enumerate(row):
            for p, b in enumerate(half):
                yield r, h, p, b


def layers(lay):
    """[(modifier sets, {key: text})] of a layout, as the loader understands it"""
    return [([frozenset(m) for m in l['modifier']], l['layer']) for l in lay['layout']]


class Shipped(World):
    """World of a shipped keyboard and one layout"""
    CLASSES = {'standard': 'Button', 'letter': 'LetterButton', 'multi': 'MultiRowButton'}

    def __init__(self, it, kb, lay=None):
        it.concretewhile = True
        self.kbdata, self.laydata = kb, lay
        self.data = {}
        self.order = []
        for r, h, p, b in buttons(kb):
            k = self.key(b['name'], self.CLASSES[b.get('kind', 'standard')])
            self.data[k] = (r, h, p, b)
            self.order.append(k)
        super().__init__(it, letters=(), modkeys=(), mods=())
        self.keys = list(self.order)
        self.letters = [k for k in self.keys if k.cls.endswith('.LetterButton')]
        self.modkeys = [k for k in self.keys if k not in self.letters]
        self.named = {k.name: k for k in self.keys}
        self.tx = []
        if lay is not None:
            self.setlayout(lay)
        it.enumattr = self.attr
        it.hooks['lulua.keyboard.PhysicalKeyboard.getRow'] = lambda i, a, k: self.rowof(i, a[1] if len(a) > 1 else k.get('btn'))

    def setlayout(self, lay):
        self.mods, self.tx = [], []
        for ms, t in layers(lay):
            self.mods.append([App('frozenset', *sorted((self.named[x] for x in m), key=lambda k: k.name)) for m in ms])
            self.tx.append({k: str(v) for k, v in t.items()})

    def rowof(self, it, b):
        if b not in self.data:
            return NotImplemented
        return Const(self.data[b][0])

    def attr(self, k, name):
        if k not in self.data:
            return None
        r, h, p, b = self.data[k]
        if name == 'width':
            return Const(b.get('width', 1))
        if name == 'isMarked':
            return Const(b.get('isMarked', False))
        if name == 'span' and 'span' in b:
            return Const(b['span'])
        if name == 'scancode':
            s = b.get('scancode')
            if not s:
                return NONE
            v = lambda x: tup(*[Const(y) for y in x]) if isinstance(x, list) else Const(x)
            return self.dct([(Const(n), v(x)) for n, x in s.items()])
        return None

    def defined(self, i, k):
        t = self.tx[i].get(k.name)
        return None if t is None else Const(t)

    def keyboard(self):
        rows = []
        for row in self.kbdata['rows']:
            rows.append(self.lst([self.lst([self.named[b['name']] for b in half]) for half in row]))
        return self.inst(self.kc, name=Const(self.kbdata['name']), description=Const(self.kbdata['description']), rows=self.lst(rows),
                         _buttonToRow=self.dct([(k, Const(self.data[k][0])) for k in self.keys]))

    def layout(self, kb=None):
        t = super().layout(kb)
        self.it.get(t).attrs['name'] = Const(self.laydata['name'])
        return t

    def text(self, it, lay, comb):
        mod, btn = it.getattr(comb, 'modifier'), it.getattr(comb, 'buttons')
        for i, ms in enumerate(self.mods):
            if mod in ms and isapp(btn, 'frozenset') and len(btn.args) == 1 and isinstance(btn.args[0], Enum):
                t = self.defined(i, btn.args[0])
                if t is None:
                    raise it.err('KeyError')
                return t
        return super().text(it, lay, comb)
