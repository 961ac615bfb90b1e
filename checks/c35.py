"""C35: finding and listing layouts and keyboards by name."""
import itertools
import os.path

from checks.data import definitions
from checks.world import *

EXPLANATION = ('The lookup is interpreted for names with and without extension and for every combination of the three candidate files being absent, '
               'readable, incomplete or no YAML text, with file access replaced by its specification; the path taken must return the definition built from the '
               'first candidate that can be read, and KeyError if there is none. Listing is interpreted for directories with hidden and foreign files. '
               'The two shipped collections must read the directories that hold the shipped definitions.')
ASSUMPTIONS = ['open and the resource functions raise FileNotFoundError for names that do not exist', 'a file that is no YAML text makes the YAML reader raise ReaderError']
TECHNIQUE = 'path-sensitive abstract interpretation with the file system replaced by its specification, all existence patterns'
GOOD, BAD, NONE_, PART = 'readable', 'no YAML text', 'absent', 'incomplete'
DIR = 'some/dir'


def run(ck):
    ck.part('lookup', lookup, ck)
    ck.part('listing', listing, ck)
    ck.part('collections', collections_, ck)


class Files:
    """candidate files: ('file'|'resource', path) -> state"""

    def __init__(self, it, state):
        self.it, self.state = it, state
        x = dict(it.exthooks)
        x['open'] = x['io.open'] = lambda i, a, k: self.open('file', a[0] if a else k['file'])
        x['pkg_resources.resource_stream'] = lambda i, a, k: self.res(a)
        x['pkg_resources.resource_exists'] = lambda i, a, k: self.exists('resource', self.pkg(a))
        x['pkg_resources.resource_string'] = lambda i, a, k: App('content', self.res(a))
        x['pkg_resources.resource_listdir'] = self.listdir
        x['pkg_resources.resource_isdir'] = lambda i, a, k: FALSE
        x['os.path.exists'] = x['os.path.isfile'] = lambda i, a, k: self.exists('file', a[0])
        x['yaml.safe_load'] = x['yaml.load'] = self.load
        x['spec.deserialize'] = self.build
        it.exthooks = x
        m = dict(it.methodhooks)
        m['read'] = lambda i, r, a, k: App('content', r) if isapp(r, 'handle') else NotImplemented
        m['close'] = lambda i, r, a, k: NONE if isapp(r, 'handle') else NotImplemented
        it.methodhooks = m

    def pkg(self, a):
        if len(a) < 2 or not isconst(a[0]):
            raise Lost(f'resource {a!r}'[:100])
        if a[0].v != 'lulua' and not str(a[0].v).startswith('lulua.'):
            raise Lost(f'resource of {a[0]!r}')
        return a[1]

    def key(self, kind, p):
        if not isconst(p) or not isinstance(p.v, str):
            raise Lost(f'path {p!r}'[:100])
        return kind, os.path.normpath(p.v) if kind == 'resource' else p.v

    def exists(self, kind, p):
        return Const(self.state.get(self.key(kind, p), NONE_) != NONE_)

    def open(self, kind, p):
        k = self.key(kind, p)
        self.it.ev('tried', key=k)
        if self.state.get(k, NONE_) == NONE_:
            raise self.it.err('FileNotFoundError')
        return App('handle', *k)

    def res(self, a):
        return self.open('resource', self.pkg(a))

    def load(self, it, a, k):
        h = it.force(a[0])
        if isapp(h, 'content'):
            h = h.args[0]
        if not isapp(h, 'handle'):
            raise Lost(f'loads {h!r}'[:100])
        if self.state[h.args] == BAD:
            raise it.err('yaml.reader.ReaderError')
        return App('data', *h.args)

    def build(self, it, a, k):
        d = it.freeze(a[0])
        if isapp(d, 'data') and self.state[d.args] == PART:
            raise it.err('KeyError')
        return App('defn', d)

    def listdir(self, it, a, k):
        p = self.key('resource', self.pkg(a))[1]
        return it.new(Obj('list', segs=tuple(seg1(Const(os.path.basename(q))) for kind, q in self.state if kind == 'resource' and os.path.dirname(q) == p)))


def loader(it):
    c = cls(it, 'util.YamlLoader')
    if c is None:
        raise Gone('lulua.util.YamlLoader')
    return it.call(ClassV(c), [Const(DIR), Ext('spec.deserialize')], {})


def shown(v):
    return ' '.join(map(str, v.args[0].args)) if isapp(v, 'defn') and isapp(v.args[0], 'data') else repr(v)[:80]


def lookup(ck):
    it = interp()
    fs = Files(it, {})
    f = method(it, 'util.YamlLoader', '__getitem__')
    if f is None:
        raise Gone('lulua.util.YamlLoader.__getitem__')
    where = f'lulua/util.py:{f.node.lineno}'
    rule = 'a name is looked up as a file, then as a resource with and without extension'
    for name, states in itertools.product(('foo', 'foo.yaml', 'sub/foo.yaml', 'ar-lulua'), itertools.product((GOOD, BAD, NONE_, PART), repeat=3)):
        cands = [('file', name), ('resource', f'{DIR}/{name}.yaml'), ('resource', f'{DIR}/{name}')]
        fs.state = dict(zip(cands, states))
        ps = nobudget(it.analyse(lambda: it.getitem(loader(it), Const(name))))
        ck.used(it)
        what = f'{name}: file {states[0]}, with extension {states[1]}, without {states[2]}'
        ck.count('lookups')
        want, broken = next(((App('defn', App('data', *c)), s == PART) for c, s in zip(cands, states) if s in (GOOD, PART)), (None, False))
        if broken:
            # it exists: never replaced by another one
            for p in ps:
                ck.expect(True if p.outcome == 'raise' else (False if isapp(p.value, 'defn') or isconst(p.value) else None), rule, where, what,
                          f'{what}: gives {shown(p.value)} in place of the definition that is incomplete')
            continue
        one = len(ps) == 1
        for p in ps:
            if p.outcome == 'raise':
                e = p.value.exc
                kerr = 'KeyError' in repr(e) or 'LookupError' in repr(e)
                ck.expect(want is None and kerr or (False if one else None), rule, where, what,
                          f'{what}: fails with {e!r}' + (f', {shown(want)} exists' if want else ' instead of KeyError'))
            else:
                ck.expect(p.value == want if isapp(p.value, 'defn') or isconst(p.value) else None, rule, where, what,
                          f'{what}: gives {shown(p.value)}, should be {shown(want) if want else "KeyError"}')


def listing(ck):
    it = interp()
    fs = Files(it, {})
    f = method(it, 'util.YamlLoader', '__iter__')
    if f is None:
        raise Gone('lulua.util.YamlLoader.__iter__')
    where = f'lulua/util.py:{f.node.lineno}'
    rule = 'listing gives every shipped definition once and nothing else'
    for names in ((), ('a.yaml',), ('a.yaml', 'b.yaml', 'c.d.yaml'), ('.a.yaml', 'b.yaml', 'README.txt', 'c', 'yaml', 'x.yaml~', 'd.yaml', '.yaml')):
        for local in (False, True):
            state = {('resource', f'{DIR}/{n}'): GOOD for n in names}
            if local:
                state.update({('file', n): GOOD for n in names})
                state.update({('file', n[:-5]): GOOD for n in names if n.endswith('.yaml')})
            fs.state = state

            def go():
                xs = it.concrete(it.callbuiltin('list', [loader(it)], {}))
                if xs is None:
                    raise Lost('listing')
                return tup(*[it.freeze(x) for x in xs])
            ps = nobudget(it.analyse(go))
            ck.used(it)
            want = sorted(f'resource {DIR}/{n}' for n in names if n.endswith('.yaml') and not n.startswith('.'))
            what = f'{", ".join(names) or "no files"}' + (' and files of the same name here' if local else '')
            ck.count('listings')
            for p in ps:
                if p.outcome == 'raise':
                    ck.expect(False if len(ps) == 1 else None, rule, where, what, f'{what}: fails with {p.value.exc!r}')
                    continue
                got = sorted(map(shown, p.value.args))
                ck.expect(got == want if all(isapp(x, 'defn') for x in p.value.args) else None, rule, where, what, f'{what}: {got}, should be {want}')


def collections_(ck):
    """the shipped collections"""
    for mod, name, kind, c in (('keyboard', 'defaultKeyboards', 'keyboards', 'PhysicalKeyboard'), ('layout', 'defaultLayouts', 'layouts', 'GenericLayout')):
        it = interp()
        shipped = {n: p for n, (p, d) in definitions(kind).items() if not isinstance(d, Exception)}
        state = {('resource', os.path.normpath(f'data/{kind}/{os.path.basename(p)}')): GOOD for p in shipped.values()}
        Files(it, state)
        col = it.modattr('lulua.' + mod, name)
        if col is None:
            raise Gone(f'lulua.{mod}.{name}')
        it.hooks[f'lulua.{mod}.{c}.deserialize'] = lambda i, a, k: App('defn', i.freeze(a[-1]))
        where = f'lulua/{mod}.py: {name}'
        rule = f'every shipped definition is found by its name'
        for n, path in shipped.items():
            base = os.path.basename(path)
            for q in (base, os.path.splitext(base)[0]):
                ps = nobudget(it.analyse(lambda: it.getitem(col, Const(q))))
                ck.count('shipped names')
                for p in ps:
                    ok = p.outcome == 'return' and isapp(p.value, 'defn') and shown(p.value) == f'resource data/{kind}/{base}'
                    ck.expect(ok if len(ps) == 1 and (p.outcome == 'raise' or isapp(p.value, 'defn')) else None, rule, where, q,
                              f'{name}[{q!r}] gives {shown(p.value) if p.outcome == "return" else repr(p.value.exc)}')
        ck.used(it)
