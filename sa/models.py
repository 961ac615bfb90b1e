"""
Semantics of Python's objects, builtins and the library functions /repo uses,
over abstract values.
"""
import ast
import math
import operator as _op

from .terms import *

BUILTINS = set('''len abs min max sum any all sorted reversed enumerate zip map filter range list tuple set frozenset
dict str int float bool repr isinstance issubclass hasattr getattr setattr iter next print type hash id ord chr round pow
divmod callable super property open bytes bytearray object staticmethod classmethod format vars dir input exec eval
memoryview slice ascii bin hex oct complex globals locals __import__ delattr breakpoint
Exception BaseException KeyError IndexError LookupError ValueError TypeError AssertionError StopIteration EOFError
FileNotFoundError OSError IOError NotImplementedError RuntimeError ZeroDivisionError AttributeError KeyboardInterrupt
SystemExit UnicodeDecodeError UnicodeError ArithmeticError OverflowError NameError ImportError PermissionError
GeneratorExit StopAsyncIteration Warning DeprecationWarning UserWarning TimeoutError BrokenPipeError'''.split())

EXCNAMES = {b for b in BUILTINS if b[0].isupper()} | {'argparse.ArgumentTypeError'}

PUREPREFIX = ('math.', 'unicodedata.', 'os.path.', 're.', 'string.', 'fractions.', 'decimal.', 'html5lib.constants')
PUREEXT = {'pkg_resources.resource_filename', 'fnmatch.fnmatch', 'base64.b64encode', 'io.StringIO', 'io.BytesIO',
           'fnmatch.fnmatchcase', 'json.loads', 'json.dumps', 'html.escape'}

CANON = {
    'itertools.chain.from_iterable': 'itertools.chain.from_iterable',
    'xml.etree.ElementTree': 'xml.etree.ElementTree',
    'typing.OrderedDict': 'collections.OrderedDict',
}

STRPURE = {'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'split', 'rsplit', 'startswith', 'endswith', 'replace', 'join',
           'encode', 'decode', 'format', 'title', 'zfill', 'splitlines', 'find', 'rfind', 'index', 'count', 'isdigit',
           'isalpha', 'isspace', 'partition', 'rpartition', 'translate', 'ljust', 'rjust', 'center', 'casefold',
           'isprintable', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'removeprefix', 'removesuffix', 'capitalize',
           'expandtabs', 'hex', 'bit_length', 'isascii', 'isalnum', 'isidentifier', 'istitle', 'swapcase', 'rindex'}
LISTMUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'update', 'discard',
           'setdefault', 'popitem', 'appendleft', 'popleft', 'rotate', 'extendleft', 'subtract', '__setitem__',
           'difference_update', 'intersection_update', 'symmetric_difference_update'}
# positional arguments the container methods take, and their keywords
ARITY = {'get': (1, 2, set()), 'pop': (0, 2, set()), 'append': (1, 1, set()), 'add': (1, 1, set()), 'index': (1, 3, set()),
         'extend': (1, 1, set()), 'setdefault': (1, 2, set()), 'keys': (0, 0, set()), 'values': (0, 0, set()), 'items': (0, 0, set()),
         'clear': (0, 0, set()), 'copy': (0, 0, set()), 'remove': (1, 1, set()), 'insert': (2, 2, set()), 'count': (1, 3, set()), 'join': (1, 1, set()), 'startswith': (1, 3, set()), 'endswith': (1, 3, set()), 'replace': (2, 3, set())}
BUILTINMETH = LISTMUT | STRPURE | {'items', 'keys', 'values', 'get', 'copy', 'index', 'count', 'union', 'intersection',
                                   'difference', 'issubset', 'issuperset', 'isdisjoint', 'most_common', 'elements',
                                   'symmetric_difference', 'total', '__getitem__', '__len__', '__contains__', '_replace', '_asdict',
                                   'hex', 'read_text'}


# bokeh's colour palettes: sizes there are
PALETTES = {'bokeh.palettes.Set3': (3, 12), 'bokeh.palettes.Set1': (3, 9), 'bokeh.palettes.Set2': (3, 8), 'bokeh.palettes.Paired': (3, 12),
            'bokeh.palettes.Category10': (3, 10), 'bokeh.palettes.Category20': (3, 20)}


def pykey(k):
    """a known number, string or tuple of these"""
    if isconst(k) and isinstance(k.v, (int, float, str)):
        return float(k.v) if isinstance(k.v, (bool, float)) else k.v
    if isapp(k, 'tuple'):
        xs = [pykey(x) if isinstance(x, T) else None for x in k.args]
        return None if None in xs else tuple(xs)
    return None


class Models:

    # ------------------------------------------------------------ names

    def builtin(self, name):
        if name in BUILTINS:
            return Ext(name)
        if name == 'NotImplemented':
            return Ext('NotImplemented')
        if name == 'Ellipsis':
            return ELL
        if name == '__debug__':
            return TRUE
        return None

    extconsts = {}

    def canonext(self, name):
        return CANON.get(name, name)

    # ------------------------------------------------------------ enums, namedtuples

    def isenum(self, info):
        for b in info.bases:
            if isinstance(b, Ext) and b.name in ('enum.IntEnum', 'enum.Enum', 'enum.IntFlag', 'enum.Flag'):
                return True
            if isinstance(b, ClassV) and b.info.kind == 'enum':
                return True
        return False

    def finishenum(self, info):
        n = 0
        for k, v in list(info.attrs.items()):
            if k.startswith('_') or isinstance(v, (FuncV,)):
                continue
            if isconst(v):
                val = v.v
            elif isapp(v, 'call') and v.args[0] == 'enum.auto':
                val = n + 1
            else:
                continue
            n = val if isinstance(val, int) else n
            m = Enum(info.qual, k, val)
            # alias: the first name wins
            for e in info.members:
                if e == m:
                    m = e
            info.attrs[k] = m
            if m not in info.members:
                info.members.append(m)

    def mkenum(self, base, name, items):
        from .engine import ClassInfo
        info = ClassInfo(name, f'{self.curmod}.{name}', self.curmod, None)
        info.bases = [base]
        info.kind = 'enum'
        for k, v in items:
            m = Enum(info.qual, k, v)
            for e in info.members:
                if e == m:
                    m = e
            info.attrs[k] = m
            if m not in info.members:
                info.members.append(m)
        self.classes[info.qual] = info
        return ClassV(info)

    def enuminfo(self, e):
        return self.classes[e.cls]

    # ------------------------------------------------------------ classes of terms

    def classof(self, t):
        if isinstance(t, Sym) and t.cls is not None:
            return t.cls
        if isinstance(t, Ref):
            o = self.get(t)
            return o.cls if o.kind == 'inst' else None
        if isapp(t, 'nt'):
            return t.args[0].info
        if isinstance(t, Enum):
            return self.enuminfo(t)
        c = self.clsof.get(t)
        if c is not None:
            return c
        for l in reversed(self.levels):
            for f, v in l.facts.items():
                if v and isapp(f, 'isinstance') and f.args[0] == t and isinstance(f.args[1], ClassV):
                    return f.args[1].info
        return None

    # ------------------------------------------------------------ freezing heap objects into terms

    def freeze(self, v, seen=()):
        v = self.force(v)
        if isinstance(v, Ref):
            if v.id in seen:
                return v
            if v.id in self.base and v.id not in self.st.heap:
                o = self.get(v)
                if o.kind in ('dict', 'list', 'set') and len(o.segs) > 16:
                    return v
            o = self.get(v)
            s2 = seen + (v.id,)
            if o.kind in ('list', 'gen'):
                return App('listof', *[self.freezeseg(s, s2) for s in o.segs])
            if o.kind == 'set':
                return App('setof', *sorted({self.freezeseg(s, s2) for s in o.segs}, key=repr))
            if o.kind == 'dict':
                return App('dictof', *[self.freezeseg(s, s2) for s in o.segs])
            return v
        if isapp(v, 'tuple'):
            return App('tuple', *[self.freeze(x, seen) for x in v.args])
        if v in self.st.cont:
            return App('seq', *self.st.cont[v])
        return v

    def freezeseg(self, s, seen=()):
        if s.op == 'one':
            return App('one', self.freeze(s.args[0], seen))
        return s

    # ------------------------------------------------------------ sequences

    def segments(self, v):
        """ the elements of an iterable as a tuple of segments """
        from .engine import seg1, segrest
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind in ('list', 'set', 'gen'):
                return o.segs
            if o.kind == 'dict':
                return self.keysegs(o)
            if o.kind == 'inst':
                if '_children' in o.attrs:
                    return self.segments(o.attrs['_children'])
                f, _ = o.cls.lookup('__iter__')
                if f is not None:
                    return self.segments(self.call(self.bind(f, v), [], {}))
                return (segrest(v),)
        if isapp(v, 'tuple') or isapp(v, 'frozenset'):
            return tuple(seg1(x) for x in v.args)
        if isapp(v, 'nt'):
            return tuple(seg1(x) for x in v.args[1:])
        if v.__class__ is App and v.op in ('tupleof', 'listof', 'setof', 'fsetof', 'seq'):
            return v.args
        if isconst(v):
            if isinstance(v.v, str):
                return tuple(seg1(Const(c)) for c in v.v)
            if isinstance(v.v, (tuple, bytes)):
                return tuple(seg1(Const(c)) for c in v.v)
            if v.v is None:
                return ()
        if isinstance(v, ClassV) and v.info.kind == 'enum':
            return tuple(seg1(m) for m in v.info.members)
        if isapp(v, 'iterof'):
            return self.segments(v.args[1])
        if v in self.st.cont:
            segs = self.st.cont[v]
            return tuple(seg1(s.args[0].args[0]) if s.op == 'one' and isapp(s.args[0], 'kv') else s for s in segs)
        ci = self.classof(v)
        if ci is not None and ci.kind == 'class':
            f, _ = ci.lookup('__iter__')
            if f is not None:
                return self.segments(self.call(self.bind(f, v), [], {}))
        if isapp(v, 'range'):
            a = [x.v if isconst(x) else None for x in v.args]
            if None not in a:
                r = range(*a)
                if len(r) <= 4096:
                    return tuple(seg1(Const(i)) for i in r)
        if isapp(v, 'enumerate') or isapp(v, 'zip'):
            return (segrest(v),)
        if isapp(v, 'concat') or isapp(v, 'seqadd'):
            out = []
            for x in v.args:
                out.extend(self.segments(x))
            return tuple(out)
        if isapp(v, 'items') and v.args[0] in self.st.cont:
            segs = self.st.cont[v.args[0]]
            out = []
            for s in segs:
                if s.op == 'one':
                    out.append(seg1(App('tuple', *s.args[0].args)))
                elif s.op == 'rest':
                    out.append(segrest(App('items', s.args[0])))
                else:
                    out.append(s)
            return tuple(out)
        return (segrest(v),)

    def keysegs(self, o):
        from .engine import seg1, segrest
        return tuple(self.mapseg(s, lambda x: x.args[0], 'keysof') for s in o.segs)

    def mapseg(self, s, f, restop):
        """ map f over a segment of dict entries """
        if s.op == 'one':
            return App('one', f(s.args[0]))
        if s.op == 'rest':
            t = s.args[0]
            if isapp(t, 'items'):
                d = t.args[0]
                return App('rest', d if restop == 'keysof' else App(restop, d) if restop != 'items' else t)
            return App('rest', App(restop, t) if restop != 'keysof' else t)
        src, alts = s.args
        return App('star', src, tuple(App('alt', a.args[0], tuple(self.mapseg(x, f, restop) for x in a.args[1])) for a in alts))

    def dictsegs(self, v):
        """ entries of a mapping or iterable of pairs """
        from .engine import seg1, segrest
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == 'dict':
                return o.segs
        if isapp(v, 'dictof'):
            return v.args
        if v in self.st.cont:
            return tuple(seg1(App('tuple', *s.args[0].args)) if s.op == 'one' and isapp(s.args[0], 'kv') else
                         segrest(App('items', s.args[0])) if s.op == 'rest' else s for s in self.st.cont[v])
        return (segrest(App('items', v)),)

    def pairsegs(self, v):
        """ entries from an iterable of pairs (or a mapping) """
        from .engine import seg1, segrest
        v = self.force(v)
        if isinstance(v, Ref) and self.get(v).kind == 'dict':
            return self.get(v).segs
        if not isinstance(v, Ref) and not isapp(v) or (isapp(v) and v.op in ('attr', 'getitem', 'elem', 'dictof')):
            if isinstance(v, (Sym, App)):
                return self.dictsegs(v)
        segs = self.segments(v)
        out = []
        for s in segs:
            if s.op == 'one':
                items = self.concrete(s.args[0])
                if items is not None and len(items) == 2:
                    s = seg1(App('tuple', *items))
                else:
                    p = s.args[0]
                    s = seg1(App('tuple', self.getitem(p, Const(0)), self.getitem(p, Const(1))))
            out.append(s)
        return tuple(out)

    def dictitems(self, v):
        """ concrete [(k, v)] or None """
        segs = self.dictsegs(v)
        if all(s.op == 'one' for s in segs):
            return [(s.args[0].args[0], s.args[0].args[1]) for s in segs]
        return None

    def step(self, v):
        """ what a trie finds is a pair of key and value """
        if isapp(v, 'mcall') and v.args[1] in ('longest_prefix', 'shortest_prefix'):
            return [self.getattr(v, 'key'), self.getattr(v, 'value')]
        return None

    def concrete(self, v):
        """ list of elements if the spine is known, else None """
        v = self.force(v)
        st = self.step(v)
        if st is not None:
            return st
        if isinstance(v, (Sym,)) and v not in self.st.cont and self.classof(v) is None:
            return None
        if isinstance(v, (Ext, FuncV, Bound, ModV, Enum)):
            return None
        if isinstance(v, App) and v.op in ('attr', 'getitem', 'elem', 'call', 'mu') and v not in self.st.cont and self.classof(v) is None:
            return None
        if isinstance(v, (Sym, App)) and v not in self.st.cont:
            ci = self.classof(v)
            if ci is not None and ci.kind == 'namedtuple':
                return [self.getattr(v, f) for f in ci.fields]
            if ci is not None and not ci.lookup('__iter__')[0]:
                return None
        segs = self.segments(v)
        if all(s.op == 'one' for s in segs):
            return [s.args[0] for s in segs]
        return None

    def binder(self, t):
        """ (source, binder, value thunk) for one generic element of term t """
        if isapp(t, 'sorted') or isapp(t, 'reversed'):
            src, b, val = self.binder(t.args[0])
            return App(t.op, src, *t.args[1:]), b, val
        if isapp(t, 'items'):
            d = t.args[0]
            b = self.elem(d)
            if d in self.clsof and False:
                pass
            return d, b, lambda: App('tuple', b, self.rawgetitem(d, b))
        if isapp(t, 'keysof'):
            return self.binder(t.args[0])
        if isapp(t, 'valuesof'):
            d = t.args[0]
            b = self.elem(d)
            return d, b, lambda: self.rawgetitem(d, b)
        if isapp(t, 'enumerate'):
            src, b, val = self.binder(t.args[0])
            u = self.unorder(src)
            i = App('idx', u, b.args[1]) if u == src else App('idx', src, b.args[1])
            st = t.args[1]
            return src, b, lambda: App('tuple', add(i, st), val())
        if isapp(t, 'range'):
            if len(t.args) == 1 and isapp(t.args[0], 'len'):
                x = t.args[0].args[0]
                src, b, val = self.binder(x)
                return src, b, lambda: App('idx', self.unorder(src), b.args[1])
            b = self.elem(t)
            return t, b, lambda: b
        if isapp(t, 'zip'):
            parts = [self.binder(x) for x in t.args]
            src = App('zip', *[p[0] for p in parts])
            b = App('elem', src, self.nest(src))
            return src, b, lambda: App('tuple', *[p[2]() for p in parts])
        b = self.elem(t)
        ec = self.elemcls.get(t)
        if ec is not None:
            self.clsof[b] = ec
        return t, b, lambda: b

    elemcls = {}

    # ------------------------------------------------------------ attributes

    def bind(self, f, obj):
        if isinstance(f, FuncV):
            if f.kind == 'staticmethod':
                return f
            if f.kind == 'classmethod':
                c = obj if isinstance(obj, ClassV) else (ClassV(self.classof(obj)) if self.classof(obj) else obj)
                return Bound(f, c)
        return Bound(f, obj)

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ModV):
            v = self.modattr(o.name, name)
            if v is not None:
                return self.force(v)
            if f'{o.name}.{name}' in self.repo.mods:
                return ModV(f'{o.name}.{name}')
            return self.unknown(f'module {o.name} has no {name}')
        if isinstance(o, Ext):
            n = self.canonext(f'{o.name}.{name}')
            return self.extconsts[n] if n in self.extconsts else Ext(n)
        if isinstance(o, ClassV):
            info = o.info
            if name == '__name__':
                return Const(info.name)
            if name == '__members__' and info.kind == 'enum':
                return self.mkdict([App('one', App('tuple', Const(k), v)) for k, v in info.attrs.items() if isinstance(v, Enum)])
            v, c = info.lookup(name)
            if v is not None:
                v = self.force(v)
                if isinstance(v, FuncV) and v.kind == 'classmethod':
                    return Bound(v, o)
                # class attribute may have been rebound
                return self.st.sattr.get((ClassV(c), name), v)
            if (o, name) in self.st.sattr:
                return self.st.sattr[(o, name)]
            if info.kind == 'namedtuple' and name == '_fields':
                return App('tuple', *[Const(f) for f in info.fields])
            if info.kind == 'namedtuple' and name == '_make':
                return App('bm', o, name)
            for b in info.extbases():
                return App('extattr', b, name, o)
            return self.unknown(f'class {info.name} has no attribute {name}')
        if isapp(o, 'super'):
            cls, self_ = o.args
            mro = cls.info.mro()[1:]
            for c in mro:
                if name in c.attrs:
                    return self.bind(c.attrs[name], self_)
            for b in cls.info.extbases():
                if f'{b.name}.{name}' in self.exthooks:
                    return Bound(Ext(f'{b.name}.{name}'), self_)
                return App('bm', self_, name)
            return App('bm', self_, 'object.' + name)
        if isinstance(o, Enum):
            if name == 'name' or name == '_name_':
                return Const(o.name)
            if name == 'value' or name == '_value_':
                return Const(o.value)
            info = self.enuminfo(o)
            if name == '__class__':
                return ClassV(info)
            if self.enumattr is not None:
                v = self.enumattr(o, name)
                if v is not None:
                    return v
            v, c = info.lookup(name)
            if isinstance(v, FuncV):
                if v.kind == 'property':
                    return self.call(v, [o], {})
                return self.bind(v, o)
            return App('bm', o, name)
        if isapp(o, 'nt'):
            info = o.args[0].info
            if name in info.fields:
                return o.args[1 + info.fields.index(name)]
            return App('bm', o, name)
        if isinstance(o, Ref):
            ob = self.get(o)
            if ob.kind == 'inst':
                if name == '__class__':
                    return ClassV(ob.cls)
                v, c = ob.cls.lookup(name)
                if isinstance(v, FuncV) and v.kind == 'property':
                    return self.call(v, [o], {})
                if name in ob.attrs:
                    return self.force(ob.attrs[name])
                if isinstance(v, FuncV):
                    return self.bind(v, o)
                if v is not None:
                    return self.force(self.st.sattr.get((ClassV(c), name), v))
                if name == '__dict__':
                    return App('attr', o, name)
                if ob.cls.extbases():
                    return App('attr', o, name)
                return self.unknown(f'{ob.cls.name} instance has no attribute {name}')
            return App('bm', o, name)
        if isapp(o, 'tuple') or isapp(o, 'frozenset') or isconst(o):
            return App('bm', o, name)
        # symbolic
        if (o, name) in self.st.sattr:
            return self.st.sattr[(o, name)]
        ci = self.classof(o)
        if ci is not None:
            if name == '__class__':
                return App('classofterm', o, ClassV(ci)) if not self.exactcls(o) else ClassV(ci)
            v, c = ci.lookup(name)
            if isinstance(v, FuncV):
                if v.kind == 'property':
                    return self.call(v, [o], {})
                return self.bind(v, o)
            if v is not None and not isinstance(v, FuncV) and not self.slotattr(ci, name):
                return self.force(self.st.sattr.get((ClassV(c), name), v))
        base = o
        if o in self.st.ver:
            base = App('at', o, self.st.ver[o])
        t = App('attr', base, name)
        if t in self.alias:
            return self.alias[t]
        if ci is not None and name in ci.attrtypes and t not in self.clsof:
            m = self.repo.mods.get(ci.mod)
            k = self.annclass(ci.attrtypes[name], m.frame) if m else None
            if k is not None:
                self.clsof[t] = k
        return t

    alias = {}
    exact = ()

    def exactcls(self, o):
        return o in self.exact

    def slotattr(self, ci, name):
        """ is name assigned on instances? """
        import ast as a
        for c in ci.mro():
            if c.node is None:
                continue
            for n in a.walk(c.node):
                if isinstance(n, a.Attribute) and isinstance(n.ctx, a.Store) and n.attr == name and isinstance(n.value, a.Name) and n.value.id == 'self':
                    return True
        return False

    def setattr(self, o, name, v):
        o = self.force(o)
        self.ev('setattr', obj=o, name=name, value=v)
        if isinstance(o, Ref):
            ob = self.get(o)
            a = dict(ob.attrs or {})
            a[name] = v
            self.set(o, ob.with_(attrs=a))
            return
        if isinstance(o, ClassV):
            _, c = o.info.lookup(name)
            self.st.sattr[(ClassV(c) if c else o, name)] = v
            return
        if isinstance(o, ModV):
            m = self.repo.mods.get(o.name)
            if m:
                self.setlocal(m.frame, name, v)
            return
        self.st.sattr[(o, name)] = v

    # ------------------------------------------------------------ items

    def content(self, t):
        from .engine import segrest
        return self.st.cont.get(t, (segrest(t),))

    def rawgetitem(self, d, k):
        t = App('getitem', d, k)
        if d in self.clsof:
            pass
        ec = self.itemcls.get(d)
        if ec is not None:
            self.clsof[t] = ec
        return t

    itemcls = {}

    def getitem(self, o, k):
        o = self.force(o)
        k = self.freeze(k)
        st = self.step(o)
        if st is not None and isconst(k) and k.v in (0, 1, -1, -2):
            return st[k.v]
        if isinstance(o, Ref):
            ob = self.get(o)
            if ob.kind == 'dict':
                return self.dictget(o, ob, k)
            if ob.kind in ('list', 'gen', 'set'):
                return self.seqget(ob.segs, k, o)
            if ob.kind == 'inst' and '_children' in ob.attrs:
                return self.getitem(ob.attrs['_children'], k)
            if ob.kind == 'inst':
                f, _ = ob.cls.lookup('__getitem__')
                if f is not None:
                    return self.call(self.bind(f, o), [k], {})
        if isapp(o, 'tuple'):
            return self.seqget([App('one', x) for x in o.args], k, o)
        if isapp(o, 'nt'):
            return self.seqget([App('one', x) for x in o.args[1:]], k, o)
        if isapp(o, 'frozenset') and k == Const(0) and len(o.args) == 1:
            return o.args[0]
        if o.__class__ is App and o.op in ('tupleof', 'listof', 'seq', 'fsetof'):
            return self.seqget(o.args, k, o)
        if isapp(o, 'dictof'):
            return self.dictlookup(o.args, k, o)
        if isinstance(o, Ext) and o.name in PALETTES and isconst(k):
            lo, hi = PALETTES[o.name]
            if k.v not in range(lo, hi + 1):
                raise self.err('KeyError')
            return App('tuple', *[Sym(f'{o.name}[{k.v}][{i}]', 'str') for i in range(k.v)])
        if isconst(o) and isconst(k):
            try:
                return Const(o.v[k.v])
            except (IndexError, KeyError):
                raise self.err('IndexError' if not isinstance(o.v, dict) else 'KeyError')
            except TypeError:
                raise self.err('TypeError')
            except Exception:
                return self.unknown('subscript of constant')
        if isinstance(o, ClassV):
            if o.info.kind == 'enum' and isconst(k):
                v = o.info.attrs.get(k.v)
                if v is not None:
                    return v
                raise self.err('KeyError')
            return App('generic', o)
        if isinstance(o, Ext):
            return App('generic', o)     # typing subscripts
        if o in self.st.cont:
            segs = self.st.cont[o]
            kvs = [App('one', App('tuple', *s.args[0].args)) if s.op == 'one' and isapp(s.args[0], 'kv') else s for s in segs]
            if any(s.op == 'one' and isapp(s.args[0], 'kv') for s in segs):
                return self.dictlookup(tuple(kvs), k, App('seq', *segs), rest=o)
            return self.seqget(segs, k, App('seq', *segs))
        ci = self.classof(o)
        if ci is not None:
            f, _ = ci.lookup('__getitem__')
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            if ci.kind == 'namedtuple' and isconst(k) and isinstance(k.v, int) and k.v < len(ci.fields):
                return self.getattr(o, ci.fields[k.v])
        return self.symget(o, k)

    def symget(self, o, k):
        # x[i] for the generic index of x is the generic element of x
        if isapp(k, 'idx') and k.args[0] == o:
            e = App('elem', o, k.args[1])
            return e
        t = App('getitem', o, k)
        if t in self.alias:
            return self.alias[t]
        if not (isapp(k, 'elem') and k.args[0] == o):
            self.mayraise(t, ['KeyError', 'IndexError'])
        if o in self.itemcls:
            self.clsof[t] = self.itemcls[o]
        return t

    def err(self, name):
        from .engine import Raised
        return Raised(Ext(name), implicit=True)

    def seqget(self, segs, k, whole):
        if isapp(k, 'sl'):
            return self.getslice(whole, k)
        if isconst(k) and isinstance(k.v, int):
            n = k.v
            if n >= 0:
                i = 0
                for s in segs:
                    if s.op == 'one':
                        if i == n:
                            return s.args[0]
                        i += 1
                        continue
                    if s.op == 'rest' and i == 0 and len(segs) == 1:
                        return self.symget(s.args[0], k)
                    return App('getitem', self.freezewhole(whole, segs), k)
                raise self.err('IndexError')
            i = -1
            for s in reversed(segs):
                if s.op == 'one':
                    if i == n:
                        return s.args[0]
                    i -= 1
                    continue
                if s.op == 'rest' and len(segs) == 1:
                    return self.symget(s.args[0], k)
                return App('getitem', self.freezewhole(whole, segs), k)
            raise self.err('IndexError')
        if isinstance(k, Enum) and isinstance(k.value, int):
            return self.seqget(segs, Const(k.value), whole)
        if len(segs) == 1 and segs[0].op == 'rest':
            return self.symget(segs[0].args[0], k)
        if len(segs) == 1 and segs[0].op == 'star' and isapp(k, 'idx') and self.unorder(segs[0].args[0]) == k.args[0]:
            alts = segs[0].args[1]
            if len(alts) == 1 and not alts[0].args[0] and len(alts[0].args[1]) == 1 and alts[0].args[1][0].op == 'one':
                return alts[0].args[1][0].args[0]
        w = self.freezewhole(whole, segs)
        return self.symget(w, k) if not isinstance(w, Ref) else App('getitem', w, k)

    def freezewhole(self, whole, segs):
        if isinstance(whole, Ref):
            if whole.id in self.base and whole.id not in self.st.heap:
                return whole
            return self.freeze(whole)
        return whole

    def dictget(self, r, ob, k):
        v = self.dictlookup(ob.segs, k, r, default=ob.default, ref=r)
        return v

    MISSING = App('missing')

    def dictfind(self, segs, k):
        """ value term, MISSING, or None when undetermined """
        for s in reversed(segs):
            if s.op == 'one':
                kk, v = s.args[0].args
                kk = self.freeze(kk)
                if kk == k:
                    return v
                e = self.distinct(kk, k)
                if e:
                    continue
                return None
            if s.op == 'star':
                src, alts = s.args
                if len(alts) == 1 and not alts[0].args[0] and len(alts[0].args[1]) == 1 and alts[0].args[1][0].op == 'one':
                    kk, v = alts[0].args[1][0].args[0].args[0:2] if isapp(alts[0].args[1][0].args[0], 'tuple') and len(alts[0].args[1][0].args[0].args) == 2 else (None, None)
                    if kk is not None and kk == k:
                        return v
                    u = self.unorder(src)
                    b = App('elem', u, 0)
                    if kk == b:
                        return subst(v, {b: k})
                return None
            return None
        return self.MISSING

    def distinct(self, a, b):
        """ provably different keys """
        r = eq(a, b)
        if r == FALSE:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b and a.id in self.interned and b.id in self.interned:
            return True
        if isapp(a, 'frozenset') and isapp(b, 'frozenset'):
            at = lambda x: isinstance(x, (Const, Enum)) or isinstance(x, Ref) and x.id in self.interned
            if all(at(x) for x in a.args + b.args) and set(a.args) != set(b.args):
                return True
        if isapp(a, 'tuple') and isapp(b, 'tuple') and len(a.args) != len(b.args):
            return True
        if isapp(a, 'tuple') and isapp(b, 'tuple') and len(a.args) == len(b.args):
            return any(self.distinct(x, y) for x, y in zip(a.args, b.args))
        if isinstance(r, App) and self.levels:
            k = self.implied(r)
            return k is False
        return False

    def dictlookup(self, segs, k, whole, default=None, ref=None, rest=None):
        v = self.dictfind(segs, k)
        if v is None:
            if len(segs) and segs[0].op == 'rest' and all(s.op == 'one' and self.distinct(self.freeze(s.args[0].args[0]), k) for s in segs[1:]):
                t = segs[0].args[0]
                t = t.args[0] if isapp(t, 'items') else t
                if default is not None:
                    t = App('getitem', t, k)
                    self.inserted(ref, k, t)
                    return t
                return self.symget(t, k)
            w = whole
            if isinstance(w, Ref) and not (w.id in self.base and w.id not in self.st.heap):
                w = self.freeze(w)
            t = App('getitem', w, k)
            if default is None:
                self.mayraise(t, ['KeyError'])
            else:
                self.inserted(ref, k, t)
            return t
        if v == self.MISSING:
            if default is not None and ref is not None:
                dv = self.call(default, [], {})
                self.inserted(ref, k, dv)
                return dv
            raise self.err('KeyError')
        return v

    def inserted(self, r, k, v):
        """ reading a missing key of a defaultdict adds it; a Counter stays as it is """
        if isinstance(r, Ref) and self.get(r).cls != 'Counter':
            self.dictput(r, k, v)

    def dictput(self, r, k, v):
        k = self.freeze(k)
        o = self.get(r)
        segs = list(o.segs)
        e = App('one', App('tuple', k, v))
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s.op == 'one':
                kk = s.args[0].args[0]
                if kk == k or self.freeze(kk) == k:
                    segs[i] = e
                    self.set(r, o.with_(segs=segs))
                    return
                if self.loading or self.distinct(self.freeze(kk), k):
                    continue
            break
        segs.append(e)
        self.set(r, o.with_(segs=segs))

    def setitem(self, o, k, v):
        o = self.force(o)
        k = self.freeze(k)
        old = None
        self.ev('setitem', obj=o, key=k, value=v)
        if isinstance(o, Ref):
            ob = self.get(o)
            if ob.kind == 'dict':
                return self.dictput(o, k, v)
            if ob.kind == 'list':
                if isconst(k) and isinstance(k.v, int) and all(s.op == 'one' for s in ob.segs):
                    segs = list(ob.segs)
                    try:
                        segs[k.v] = App('one', v)
                    except IndexError:
                        raise self.err('IndexError')
                    self.set(o, ob.with_(segs=segs))
                    return
                self.set(o, ob.with_(segs=(App('rest', App('storeat', App('seq', *ob.segs), k, self.freeze(v))),)))
                return
            if ob.kind == 'inst':
                f, _ = ob.cls.lookup('__setitem__')
                if f is not None:
                    self.call(self.bind(f, o), [k, v], {})
                    return
        ci = self.classof(o)
        if ci is not None and ci.lookup('__setitem__')[0] is not None:
            self.call(self.bind(ci.lookup('__setitem__')[0], o), [k, v], {})
            return
        segs = list(self.content(o))
        e = App('one', App('kv', k, v))
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s.op == 'one' and isapp(s.args[0], 'kv'):
                if s.args[0].args[0] == k:
                    segs[i] = e
                    break
                if self.distinct(s.args[0].args[0], k):
                    continue
            segs.append(e)
            break
        else:
            segs.append(e)
        self.st.cont[o] = tuple(segs)

    def delitem(self, o, k):
        k = self.freeze(k)
        self.ev('delitem', obj=o, key=k)
        if isinstance(o, Ref):
            ob = self.get(o)
            if ob.kind == 'dict':
                v = self.dictfind(ob.segs, k)
                if v == self.MISSING:
                    raise self.err('KeyError')
                if v is not None and all(s.op == 'one' for s in ob.segs):
                    self.set(o, ob.with_(segs=[s for s in ob.segs if self.freeze(s.args[0].args[0]) != k]))
                    return
            if ob.kind == 'list' and isconst(k) and isinstance(k.v, int) and all(s.op == 'one' for s in ob.segs):
                segs = list(ob.segs)
                del segs[k.v]
                self.set(o, ob.with_(segs=segs))
                return
            if ob.kind == 'list' and isapp(k, 'sl'):
                items = [s for s in ob.segs]
                if all(s.op == 'one' for s in items) and all(isconst(x) for x in k.args):
                    del items[slice(*[x.v for x in k.args])]
                    self.set(o, ob.with_(segs=items))
                    return
            self.set(o, ob.with_(segs=(App('rest', App('without', App('seq', *ob.segs), k)),)))
            return
        self.mayraise(App('getitem', o, k), ['KeyError', 'IndexError'])
        self.st.cont[o] = (App('rest', App('without', App('seq', *self.content(o)), k)),)

    def slice_assign(self, o, sl, v):
        self.ev('setslice', obj=o, key=sl, value=v)
        if isinstance(o, Ref):
            ob = self.get(o)
            if sl.args == (NONE, NONE, NONE):
                self.set(o, ob.with_(segs=self.segments(v)))
                return
            items = self.concrete(v)
            if items is not None and all(s.op == 'one' for s in ob.segs) and all(isconst(x) for x in sl.args):
                segs = list(ob.segs)
                segs[slice(*[x.v for x in sl.args])] = [App('one', x) for x in items]
                self.set(o, ob.with_(segs=segs))
                return
            self.set(o, ob.with_(segs=(App('rest', self.unknown('slice assignment')),)))
        else:
            if sl.args == (NONE, NONE, NONE):
                self.st.cont[o] = self.segments(v)
            else:
                self.st.cont[o] = (App('rest', self.unknown('slice assignment')),)

    def getslice(self, o, sl):
        o = self.force(o)
        lo, hi, st = sl.args
        if isconst(o) and all(isconst(x) for x in sl.args):
            try:
                return Const(o.v[slice(lo.v, hi.v, st.v)])
            except Exception:
                return self.unknown('slice')
        segs = None
        if isinstance(o, Ref):
            segs = self.get(o).segs
        elif isapp(o, 'tuple'):
            segs = [App('one', x) for x in o.args]
        elif o in self.st.cont:
            segs = self.st.cont[o]
        elif isapp(o, 'seq') or isapp(o, 'listof'):
            segs = o.args
        if segs is not None and all(s.op == 'one' for s in segs) and all(isconst(x) for x in sl.args):
            r = list(segs)[slice(lo.v, hi.v, st.v)]
            if isapp(o, 'tuple'):
                return App('tuple', *[x.args[0] for x in r])
            return self.mklist(r)
        if segs is not None:
            segs = tuple(segs)
            if lo in (NONE, Const(0)) and hi == NONE and st == NONE:
                return self.mklist(segs)
            # dropping a known prefix
            if st == NONE and hi == NONE and isconst(lo) and lo.v >= 0 and all(s.op == 'one' for s in segs[:lo.v]) and len(segs) >= lo.v:
                return self.mklist(segs[lo.v:])
            if st == NONE and lo in (NONE, Const(0)) and isconst(hi) and isinstance(hi.v, int) and hi.v >= 0 and all(s.op == 'one' for s in segs[:hi.v]) and len(segs) >= hi.v:
                return self.mklist(segs[:hi.v])
            t = App('slice', self.freeze(o) if isinstance(o, Ref) else App('seq', *segs), NONE if lo == Const(0) else lo, hi, st)
            return self.mklist([App('rest', t)])
        if lo == Const(0):
            lo = NONE
        # x[:len(x)-n] etc. stay symbolic; x[:] is x for immutable strings
        if lo == NONE and hi == NONE and st == NONE and typ(o) == 'str':
            return o
        return App('slice', self.freeze(o), self.freeze(lo), self.freeze(hi), st)

    def extend(self, r, v):
        segs = self.segments(v)
        self.ev('extend', obj=r, segs=segs)
        if isinstance(r, Ref):
            o = self.get(r)
            if o.kind == 'set':
                segs = self.nodup([*o.segs, *segs])[len(o.segs):]
            self.set(r, self.trimmed(o, o.segs + tuple(segs)))
        else:
            self.st.cont[r] = self.content(r) + tuple(segs)

    def trimmed(self, o, segs):
        segs = tuple(segs)
        if o.maxlen is not None and isconst(o.maxlen) and all(s.op == 'one' for s in segs):
            segs = segs[-o.maxlen.v:] if o.maxlen.v else ()
        return o.with_(segs=segs)

    # ------------------------------------------------------------ operators

    def binop(self, op, a, b):
        n = type(op).__name__
        a, b = self.force(a), self.force(b)
        if n == 'Add':
            for x in (a, b):
                if isinstance(x, Ref) and self.get(x).kind in ('dict', 'set'):
                    raise self.err('TypeError')
                if isinstance(x, Ref) and self.get(x).kind in ('list', 'gen') or (x in self.st.cont):
                    return self.mklist(self.segments(a) + self.segments(b))
            return add(a, b)
        if n == 'Mod' and (typ(a) == 'str'):
            return self.pct(a, b)
        if n == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and self.get(x).kind == 'list':
                    if isconst(y) and isinstance(y.v, int) and y.v <= 4096:
                        return self.mklist(self.get(x).segs * y.v)
                    return self.mklist([App('rest', App('repeat', self.freeze(x), y))])
                if isapp(x, 'tuple') and isconst(y) and isinstance(y.v, int):
                    return App('tuple', *(x.args * y.v))
        if isapp(a, 'frozenset') and isinstance(b, Ref) and self.get(b).kind == 'set' and n in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return self.setop(n, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            ka = self.get(a).kind if isinstance(a, Ref) else None
            if ka == 'set' or ka == 'dict':
                return self.setop(n, a, b)
            if ka == 'inst':
                m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'BitOr': '__or__', 'BitAnd': '__and__'}.get(n)
                f, _ = self.get(a).cls.lookup(m) if m else (None, None)
                if f is not None:
                    return self.call(self.bind(f, a), [b], {})
            a, b = self.freeze(a), self.freeze(b)
        if isapp(a, 'frozenset') or isapp(b, 'frozenset'):
            return self.setop(n, a, b)
        if isconst(a) and isconst(b):
            f = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod,
                 'Pow': _op.pow, 'LShift': _op.lshift, 'RShift': _op.rshift, 'BitOr': _op.or_, 'BitAnd': _op.and_, 'BitXor': _op.xor}.get(n)
            try:
                r = f(a.v, b.v)
                if isinstance(r, (int, float, str, bytes, tuple, bool)) and (not isinstance(r, int) or abs(r) < 1 << 70):
                    return Const(r)
            except ZeroDivisionError:
                raise self.err('ZeroDivisionError')
            except Exception:
                pass
        if isinstance(a, Enum) and isinstance(a.value, int):
            return self.binop(op, Const(a.value), b)
        if isinstance(b, Enum) and isinstance(b.value, int):
            return self.binop(op, a, Const(b.value))
        if n == 'Sub':
            if typ(a) in ('set', 'frozenset'):
                return App('setdiff', a, b)
            return sub(a, b)
        if n == 'Mult':
            return mul(a, b)
        if n == 'Div':
            if contains(a, lambda x: isinstance(x, Ext)):
                return App('truediv', a, b)
            return div(a, b)
        if n == 'LShift' and isconst(b) and isinstance(b.v, int):
            return mul(a, Const(1 << b.v))
        opn = {'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'BitOr': 'bitor', 'BitAnd': 'bitand', 'BitXor': 'bitxor', 'MatMult': 'matmul'}[n]
        if opn in ('bitor', 'bitand', 'bitxor'):
            args = []
            for x in (a, b):
                args.extend(x.args if isapp(x, opn) else (x,))
            return App(opn, *sorted(args, key=repr))
        return App(opn, a, b)

    def setop(self, n, a, b):
        r = self.setop_(n, a, b)
        if isapp(a, 'frozenset') and isinstance(r, Ref) and self.get(r).kind == 'set':
            return self.b_frozenset([r], {})
        return r

    def setop_(self, n, a, b):
        if n == 'BitOr':
            if isinstance(a, Ref) and self.get(a).kind == 'dict':
                return self.mkdict(self.dictsegs(a) + self.dictsegs(b))
            r = self.mklist((), 'set')
            self.extend(r, a)
            self.extend(r, b)
            return r
        name = {'BitAnd': 'intersection', 'Sub': 'setdiff', 'BitXor': 'symdiff'}.get(n, n)
        ia, ib = self.concrete(a), self.concrete(b)
        if ia is not None and ib is not None and all(isinstance(x, (Const, Enum)) for x in ia + ib):
            if name == 'intersection':
                return self.mklist([App('one', x) for x in ia if x in ib], 'set')
            if name == 'setdiff':
                return self.mklist([App('one', x) for x in ia if x not in ib], 'set')
            if name == 'symdiff':
                return self.mklist([App('one', x) for x in ia if x not in ib] + [App('one', x) for x in ib if x not in ia], 'set')
        return App(name, self.freeze(a), self.freeze(b))

    def pct(self, a, b):
        if isconst(a) and isinstance(a.v, str):
            args = list(b.args) if isapp(b, 'tuple') else [b]
            out, i, s = [], 0, a.v
            import re
            pos = 0
            for m in re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[sdrxXif])', s):
                out.append(Const(s[pos:m.start()]))
                pos = m.end()
                sp = m.group(1)
                if sp == '%':
                    out.append(Const('%'))
                    continue
                if i >= len(args):
                    return App('pct', a, self.freeze(b))
                v = args[i]
                i += 1
                if sp == 's':
                    out.append(self.format(v, '', ''))
                elif sp == 'r':
                    out.append(self.format(v, '', 'r'))
                elif sp in ('d', 'i'):
                    out.append(self.format(v, '', ''))
                else:
                    out.append(self.format(v, sp.replace('#', '#'), ''))
            out.append(Const(s[pos:]))
            return concat(*out)
        return App('pct', a, self.freeze(b))

    # ------------------------------------------------------------ calls

    def super_(self, fr):
        if not self.callstack or not hasattr(self, 'selfstack') or not self.selfstack:
            return self.unknown('super() outside method')
        f, s = self.selfstack[-1]
        if f.cls is None:
            return self.unknown('super() outside class')
        return App('super', ClassV(f.cls), s)

    def findmethod(self, obj, name):
        obj = self.force(obj)
        ci = self.classof(obj)
        if ci is None:
            return None
        f, _ = ci.lookup(name)
        return self.bind(f, obj) if f is not None else None

    def call(self, f, args, kwargs):
        f = self.force(f)
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + args, kwargs)
        if isinstance(f, FuncV):
            return self.callfunc(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.callext(f.name, args, kwargs)
        if isapp(f, 'bm'):
            return self.method(f.args[0], f.args[1], args, kwargs)
        if isapp(f, 'partial'):
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + args, kw)
        if isapp(f, 'itemgetter'):
            r = [self.getitem(args[0], k) for k in f.args]
            return r[0] if len(r) == 1 else App('tuple', *r)
        if isapp(f, 'attrgetter'):
            r = []
            for k in f.args:
                v = args[0]
                for part in k.v.split('.'):
                    v = self.getattr(v, part)
                r.append(v)
            return r[0] if len(r) == 1 else App('tuple', *r)
        if isapp(f, 'methodcaller'):
            return self.call(self.getattr(args[0], f.args[0].v), list(f.args[1:]), {})
        if isapp(f, 'extattr'):
            b, name, cls = f.args
            return self.opaquecall(App('attr', b, name), f'{b.name}.{name}', args, kwargs)
        if isapp(f, 'classofterm'):
            return self.instantiate(f.args[1], args, kwargs)
        if isinstance(f, Ref) and self.get(f).kind == 'inst':
            m, _ = self.get(f).cls.lookup('__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kwargs)
        ci = self.classof(f)
        if ci is not None:
            m, _ = ci.lookup('__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kwargs)
        if isapp(f, 'attr'):
            recv, name = f.args
            if isapp(recv, 'at'):
                recv = recv.args[0]
            return self.method(recv, name, args, kwargs, attr=f)
        # call of an unknown function value
        fargs = tuple(self.freeze(a) for a in args)
        if f in self.purefuncs:
            t = App('apply', f, fargs)
            return t
        t = App('call', f, fargs, self.tag(self.count('call')))
        self.ev('callv', func=f, args=tuple(args), kwargs=tuple(kwargs.items()), result=t)
        self.mayraise(t)
        return t

    purefuncs = ()

    def isgen(self, node):
        c = getattr(node, '_isgen', None)
        if c is None:
            c = False
            if not isinstance(node, ast.Lambda):
                stack = list(node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                        continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        c = True
                        break
                    stack.extend(ast.iter_child_nodes(n))
            node._isgen = c
        return c

    def bindparams(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        attrs = {}
        if any(isapp(x, 'starargs') for x in args):
            # f(*xs) with symbolic xs
            i = next(i for i, x in enumerate(args) if isapp(x, 'starargs'))
            xs = args[i].args[0]
            if len(args) == i + 1:
                if a.vararg and len(names) <= i:
                    pass
                else:
                    need = len(names) - i
                    args = args[:i] + [self.getitem(xs, Const(j)) for j in range(need)]
        pos = args[:len(names)]
        for n, v in zip(names, pos):
            attrs[n] = v
        extra = args[len(names):]
        if a.vararg:
            if all(not isapp(x, 'starargs') for x in extra):
                attrs[a.vararg.arg] = App('tuple', *extra)
            elif len(extra) == 1:
                attrs[a.vararg.arg] = extra[0].args[0]
            else:
                attrs[a.vararg.arg] = self.unknown('varargs')
        elif extra:
            raise self.err('TypeError')
        kw = dict(kwargs)
        star = kw.pop('**', None)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in attrs:
                    raise self.err('TypeError')
                attrs[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise self.err('TypeError')
        if a.kwarg:
            attrs[a.kwarg.arg] = self.mkdict([App('one', App('tuple', Const(k), v)) for k, v in rest.items()] + (list(self.dictsegs(star)) if star is not None else []))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in attrs:
                if star is not None:
                    attrs[n] = self.getitem(star, Const(n))
                    continue
                j = i - (len(names) - nd)
                if j >= 0:
                    attrs[n] = f.defaults[j]
                else:
                    raise self.err('TypeError')
        kd = dict(f.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg not in attrs:
                if x.arg in kd:
                    attrs[x.arg] = kd[x.arg]
                else:
                    raise self.err('TypeError')
        # declared parameter classes
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = attrs.get(x.arg)
            if x.annotation is not None and isinstance(v, (Sym, App)) and self.classof(v) is None and not isapp(v, 'tuple'):
                m = self.repo.mods.get(f.mod)
                c = self.annclass(x.annotation, f.frame)
                if c is not None and c.kind != 'enum':
                    self.clsof[v] = c
        return attrs

    def callfunc(self, f, args, kwargs):
        from .engine import Obj, ReturnSig
        q = f.qual
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        name = getattr(f.node, 'name', '<lambda>')
        if q in self.opaque or (self.callstack.count(q) >= (self.recursive_ok.get(q, 2) if isinstance(self.recursive_ok, dict) else 2) and name != '<lambda>') or len(self.callstack) > self.depthlimit:
            return self.opaquefunc(f, args, kwargs)
        if self.callstack.count(q) == 1 and name != '<lambda>' and q not in self.recursive_ok:
            return self.opaquefunc(f, args, kwargs)
        attrs = self.bindparams(f, args, kwargs)
        self.functions.add(q)
        fr = self.new(Obj('frame', attrs=attrs, parent=f.frame))
        saved = (self.curmod, self.line, getattr(self, 'curclass', None))
        hdepth = len(self.handlers)
        if not hasattr(self, 'selfstack'):
            self.selfstack = []
        a = f.node.args
        first = (a.posonlyargs + a.args)
        sv = attrs.get(first[0].arg) if first else NONE
        self.ev('pcall', qual=q, args=tuple(args), kwargs=tuple(kwargs.items()))
        self.callstack.append(q)
        self.selfstack.append((f, sv))
        self.curmod = f.mod
        self.curclass = None
        gen = self.isgen(f.node)
        g = None
        nsel, ncs, ngen = len(self.selfstack), len(self.callstack), len(self.genstack)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, fr)
            if gen:
                g = self.new(Obj('gen', segs=()))
                self.genstack.append(g)
            try:
                self.block(f.node.body, fr)
                rv = NONE
            except ReturnSig as e:
                rv = e.v
            if gen:
                return g
            c = self.annclass(f.node.returns, f.frame) if getattr(f.node, 'returns', None) is not None else None
            if c is not None and isinstance(rv, (Sym, App)) and self.classof(rv) is None and c.kind == 'class':
                self.clsof[rv] = c
            return rv
        finally:
            del self.genstack[ngen:]
            del self.callstack[ncs - 1:]
            del self.selfstack[nsel - 1:]
            self.curmod, self.line, self.curclass = saved

    recursive_ok = ()

    def opaquefunc(self, f, args, kwargs):
        q = f.qual
        try:
            attrs = self.bindparams(f, args, kwargs)
            names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
            fargs = tuple(self.freeze(attrs[n]) for n in names if n in attrs)
        except Exception as e:
            if e.__class__.__name__ == 'Raised':
                raise
            fargs = tuple(self.freeze(a) for a in args)
        if q in self.pure:
            t = App('call', q, fargs, NONE)
        else:
            t = App('call', q, fargs, self.tag(self.count('call')))
            if fargs and f.cls is not None and f.kind == '':
                self.bump(fargs[0])
        if t not in self.clsof and getattr(f.node, 'returns', None) is not None:
            c = self.annclass(f.node.returns, f.frame)
            if c is not None and c.kind == 'class':
                self.clsof[t] = c
        self.ev('ocall', qual=q, args=fargs, raw=tuple(args), result=t)
        self.mayraise(t)
        return t

    def bump(self, t):
        """ the object may have changed: later attribute reads are different values """
        if isinstance(t, (Sym, App)) and not isapp(t, 'tuple'):
            self.st.ver[t] = add(self.st.ver.get(t, Const(0)), Const(1))

    def instantiate(self, c, args, kwargs):
        from .engine import Obj, Raised
        info = c.info
        h = self.hooks.get(info.qual)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if info.kind == 'enum':
            if info.members:
                v = args[0]
                if isinstance(v, Enum) and v in info.members:
                    return v
                if isconst(v):
                    for m in info.members:
                        if m.value == v.v:
                            return m
                    raise self.err('ValueError')
                return App('enumof', c, v)
            # functional API
            name = args[0].v if args and isconst(args[0]) else '?'
            items = self.dictitems(args[1]) if len(args) > 1 else None
            if items is None and len(args) > 1:
                conc = self.concrete(args[1])
                if conc is not None:
                    pairs = [self.concrete(x) for x in conc]
                    if all(p and len(p) == 2 for p in pairs):
                        items = [tuple(p) for p in pairs]
                    elif all(isconst(x) for x in conc):
                        items = [(x, Const(i + 1)) for i, x in enumerate(conc)]
            if items is not None and all(isconst(k) and isconst(v) for k, v in items):
                return self.mkenum(c, name, [(k.v, v.v) for k, v in items])
            return self.unknown('functional enum')
        if info.kind == 'namedtuple':
            vals = list(args)
            if any(isapp(a, 'starargs') for a in vals):
                xs = vals[0].args[0]
                vals = [self.getitem(xs, Const(j)) for j in range(len(info.fields))]
            for f in info.fields[len(vals):]:
                if f in kwargs:
                    vals.append(kwargs[f])
                else:
                    i = info.fields.index(f) - (len(info.fields) - len(info.defaults))
                    if i >= 0 and info.defaults:
                        vals.append(info.defaults[i])
                    else:
                        raise self.err('TypeError')
            if len(vals) != len(info.fields) or any(k not in info.fields for k in kwargs):
                raise self.err('TypeError')
            return App('nt', c, *vals)
        if info.qual in self.opaque:
            fargs = tuple(self.freeze(a) for a in args) + tuple(App('kw', k, self.freeze(v)) for k, v in kwargs.items())
            t = App('call', info.qual, fargs, NONE if info.qual in self.pure else self.tag(self.count('call')))
            self.clsof[t] = info
            self.ev('ocall', qual=info.qual, args=fargs, raw=tuple(args), result=t)
            self.mayraise(t)
            return t
        r = self.new(Obj('inst', cls=info, attrs={}))
        init, _ = info.lookup('__init__')
        self.ev('new', cls=info, args=tuple(args), kwargs=tuple(kwargs.items()), result=r)
        if init is not None:
            self.call(self.bind(init, r), args, kwargs)
        elif args or kwargs:
            if not info.extbases():
                raise self.err('TypeError')
            self.setattr(r, 'args', App('tuple', *args))
        return r

    exthooks = {}
    interned = frozenset()      # objects known to be pairwise unequal
    enumattr = None             # attributes of atoms, given by a check

    def opaquecall(self, fterm, name, args, kwargs, pure=False):
        h = self.exthooks.get(name)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        fargs = tuple(self.freeze(a) for a in args) + tuple(App('kw', k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        if pure:
            t = App('call', name, fargs, NONE)
            if any(h for h in self.handlers):
                self.mayraise(t)
            return t
        t = App('call', name, fargs, self.tag(self.count('call')))
        self.ev('call', name=name, args=tuple(args), kwargs=dict(kwargs), fargs=fargs, result=t)
        self.mayraise(t)
        return t

    # ------------------------------------------------------------ methods

    def method(self, recv, name, args, kwargs, attr=None):
        recv = self.force(recv)
        if isinstance(recv, Ref):
            o = self.get(recv)
            if o.kind in ('list', 'set', 'gen', 'dict'):
                return self.contmethod(recv, o.kind, name, args, kwargs)
            if o.kind == 'inst':
                return self.opaquemethod(recv, name, args, kwargs)
        if isconst(recv) or typ(recv) in ('str', 'bytes'):
            return self.strmethod(recv, name, args, kwargs)
        if isapp(recv, 'repat'):
            r = self.rematch(recv.args[0], recv.args[1], name, args, kwargs)
            if r is not None:
                return r
            return self.opaquemethod(recv, name, args, kwargs)
        if isinstance(recv, Enum):
            return self.strmethod(Const(recv.value), name, args, kwargs)
        if isapp(recv, 'frozenset') or isapp(recv, 'tuple'):
            return self.purecont(recv, name, args, kwargs)
        if isapp(recv, 'nt'):
            info = recv.args[0].info
            if name == '_replace':
                vals = list(recv.args[1:])
                for k, v in kwargs.items():
                    vals[info.fields.index(k)] = v
                return App('nt', recv.args[0], *vals)
            if name == '_asdict':
                return self.mkdict([App('one', App('tuple', Const(f), v)) for f, v in zip(info.fields, recv.args[1:])])
        if name == '_replace' and kwargs and not args and not isinstance(recv, (Const, Ref)):
            # only named tuples have it
            cs = [c for c in self.classes.values() if c.kind == 'namedtuple' and set(kwargs) <= set(c.fields)]
            if len(cs) == 1:
                return App('nt', ClassV(cs[0]), *[kwargs[f] if f in kwargs else self.getattr(recv, f) for f in cs[0].fields])
        if isinstance(recv, ClassV):
            if name == '_make':
                return self.instantiate(recv, self.concrete(args[0]) or [App('starargs', args[0])], {})
        if recv in self.st.cont and name in BUILTINMETH:
            return self.contmethod(recv, 'sym', name, args, kwargs)
        ci = self.classof(recv)
        if ci is not None:
            f, _ = ci.lookup(name)
            if f is not None:
                return self.call(self.bind(f, recv), args, kwargs)
        if recv in self.external:
            return self.opaquemethod(recv, name, args, kwargs)
        if name in ARITY and not (ARITY[name][0] <= len(args) <= ARITY[name][1]) or name in ARITY and set(kwargs) - ARITY[name][2]:
            return self.opaquemethod(recv, name, args, kwargs)
        cands = self.methods.get(name, [])
        if name in BUILTINMETH and (not cands or name in self.preferbuiltin):
            return self.contmethod(recv, 'sym', name, args, kwargs)
        if name in self.nocha:
            cands = []
        if ci is None and self.inline_unique and len(cands) >= 1 and isinstance(recv, (Sym, App)) and not isapp(recv, 'call') or \
                (ci is None and self.inline_unique and len(cands) == 1 and isapp(recv, 'call') and not self.islib(recv)):
            # class-hierarchy resolution: the only class with such a method
            roots = {id(c) for c, _ in cands}
            top = [c for c, _ in cands if all(o.subclassof(c) for o, _ in cands)]
            if len(cands) == 1 or (top and False):
                c, f = cands[0]
                if recv not in self.clsof and self.paramcount_ok(f, args, kwargs):
                    self.clsof[recv] = c
                    if isinstance(f, FuncV) and f.kind != 'property':
                        return self.call(self.bind(f, recv), args, kwargs)
        if name in BUILTINMETH:
            return self.contmethod(recv, 'sym', name, args, kwargs)
        return self.opaquemethod(recv, name, args, kwargs)

    external = frozenset()
    nocha = {'read', 'close', 'seekable', 'write', 'run', 'start', 'join', 'put', 'process', 'render', 'serialize', 'press', 'type', 'mutate'}
    preferbuiltin = {'items', 'values', 'get', 'append', 'copy', 'update', 'add', 'pop', 'index', 'extend', 'setdefault', 'keys', 'clear'}

    def islib(self, t):
        return isinstance(t.args[0], str) and not t.args[0].startswith('lulua.')

    def paramcount_ok(self, f, args, kwargs):
        if not isinstance(f, FuncV):
            return False
        a = f.node.args
        n = len(a.posonlyargs + a.args) - (0 if f.kind == 'staticmethod' else 1)
        return len(args) <= n or a.vararg is not None

    PUREMETHODS = {'read', 'is_finished'} & set()

    methodhooks = {}

    def opaquemethod(self, recv, name, args, kwargs):
        h = self.methodhooks.get(name)
        if h is not None:
            r = h(self, recv, args, kwargs)
            if r is not NotImplemented:
                return r
        fargs = tuple(self.freeze(a) for a in args) + tuple(App('kw', k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        fr = self.freeze(recv)
        if name in self.puremethods:
            t = App('mcall', fr, name, fargs, NONE)
        else:
            t = App('mcall', fr, name, fargs, self.tag(self.count('call')))
        self.ev('mcall', recv=recv, name=name, args=tuple(args), kwargs=dict(kwargs), fargs=fargs, result=t)
        self.mayraise(t)
        return t

    puremethods = {'longest_prefix', 'tostring', 'get_name', 'get_content', 'isoformat', 'is_alive'}

    def strmethod(self, s, name, args, kwargs):
        if name == 'join':
            segs = self.segments(args[0])
            return self.join(s, segs)
        flat = lambda a: isconst(a) or isapp(a, 'tuple') and all(isconst(x) for x in a.args)
        if isconst(s) and all(flat(a) for a in args) and all(flat(a) for a in kwargs.values()) and name in STRPURE:
            val = lambda a: a.v if isconst(a) else tuple(x.v for x in a.args)
            try:
                r = getattr(s.v, name)(*[val(a) for a in args], **{k: val(a) for k, a in kwargs.items()})
                if isinstance(r, list):
                    return self.mklist([App('one', Const(x)) for x in r])
                if isinstance(r, tuple):
                    return App('tuple', *[Const(x) for x in r])
                return Const(r)
            except (ValueError, IndexError):
                raise self.err('ValueError')
            except Exception:
                pass
        if name == 'format' and isconst(s):
            return self.strformat(s, args, kwargs)
        fargs = tuple(self.freeze(a) for a in args) + tuple(App('kw', k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isalpha', 'isupper', 'islower', 'isascii', 'isalnum', 'isidentifier', 'istitle', 'isprintable', 'isnumeric', 'isdecimal'):
            return App('strtest', name, self.freeze(s), fargs)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            return App('strsplit', name, self.freeze(s), fargs)
        if name in ('index', 'rindex'):
            t = App('strindex', name, self.freeze(s), fargs)
            self.mayraise(t, ['ValueError'])
            return t
        if name in ('find', 'rfind', 'count'):
            return App('strindex', name, self.freeze(s), fargs)
        if name in ('decode', 'encode'):
            t = App('strcodec', name, self.freeze(s), fargs)
            self.mayraise(t, ['UnicodeDecodeError'] if name == 'decode' else ['UnicodeError'])
            return t
        if name == 'translate' and isconst(s) and isinstance(s.v, str) and len(args) == 1 and isinstance(args[0], Ref):
            o = self.get(args[0])
            if o.kind == 'dict' and all(x.op == 'one' and isapp(x.args[0], 'tuple') and all(isconst(y) for y in x.args[0].args) for x in o.segs):
                return Const(s.v.translate({x.args[0].args[0].v: x.args[0].args[1].v for x in o.segs}))
        if name in STRPURE:
            return App('strmeth', name, self.freeze(s), fargs)
        if name in ('isprintable', 'isnumeric', 'isdecimal', '__len__'):
            return App('strtest', name, self.freeze(s), fargs)
        return self.opaquemethod(s, name, args, kwargs)

    def strformat(self, s, args, kwargs):
        import string
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s.v):
                out.append(Const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return App('strmeth', 'format', s, tuple(self.freeze(a) for a in args))
                out.append(self.format(v, spec or '', conv or ''))
        except Exception:
            return App('strmeth', 'format', s, tuple(self.freeze(a) for a in args))
        return concat(*out)

    def join(self, sep, segs):
        segs = tuple(self.freezeseg(s) for s in segs)
        if all(s.op == 'one' for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(sep)
                parts.append(s.args[0])
            if typ(sep) == 'bytes':
                return concat(*parts, empty=b'')
            return concat(Const(''), *parts)
        if sep == Const('') and segs:
            return concat(*[s.args[0] if s.op == 'one' or s.op == 'rest' and typ(s.args[0]) == 'str' else App('join', sep, (s,)) for s in segs])
        return App('join', sep, segs)

    def purecont(self, recv, name, args, kwargs):
        if name in ('index', 'count'):
            t = App('seqindex', name, recv, tuple(self.freeze(a) for a in args))
            items = self.concrete(recv)
            x = self.freeze(args[0])
            if items is not None and name == 'index':
                for i, it in enumerate(items):
                    e = eq(self.freeze(it), x)
                    if e == TRUE:
                        return Const(i)
                    if e != FALSE:
                        break
                else:
                    raise self.err('ValueError')
            self.mayraise(t, ['ValueError'])
            return t
        if name in ('union', '__or__'):
            return self.callbuiltin('frozenset', [self.setop('BitOr', recv, args[0])], {})
        if name in ('difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            if name.startswith('is') and len(args) == 1:
                return self.setrel(name, recv, args[0])
            if len(args) == 1 and name in ('difference', 'intersection', 'symmetric_difference') and isapp(recv, 'frozenset'):
                return self.setop({'difference': 'Sub', 'intersection': 'BitAnd', 'symmetric_difference': 'BitXor'}[name], recv, args[0])
            return App({'difference': 'setdiff'}.get(name, name), self.freeze(recv), *[self.freeze(a) for a in args])
        if name == 'copy':
            return recv
        if name == '__len__':
            return self.callbuiltin('len', [recv], {})
        return self.opaquemethod(recv, name, args, kwargs)

    def contmethod(self, r, kind, name, args, kwargs):
        """ methods of list/set/dict objects, on the heap (Ref) or symbolic """
        from .engine import seg1, segrest
        heap = isinstance(r, Ref)
        o = self.get(r) if heap else None
        segs = o.segs if heap else self.content(r)

        def put(new):
            if heap:
                self.set(r, self.trimmed(self.get(r), tuple(new)))
            else:
                self.st.cont[r] = tuple(new)
        if name == '__getitem__':
            return self.getitem(r, args[0])
        if name == '__setitem__':
            self.setitem(r, args[0], args[1])
            return NONE
        if name == '__contains__':
            return self.member(args[0], r)
        if name == '__len__':
            return self.callbuiltin('len', [r], {})
        if name in ('append', 'add'):
            v = args[0]
            self.ev('append', obj=r, value=v, how=name)
            s = seg1(v)
            if name == 'add':
                fv = self.freeze(v)
                if any(x.op == 'one' and self.freeze(x.args[0]) == fv for x in segs):
                    return NONE
            put(segs + (s,))
            return NONE
        if name == 'appendleft':
            self.ev('append', obj=r, value=args[0], how=name)
            put((seg1(args[0]),) + segs)
            return NONE
        if name == 'insert':
            self.ev('append', obj=r, value=args[1], how=name)
            if args[0] == Const(0):
                put((seg1(args[1]),) + segs)
            elif isconst(args[0]) and all(s.op == 'one' for s in segs):
                l = list(segs)
                l.insert(args[0].v, seg1(args[1]))
                put(l)
            else:
                put((segrest(App('inserted', App('seq', *segs), args[0], args[1])),))
            return NONE
        if name == 'extend':
            self.extend(r, args[0])
            return NONE
        if name in ('update', 'subtract') and (kind == 'dict' or (kind == 'sym' and not self.islist(args))):
            self.ev('update', obj=r, args=tuple(args), kwargs=dict(kwargs), how=name)
            if kind == 'dict':
                if o.cls == 'Counter':
                    for a in args:
                        self.iterate(a, lambda x: self.setitem(r, x, add(self.getitem(r, x), Const(1))))
                    return NONE
                for a in args:
                    for s in self.pairsegs(a):
                        if s.op == 'one':
                            self.dictput(r, *s.args[0].args)
                        else:
                            ob = self.get(r)
                            self.set(r, ob.with_(segs=ob.segs + (s,)))
                for k, v in kwargs.items():
                    self.dictput(r, Const(k), v)
                return NONE
            t = App('mcall', r, name, tuple(self.freeze(a) for a in args), self.tag(self.count('call')))
            self.ev('mcall', recv=r, name=name, args=tuple(args), kwargs=dict(kwargs), fargs=tuple(self.freeze(a) for a in args), result=t)
            self.st.cont[r] = (segrest(App('updated', App('seq', *segs), *[self.freeze(a) for a in args])),)
            return NONE
        if name == 'update':      # sets
            self.ev('update', obj=r, args=tuple(args), kwargs={}, how=name)
            for a in args:
                self.extend(r, a)
            return NONE
        if name in ('pop', 'popleft'):
            self.ev('pop', obj=r, args=tuple(args), how=name)
            if kind == 'dict':
                k = self.freeze(args[0])
                v = self.dictfind(segs, k)
                if v == self.MISSING:
                    if len(args) > 1:
                        return args[1]
                    raise self.err('KeyError')
                if v is not None and all(s.op == 'one' for s in segs):
                    put([s for s in segs if self.freeze(s.args[0].args[0]) != k])
                    return v
                t = App('getitem', self.freeze(r), k)
                put((segrest(App('without', App('seq', *segs), k)),))
                if len(args) == 1:
                    self.mayraise(t, ['KeyError'])
                elif not self.decide(App('in', k, self.freeze(r))):
                    return args[1]
                return t
            i = args[0] if args else Const(0 if name == 'popleft' else -1)
            if isconst(i) and isinstance(i.v, int):
                if i.v == -1 and segs and segs[-1].op == 'one':
                    put(segs[:-1])
                    return segs[-1].args[0]
                if i.v >= 0 and len(segs) > i.v and all(s.op == 'one' for s in segs[:i.v + 1]):
                    put(segs[:i.v] + segs[i.v + 1:])
                    return segs[i.v].args[0]
                if not segs:
                    raise self.err('IndexError')
            w = App('seq', *segs)
            put((segrest(App('without', w, i)),))
            t = App('getitem', w, i)
            self.mayraise(t, ['IndexError', 'KeyError'])
            if kind == 'sym' and len(args) > 1:
                return App('getdefault', w, i, self.freeze(args[1]))
            return t
        if name == 'clear':
            self.ev('clear', obj=r)
            put(())
            return NONE
        if name in ('remove', 'discard'):
            self.ev('remove', obj=r, value=args[0])
            fv = self.freeze(args[0])
            if all(s.op == 'one' for s in segs):
                for i, s in enumerate(segs):
                    e = eq(self.freeze(s.args[0]), fv)
                    if e == TRUE:
                        put(segs[:i] + segs[i + 1:])
                        return NONE
                    if e != FALSE:
                        break
                else:
                    if name == 'remove':
                        raise self.err('ValueError' if kind == 'list' else 'KeyError')
                    return NONE
            put((segrest(App('without', App('seq', *segs), fv)),))
            return NONE
        if name == 'sort':
            self.ev('sort', obj=r)
            put(self.get(self.b_sorted([r], kwargs)).segs)
            return NONE
        if name == 'reverse':
            self.ev('sort', obj=r)
            put(tuple(reversed(segs)) if all(s.op == 'one' for s in segs) else (segrest(App('reversed', App('seq', *segs))),))
            return NONE
        if name == 'setdefault':
            k = self.freeze(args[0])
            dv = args[1] if len(args) > 1 else NONE
            self.ev('setdefault', obj=r, key=k, value=dv)
            if kind == 'dict':
                v = self.dictfind(segs, k)
                if v == self.MISSING:
                    self.dictput(r, k, dv)
                    return dv
                if v is not None:
                    return v
                if self.decide(App('in', k, self.freeze(r))):
                    return App('getitem', self.freeze(r), k)
                self.dictput(r, k, dv)
                return dv
            if self.decide(self.member(k, r)):
                return self.symget(r, k) if r not in self.st.cont else self.getitem(r, k)
            self.setitem(r, k, dv)
            return dv
        if name == 'items':
            if kind == 'dict':
                return self.mklist(segs, 'gen') if False else self.mklist(self.itemsegs(segs))
            if r in self.st.cont:
                return self.mklist(self.segments(App('items', r)))
            return App('items', r)
        if name == 'keys':
            if kind == 'dict':
                return self.mklist(self.keysegs(o))
            if r in self.st.cont:
                return self.mklist(self.segments(r))
            return App('keysof', r)
        if name == 'values':
            if kind == 'dict':
                return self.mklist([self.mapseg(s, lambda x: x.args[1], 'valuesof') for s in segs])
            if r in self.st.cont:
                return self.mklist([self.mapseg(s, lambda x: x.args[1], 'valuesof') for s in self.segments(App('items', r))])
            return App('valuesof', r)
        if name == 'get':
            k = self.freeze(args[0])
            dv = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            if kind == 'dict':
                v = self.dictfind(segs, k)
                if v == self.MISSING:
                    return dv
                if v is not None:
                    return v
                w = r if heap and r.id in self.base and r.id not in self.st.heap else self.freeze(r)
                if isapp(w, 'dictof') and len(w.args) == 1 and w.args[0].op == 'rest':
                    w = w.args[0].args[0]
                    w = w.args[0] if isapp(w, 'items') else w
                if self.decide(App('in', k, w)):
                    return App('getitem', w, k)
                return dv
            if self.decide(self.member(k, r)):
                if r in self.st.cont:
                    return self.getitem(r, k)
                t = App('getitem', r, k)
                return self.alias.get(t, t)
            return dv
        if name == 'copy':
            if heap:
                return self.new(o.with_())
            ci = self.classof(r)
            t = App('copyof', App('seq', *segs) if r in self.st.cont else (App('at', r, self.st.ver[r]) if r in self.st.ver else r))
            self.ev('copy', obj=r, result=t)
            if ci is not None:
                self.clsof[t] = ci
            return t
        if name in ('index', 'count'):
            if heap and all(s.op == 'one' for s in segs) and name == 'index':
                for i, s in enumerate(segs):
                    e = self.equals(s.args[0], args[0])
                    if isapp(e):
                        e = self.decide(e)
                    else:
                        e = e.v
                    if e:
                        return Const(i)
                raise self.err('ValueError')
            t = App('seqindex', name, self.freeze(r), tuple(self.freeze(a) for a in args))
            if name == 'index':
                self.mayraise(t, ['ValueError'])
            return t
        if name in ('union',):
            n = self.mklist(segs, 'set')
            for a in args:
                self.extend(n, a)
            return n
        if name in ('difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            if name in ('difference', 'intersection', 'symmetric_difference') and len(args) == 1:
                return self.setop({'difference': 'Sub', 'intersection': 'BitAnd', 'symmetric_difference': 'BitXor'}[name], r, args[0])
            if name.startswith('is') and len(args) == 1:
                return self.setrel(name, r, args[0])
            return App(name, self.freeze(r), *[self.freeze(a) for a in args])
        if name == 'most_common':
            return App('sorted', App('items', r), App('key', '-count'), FALSE)
        if kind == 'sym' and name in STRPURE:
            return self.strmethod(r, name, args, kwargs)
        return self.opaquemethod(r, name, args, kwargs)

    def itemsegs(self, segs):
        return segs

    def islist(self, args):
        return False

    # ------------------------------------------------------------ builtins and library

    def callext(self, name, args, kwargs):
        short = name.split('.')[-1]
        if name in EXCNAMES or (name in self.EXC):
            return App('excinst', Ext(name), tuple(self.freeze(a) for a in args))
        if name in BUILTINS:
            return self.callbuiltin(name, args, kwargs)
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None:
            return m(args, kwargs)
        if name.startswith('operator.'):
            r = self.operator(short, args)
            if r is not None:
                return r
        if name == 'str.maketrans':
            if len(args) == 1 and isinstance(args[0], Ref) and self.get(args[0]).kind == 'dict' and all(s.op == 'one' for s in self.get(args[0]).segs):
                segs = []
                for s in self.get(args[0]).segs:
                    k, v = s.args[0].args
                    if isconst(k) and isinstance(k.v, str):
                        if len(k.v) != 1:
                            raise self.err('ValueError')
                        k = Const(ord(k.v))
                    segs.append(App('one', App('tuple', k, v)))
                return self.mkdict(segs)
            if len(args) in (2, 3) and all(isconst(a) for a in args):
                try:
                    d = str.maketrans(*[a.v for a in args])
                except ValueError:
                    raise self.err('ValueError')
                return self.mkdict([App('one', App('tuple', Const(k), Const(v))) for k, v in d.items()])
            return self.opaquecall(Ext(name), name, args, kwargs, True)
        if name.startswith('str.') or name.startswith('bytes.'):
            return self.strmethod(args[0], short, args[1:], kwargs)
        if name.startswith('dict.') or name.startswith('list.') or name.startswith('set.'):
            if name == 'dict.fromkeys':
                v = args[1] if len(args) > 1 else NONE
                segs = self.segments(args[0])
                if all(s.op == 'one' for s in segs):
                    return self.mkdict([App('one', App('tuple', s.args[0], v)) for s in segs])
                return self.mkdict([App('rest', App('items', App('fromkeys', App('seq', *segs), self.freeze(v))))])
            return self.method(args[0], short, args[1:], kwargs)
        pure = name in PUREEXT or name.startswith(PUREPREFIX) or name in self.pure
        if name.startswith('unicodedata.') and args and all(isconst(a) for a in args):
            import unicodedata
            try:
                return Const(getattr(unicodedata, short)(*[a.v for a in args]))
            except ValueError:
                raise self.err('ValueError')
            except Exception:
                pass
        if name in ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.normpath', 'posixpath.join') and args and \
                all(isconst(a) and isinstance(a.v, str) for a in args):
            import os.path
            r = getattr(os.path, short)(*[a.v for a in args])
            return App('tuple', *map(Const, r)) if isinstance(r, tuple) else Const(r)
        if name.startswith('re.'):
            r = self.regex(short, args, kwargs)
            if r is not None:
                return r
        return self.opaquecall(Ext(name), name, args, kwargs, pure)

    def reflags(self, t):
        import re
        if isconst(t) and isinstance(t.v, int):
            return t.v
        if isinstance(t, Ext) and t.name.startswith('re.'):
            v = getattr(re, t.name[3:], None)
            return int(v) if isinstance(v, re.RegexFlag) else None
        return None

    def regex(self, short, args, kwargs):
        """regular expressions on constants"""
        import re
        if short == 'escape' and len(args) == 1 and isconst(args[0]) and isinstance(args[0].v, (str, bytes)):
            return Const(re.escape(args[0].v))
        if not args or not isconst(args[0]) or not isinstance(args[0].v, (str, bytes)):
            return None
        if short == 'compile':
            f = args[1] if len(args) > 1 else kwargs.get('flags', Const(0))
            f = self.reflags(f)
            if f is None or set(kwargs) - {'flags'}:
                return None
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    re.compile(args[0].v, f)
            except re.error:
                return None
            return App('repat', args[0].v, f)
        if short in ('sub', 'split', 'findall', 'match', 'search', 'fullmatch'):
            kwargs = dict(kwargs)
            f = self.reflags(kwargs.pop('flags', Const(0)))
            if f is None:
                return None
            return self.rematch(args[0].v, f, short, args[1:], kwargs)
        return None

    def rematch(self, pat, flags, name, args, kwargs):
        import re
        if not all(isconst(a) and isinstance(a.v, (str, bytes, int)) for a in list(args) + list(kwargs.values())):
            return None
        try:
            r = getattr(re.compile(pat, flags), name)(*[a.v for a in args], **{k: v.v for k, v in kwargs.items()})
        except Exception:
            return None
        if name == 'sub':
            return Const(r)
        if name in ('split', 'findall') and all(isinstance(x, (str, bytes)) for x in r):
            return self.mklist([App('one', Const(x)) for x in r])
        if name in ('match', 'search', 'fullmatch') and r is None:
            return NONE
        return None

    def operator(self, n, args):
        table = {'add': ast.Add(), 'iadd': ast.Add(), 'sub': ast.Sub(), 'mul': ast.Mult(), 'truediv': ast.Div(), 'floordiv': ast.FloorDiv(), 'mod': ast.Mod(),
                 'or_': ast.BitOr(), 'and_': ast.BitAnd(), 'xor': ast.BitXor(), 'lshift': ast.LShift(), 'rshift': ast.RShift(), 'concat': ast.Add()}
        if n in table and len(args) == 2:
            return self.binop(table[n], *args)
        cmp = {'eq': ast.Eq(), 'ne': ast.NotEq(), 'lt': ast.Lt(), 'le': ast.LtE(), 'gt': ast.Gt(), 'ge': ast.GtE(), 'is_': ast.Is(), 'is_not': ast.IsNot()}
        if n in cmp and len(args) == 2:
            return self.compare(cmp[n], *args)
        if n == 'contains':
            return self.member(args[1], args[0])
        if n == 'getitem':
            return self.getitem(*args)
        if n == 'not_':
            return notb(self.truthy(args[0]))
        if n == 'itemgetter':
            return App('itemgetter', *args)
        if n == 'attrgetter':
            return App('attrgetter', *args)
        if n == 'methodcaller':
            return App('methodcaller', *args)
        if n == 'neg':
            return neg(args[0])
        if n == 'abs':
            return self.callbuiltin('abs', args, {})
        if n == 'setitem':
            self.setitem(*args)
            return NONE
        return None

    def x_collections_namedtuple(self, args, kwargs):
        from .engine import ClassInfo
        name = args[0].v
        f = args[1]
        if isconst(f) and isinstance(f.v, str):
            fields = f.v.replace(',', ' ').split()
        else:
            fields = [x.v for x in self.concrete(f)]
        info = ClassInfo(name, f'{self.curmod}.{name}', self.curmod, None)
        info.kind = 'namedtuple'
        info.fields = fields
        if 'defaults' in kwargs:
            info.defaults = tuple(self.concrete(kwargs['defaults']) or ())
        self.classes[info.qual] = info
        return ClassV(info)

    def x_math_pow(self, args, kwargs):
        if len(args) == 2 and all(isconst(a) and isinstance(a.v, (int, float)) for a in args):
            try:
                return Const(math.pow(args[0].v, args[1].v))
            except (ValueError, OverflowError):
                raise self.err('ValueError')
        return self.opaquecall(Ext('math.pow'), 'math.pow', args, kwargs, True)

    def x_collections_defaultdict(self, args, kwargs):
        r = self.mkdict([])
        o = self.get(r)
        self.set(r, o.with_(default=args[0] if args and args[0] != NONE else None))
        if len(args) > 1:
            o = self.get(r)
            self.set(r, o.with_(segs=self.pairsegs(args[1])))
        return r

    def x_collections_OrderedDict(self, args, kwargs):
        return self.callbuiltin('dict', args, kwargs)

    def x_collections_Counter(self, args, kwargs):
        r = self.mkdict([])
        o = self.get(r)
        self.set(r, o.with_(default=Ext('int'), cls='Counter'))
        if args:
            a = self.force(args[0])
            if isinstance(a, Ref) and self.get(a).kind == 'dict':
                o = self.get(r)
                self.set(r, o.with_(segs=self.get(a).segs))
            else:
                self.iterate(a, lambda x: self.setitem(r, x, add(self.getitem(r, x), Const(1))))
        return r

    def x_collections_deque(self, args, kwargs):
        r = self.mklist(self.segments(args[0]) if args else ())
        ml = kwargs.get('maxlen', args[1] if len(args) > 1 else None)
        if ml is not None:
            o = self.get(r)
            self.set(r, self.trimmed(o.with_(maxlen=ml), o.segs))
        return r

    def x_functools_partial(self, args, kwargs):
        return App('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))

    def x_functools_reduce(self, args, kwargs):
        from .engine import Obj
        items = self.concrete(args[1])
        if items is not None:
            acc = args[2] if len(args) > 2 else (items.pop(0) if items else self.unknown('empty reduce'))
            for x in items:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if len(args) > 2:
            fr = self.new(Obj('frame', attrs={'acc': args[2]}))
            self.iterate(args[1], lambda x: self.setlocal(fr, 'acc', self.call(args[0], [self.get(fr).attrs['acc'], x], {})))
            return self.get(fr).attrs['acc']
        return self.unknown('reduce')

    def x_itertools_chain(self, args, kwargs):
        segs = ()
        for a in args:
            if isapp(a, 'starargs'):
                segs += self.flat(a.args[0])
            else:
                segs += tuple(self.segments(a))
        return self.mklist(segs, 'gen')

    def flat(self, v):
        out = self.mklist((), 'gen')

        def body(x):
            def b2(y):
                o = self.get(out)
                self.set(out, o.with_(segs=o.segs + (App('one', y),)))
            self.iterate(x, b2)
        self.iterate(v, body)
        return self.get(out).segs

    def x_itertools_chain_from_iterable(self, args, kwargs):
        return self.mklist(self.flat(args[0]), 'gen')

    def x_itertools_product(self, args, kwargs):
        if kwargs:
            return self.unknown('product(repeat)')
        if len(args) == 1 and isapp(args[0], 'starargs'):
            return App('product*', args[0].args[0])
        out = self.mklist((), 'gen')

        def go(i, acc):
            if i == len(args):
                o = self.get(out)
                self.set(out, o.with_(segs=o.segs + (App('one', App('tuple', *acc)),)))
                return
            self.iterate(args[i], lambda x: go(i + 1, acc + [x]))
        go(0, [])
        return out

    def x_itertools_islice(self, args, kwargs):
        t = self.freeze(args[0])
        if len(args) == 2:
            items = self.concrete(args[0])
            if items is not None and isconst(args[1]):
                return self.mklist([App('one', x) for x in items[:args[1].v]], 'gen')
            return App('slice', self.seqterm(args[0]), NONE, args[1], NONE)
        lo, hi = args[1], args[2]
        return App('slice', self.seqterm(args[0]), NONE if lo == Const(0) else lo, hi, args[3] if len(args) > 3 else NONE)

    def seqterm(self, v):
        segs = self.segments(v)
        if len(segs) == 1 and segs[0].op == 'rest':
            return segs[0].args[0]
        return App('seq', *[self.freezeseg(s) for s in segs])

    def x_itertools_groupby(self, args, kwargs):
        key = args[1] if len(args) > 1 else kwargs.get('key', NONE)
        items = self.concrete(args[0])
        if items is not None and not self.loading:
            ks = [self.freeze(self.call(key, [x], {}) if key != NONE else x) for x in items]
            pv = [self.pyval(k) for k in ks]
            if None not in pv:
                out = []
                for i, x in enumerate(items):
                    if i == 0 or pv[i] != pv[i - 1]:
                        out.append((ks[i], []))
                    out[-1][1].append(App('one', x))
                return self.mklist([App('one', App('tuple', k, self.mklist(g, 'gen'))) for k, g in out], 'gen')
        return App('groupby', self.seqterm(args[0]), self.keyterm(key))

    def x_itertools_repeat(self, args, kwargs):
        if len(args) == 2 and isconst(args[1]):
            return self.mklist([App('one', args[0])] * args[1].v, 'gen')
        return App('repeatforever', self.freeze(args[0]))

    def x_itertools_count(self, args, kwargs):
        return App('countfrom', *(args or [Const(0)]))

    def x_copy_deepcopy(self, args, kwargs):
        return self.deepcopy(args[0], {})

    def x_copy_copy(self, args, kwargs):
        v = self.force(args[0])
        if isinstance(v, Ref):
            return self.new(self.get(v).with_())
        m = self.findmethod(v, '__copy__')
        if m is not None:
            return self.call(m, [], {})
        if isinstance(v, Const) or isapp(v, 'tuple'):
            return v
        return App('copyof', v)

    def deepcopy(self, v, memo):
        v = self.force(v)
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            o = self.get(v)
            r = self.new(o)
            memo[v] = r
            if o.kind == 'inst':
                self.set(r, o.with_(attrs={k: self.deepcopy(x, memo) for k, x in o.attrs.items()}))
            elif o.kind != 'frame':
                self.set(r, o.with_(segs=[App('one', self.deepcopy(s.args[0], memo)) if s.op == 'one' else s for s in o.segs]))
            return r
        if isapp(v, 'tuple') or isapp(v, 'nt') or isapp(v, 'frozenset'):
            return App(v.op, *[self.deepcopy(x, memo) if not isinstance(x, ClassV) else x for x in v.args])
        if isinstance(v, (Const, Enum, FuncV, ClassV, Ext)):
            return v
        t = App('deepcopy', v)
        if self.classof(v):
            self.clsof[t] = self.classof(v)
        return t

    def x_enum_auto(self, args, kwargs):
        return App('call', 'enum.auto', (), NONE)

    def x_typing_NamedTuple(self, args, kwargs):
        return self.unknown('typing.NamedTuple')

    def keyterm(self, k):
        """ canonical description of a key function """
        k = self.force(k)
        if k == NONE:
            return NONE
        x = App('keyarg')
        if self.loading or not self.levels:
            return App('keyfn', self.freeze(k) if not isinstance(k, FuncV) else Const((k.mod, k.node.lineno, k.node.col_offset)))
        tr = len(self.st.trace)
        try:
            v = self.call(k, [x], {})
        except Exception as e:
            if e.__class__.__name__ in ('Raised', 'ReturnSig'):
                return App('keyfn', self.unknown('key function raises'))
            raise
        return App('keyfn', self.freeze(v))

    def sortedterm(self, t, kwargs):
        key = self.keyterm(kwargs.get('key', NONE))
        rev = kwargs.get('reverse', FALSE)
        return App('sorted', t, key, rev)

    def callbuiltin(self, name, args, kwargs):
        f = getattr(self, 'b_' + name, None)
        if f is None:
            return self.opaquecall(Ext(name), name, args, kwargs)
        if any(isapp(a, 'starargs') for a in args) and name not in ('zip', 'print', 'min', 'max'):
            return self.opaquecall(Ext(name), name, args, kwargs, True)
        return f(args, kwargs)

    def b_len(self, args, kw):
        v = self.force(args[0])
        if isconst(v) and hasattr(v.v, '__len__'):
            return Const(len(v.v))
        if isinstance(v, ClassV) and v.info.kind == 'enum':
            return Const(len(v.info.members))
        segs = None
        isset = False
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == 'inst':
                f, _ = o.cls.lookup('__len__')
                if f is not None:
                    return self.call(self.bind(f, v), [], {})
                if '_children' in o.attrs:
                    return self.b_len([o.attrs['_children']], {})
                return App('len', v)
            segs = o.segs
            isset = o.kind in ('set', 'dict')
        elif isapp(v, 'tuple') or isapp(v, 'frozenset'):
            return Const(len(v.args))
        elif isapp(v, 'nt'):
            return Const(len(v.args) - 1)
        elif v in self.st.cont:
            segs = self.st.cont[v]
            isset = any(s.op == 'one' and isapp(s.args[0], 'kv') for s in segs)
        elif isapp(v, 'seq') or isapp(v, 'tupleof') or isapp(v, 'listof'):
            segs = v.args
        if segs is not None:
            if isset and len(segs) > 1 and not all(s.op == 'one' and isinstance(s.args[0], (Const, Enum, App)) for s in segs):
                if isinstance(v, Ref) and self.get(v).kind == 'set' and len(segs) <= 12 and all(s.op == 'one' for s in segs) and \
                        all(isinstance(s.args[0], (Const, Enum)) or isinstance(s.args[0], Ref) and self.get(s.args[0]).kind == 'inst' for s in segs):
                    return Const(len(self.nodup(segs)))
                return App('len', App('seq', *segs))
            if isset and any(s.op == 'star' for s in segs):
                return App('len', App('setseq', *segs))
            tot = Const(0)
            for s in segs:
                tot = add(tot, self.seglen(s))
            return tot
        ci = self.classof(v)
        if ci is not None:
            f, _ = ci.lookup('__len__')
            if f is not None:
                return self.call(self.bind(f, v), [], {})
        if isapp(v, 'concat'):
            tot = Const(0)
            for x in v.args:
                tot = add(tot, self.b_len([x], {}))
            return tot
        if isapp(v, 'items') or isapp(v, 'keysof') or isapp(v, 'valuesof'):
            return App('len', v.args[0])
        if isapp(v, 'sorted') or isapp(v, 'reversed'):
            return self.b_len([v.args[0]], {})
        if isapp(v, 'range') and len(v.args) == 1:
            return v.args[0]
        return App('len', v)

    def seglen(self, s):
        if s.op == 'one':
            return Const(1)
        if s.op == 'rest':
            return self.b_len([s.args[0]], {}) if not isapp(s.args[0], 'mu') and s.args[0] not in self.st.cont else App('len', s.args[0])
        src, alts = s.args
        deltas = []
        for a in alts:
            n = Const(0)
            for x in a.args[1]:
                n = add(n, self.seglen(x))
            deltas.append((a.args[0], n))
        return self.mksum(src, App('elem', self.unorder(src), 0), deltas)

    def b_abs(self, args, kw):
        v = args[0]
        if isconst(v):
            return Const(abs(v.v))
        # |x| is even: canonical sign
        p = topoly(v)
        n = topoly(neg(v))
        a, b = frompoly(p), frompoly(n)
        return App('abs', min(a, b, key=repr))

    def minmax(self, name, args, kw):
        key = kw.get('key')
        dflt = kw.get('default')
        if len(args) == 1:
            items = self.concrete(args[0])
            seqv = args[0]
        else:
            items = list(args)
            seqv = None
        if items is not None and any(isapp(a, 'starargs') for a in items):
            return self.opaquecall(Ext(name), name, args, kw, True)
        if items is not None and not items and dflt is not None:
            return dflt
        if items is not None and len(items) == 1 and len(args) == 1:
            return items[0]
        if items is not None and key is None:
            items = [Const(x.value) if isinstance(x, Enum) and isinstance(x.value, int) and False else x for x in items]
            if all(isconst(x) for x in items) and items:
                try:
                    return Const((min if name == 'min' else max)(x.v for x in items))
                except Exception:
                    pass
            if all(isnum(x) for x in items) and items:
                consts = [x.v for x in items if isconst(x)]
                rest = sorted({self.freeze(x) for x in items if not isconst(x)}, key=repr)
                flat = []
                for x in rest:
                    flat.extend(x.args if isapp(x, name + 'of') else [x])
                if consts:
                    flat.append(Const((min if name == 'min' else max)(consts)))
                return App(name + 'of', *sorted(set(flat), key=repr)) if len(flat) > 1 else flat[0]
            return App(name + 'of', *sorted({self.freeze(x) for x in items}, key=repr))
        if items is not None:
            segs = [App('one', x) for x in items]
        else:
            segs = self.segments(seqv)
        return self.argbest(name, segs, key, dflt)

    def argbest(self, name, segs, key, dflt):
        """ min/max over segments with an optional key """
        out = []
        if segs and all(s.op == 'one' for s in segs):
            # known elements: the first best one, if all keys are known
            ks = []
            for s in segs:
                x = s.args[0]
                k = x if key is None or key == NONE else self.call(key, [x], {})
                ks.append((k, x))
            vs = [pykey(k) for k, x in ks]
            if all(v is not None for v in vs) and len({type(v) for v in vs}) == 1:
                try:
                    b = (min if name == 'min' else max)(range(len(vs)), key=lambda i: vs[i])
                    return ks[b][1]
                except TypeError:
                    pass
            out = [App('one', App('keyed', self.freeze(k), self.freeze(x))) for k, x in ks]
            return App('best', name, tuple(out), NONE if dflt is None else App('dflt', self.freeze(dflt)))
        for s in segs:
            out.append(self.keyed(s, key))
        t = App('best', name, tuple(out), NONE if dflt is None else App('dflt', self.freeze(dflt)))
        return t

    def keyed(self, s, key):
        from .engine import Obj
        r = self.mklist((), 'list')

        def body(x):
            k = x if key is None or key == NONE else self.call(key, [x], {})
            self.push(r, App('keyed', self.freeze(k), self.freeze(x)))
        self.iterseg(s, body)
        segs = self.get(r).segs
        return segs[0] if len(segs) == 1 else App('segs', segs)

    def b_min(self, args, kw):
        return self.minmax('min', args, kw)

    def b_max(self, args, kw):
        return self.minmax('max', args, kw)

    def b_sum(self, args, kw):
        from .engine import Obj
        start = args[1] if len(args) > 1 else kw.get('start', Const(0))
        items = self.concrete(args[0])
        if items is not None:
            for x in items:
                start = self.binop(ast.Add(), start, x)
            return start
        fr = self.new(Obj('frame', attrs={'acc': start}))
        self.iterate(args[0], lambda x: self.setlocal(fr, 'acc', self.binop(ast.Add(), self.get(fr).attrs['acc'], x)))
        return self.get(fr).attrs['acc']

    def quant(self, args, isany):
        """ any/all, short-circuiting on known elements """
        for s in self.segments(args[0]):
            if s.op == 'one':
                t = self.decide(self.truthy(s.args[0]))
                if t == isany:
                    return Const(isany)
            else:
                cond = self.quantseg(s)
                atom = App('any', cond) if isany else App('all', cond)
                t = self.decide(atom)
                if t == isany:
                    return Const(isany)
        return Const(not isany)

    def quantseg(self, s):
        if s.op == 'rest':
            src, b, val = self.binder(s.args[0])
            return App('star', src, (App('alt', (), (App('one', self.truthy(val())),)),))
        src, alts = s.args
        out = []
        for a in alts:
            out.append(App('alt', a.args[0], tuple(App('one', self.truthy(x.args[0])) if x.op == 'one' else x for x in a.args[1])))
        return App('star', src, tuple(out))

    def b_any(self, args, kw):
        return self.quant(args, True)

    def b_all(self, args, kw):
        return self.quant(args, False)

    def b_sorted(self, args, kw):
        items = self.concrete(args[0])
        rev = kw.get('reverse', FALSE)
        if items is not None and isconst(rev):
            key = kw.get('key')
            ks = [self.call(key, [x], {}) if key is not None and key != NONE else x for x in items]
            ks = [self.freeze(k) for k in ks]
            pv = [self.pyval(k) for k in ks]
            if all(p is not None for p in pv):
                try:
                    order = sorted(range(len(items)), key=lambda i: pv[i][0], reverse=bool(rev.v))
                    return self.mklist([App('one', items[i]) for i in order])
                except TypeError:
                    pass
            if self.anyorder:
                # a representative order
                self.ev('sorted', items=tuple(self.freeze(x) for x in items), keys=tuple(ks), reverse=bool(rev.v))
                return self.mklist([App('one', x) for x in (reversed(items) if self.anyorder == 'reversed' else items)])
        t = self.seqterm(args[0])
        return self.mklist([App('rest', self.sortedterm(t, kw))])

    anyorder = False            # sorting by unknown keys gives some order

    def pyval(self, t):
        """ Python value of a constant term, boxed """
        if isconst(t):
            return (t.v,)
        if isinstance(t, Enum):
            return (t.value,)
        if isapp(t, 'tuple'):
            xs = [self.pyval(x) for x in t.args]
            return None if None in xs else (tuple(x[0] for x in xs),)
        return None

    def b_reversed(self, args, kw):
        items = self.concrete(args[0])
        if items is not None:
            return self.mklist([App('one', x) for x in reversed(items)], 'gen')
        return self.mklist([App('rest', App('reversed', self.seqterm(args[0])))], 'gen')

    def b_enumerate(self, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', Const(0))
        segs = self.segments(args[0])
        if all(s.op == 'one' for s in segs):
            return self.mklist([App('one', App('tuple', add(start, Const(i)), s.args[0])) for i, s in enumerate(segs)], 'gen')
        if len(segs) == 1 and segs[0].op == 'rest':
            return App('enumerate', segs[0].args[0], start)
        if len(segs) == 1 and segs[0].op == 'star':
            src, alts = segs[0].args
            if all(len(a.args[1]) == 1 and a.args[1][0].op == 'one' for a in alts):
                i = add(App('idx', src, 0), start)
                return self.mklist([App('star', src, tuple(App('alt', a.args[0], (App('one', App('tuple', i, a.args[1][0].args[0])),)) for a in alts))], 'gen')
        return App('enumerate', App('seq', *segs), start)

    def b_zip(self, args, kw):
        lists = [self.concrete(a) if not isapp(a, 'starargs') else None for a in args]
        if all(l is not None for l in lists):
            return self.mklist([App('one', App('tuple', *t)) for t in zip(*lists)], 'gen')
        if any(isapp(a, 'starargs') for a in args):
            return App('zipstar', *[self.freeze(a) for a in args])
        segs = [self.segments(a) for a in args]
        # all sequences are maps over the same source: fuse
        srcs = set()
        ok = True
        vals = []
        for s in segs:
            if len(s) != 1:
                ok = False
                break
            s = s[0]
            if s.op == 'rest':
                src, b, val = self.binder(s.args[0])
                if b.args[1] != 0:
                    ok = False
                    break
                srcs.add(src)
                vals.append(((), val()))
            elif s.op == 'star' and len(s.args[1]) == 1 and not s.args[1][0].args[0] and len(s.args[1][0].args[1]) == 1 and s.args[1][0].args[1][0].op == 'one':
                srcs.add(s.args[0])
                vals.append(((), s.args[1][0].args[1][0].args[0]))
            else:
                ok = False
                break
        if ok and len(srcs) == 1:
            src = srcs.pop()
            return self.mklist([App('star', src, (App('alt', (), (App('one', App('tuple', *[v for _, v in vals])),)),))], 'gen')
        return App('zip', *[self.seqterm(a) for a in args])

    def b_map(self, args, kw):
        out = self.mklist((), 'gen')
        if len(args) > 2:
            z = self.b_zip(args[1:], {})
            self.iterate(z, lambda x: self.push(out, self.call(args[0], self.concrete(x), {})))
        else:
            self.iterate(args[1], lambda x: self.push(out, self.call(args[0], [x], {})))
        return out

    def b_filter(self, args, kw):
        out = self.mklist((), 'gen')

        def body(x):
            c = x if args[0] == NONE else self.call(args[0], [x], {})
            if self.decide(self.truthy(c)):
                self.push(out, x)
        self.iterate(args[1], body)
        return out

    def b_range(self, args, kw):
        args = [Const(a.value) if isinstance(a, Enum) else a for a in args]
        if len(args) >= 2 and args[0] == Const(0) and (len(args) == 2 or args[2] == Const(1)):
            args = [args[1]]
        return App('range', *args)

    def b_list(self, args, kw):
        return self.mklist(self.segments(args[0]) if args else ())

    def b_tuple(self, args, kw):
        if not args:
            return App('tuple')
        segs = self.segments(args[0])
        if all(s.op == 'one' for s in segs):
            return App('tuple', *[s.args[0] for s in segs])
        return App('tupleof', *[self.freezeseg(s) for s in segs])

    def b_set(self, args, kw):
        r = self.mklist((), 'set')
        if args:
            self.set(r, self.get(r).with_(segs=self.nodup(self.segments(args[0]))))
        return r

    def nodup(self, given):
        """segments without repetition; objects are compared the way their class does"""
        segs = []
        given = tuple(given)
        objs = len(given) <= 12 and all(s.op == 'one' for s in given) and any(isinstance(s.args[0], Ref) for s in given)
        for s in given:
            if s in segs:
                continue
            if objs and any(self.decide(self.equals(k.args[0], s.args[0])) for k in segs if isinstance(s.args[0], Ref) and isinstance(k.args[0], Ref)):
                continue
            segs.append(s)
        return tuple(segs)

    def b_frozenset(self, args, kw):
        if not args:
            return App('frozenset')
        a = self.force(args[0])
        if isapp(a, 'frozenset') or isapp(a, 'fsetof'):
            return a
        segs = self.segments(a)
        if all(s.op == 'one' for s in segs):
            items = {self.freeze(s.args[0]) for s in segs}
            if all(isinstance(i, (Const, Enum)) for i in items) or len(items) <= 1:
                return App('frozenset', *sorted(items, key=repr))
            return App('frozenset', *sorted(items, key=repr))
        return App('fsetof', *sorted({self.freezeseg(s) for s in segs}, key=repr))

    def b_dict(self, args, kw):
        segs = []
        if args:
            segs = list(self.pairsegs(args[0]))
        for k, v in kw.items():
            if k == '**':
                segs.extend(self.dictsegs(v))
            else:
                segs.append(App('one', App('tuple', Const(k), v)))
        return self.mkdict(segs)

    def b_str(self, args, kw):
        if not args:
            return Const('')
        v = self.force(args[0])
        if len(args) > 1 or 'encoding' in kw:
            enc = args[1] if len(args) > 1 else kw['encoding']
            err = args[2] if len(args) > 2 else kw.get('errors')
            return self.call(self.getattr(v, 'decode'), [enc] + ([err] if err is not None else []), {})
        if isconst(v) and isinstance(v.v, (str, int, bool)) or v == NONE:
            return Const(str(v.v))
        if typ(v) == 'str':
            return v
        m = self.findmethod(v, '__str__')
        if m is not None and not isinstance(v, Enum):
            return self.call(m, [], {})
        return App('str', self.freeze(v))

    def b_repr(self, args, kw):
        v = args[0]
        if isconst(v) and isinstance(v.v, (str, int)):
            return Const(repr(v.v))
        return App('repr', self.freeze(v))

    def b_int(self, args, kw):
        if not args:
            return Const(0)
        v = args[0]
        if isinstance(v, Enum) and isinstance(v.value, int):
            return Const(v.value)
        if isconst(v) and len(args) == 1 and not kw:
            try:
                return Const(int(v.v))
            except Exception:
                raise self.err('ValueError')
        base = args[1] if len(args) > 1 else kw.get('base')
        if isconst(v) and base is not None and isconst(base) and isinstance(v.v, (str, bytes)):
            try:
                return Const(int(v.v, base.v))
            except Exception:
                raise self.err('ValueError')
        if base is None:
            if typ(v) == 'int':
                return v
            t = App('int', self.freeze(v))
        else:
            t = App('int', self.freeze(v), base)
        self.mayraise(t, ['ValueError'])
        return t

    def b_float(self, args, kw):
        if args and isconst(args[0]):
            try:
                return Const(float(args[0].v))
            except Exception:
                pass
        return App('float', *[self.freeze(a) for a in args]) if args else Const(0.0)

    def b_bool(self, args, kw):
        if not args:
            return FALSE
        return self.truthy(args[0])

    def b_hash(self, args, kw):
        v = self.force(args[0])
        m = self.findmethod(v, '__hash__')
        if m is not None:
            return self.call(m, [], {})
        return App('hash', self.freeze(v))

    def b_id(self, args, kw):
        return App('id', args[0])

    def b_ord(self, args, kw):
        v = args[0]
        if isconst(v) and isinstance(v.v, str):
            if len(v.v) != 1:
                raise self.err('TypeError')
            return Const(ord(v.v))
        t = App('ord', self.freeze(v))
        return t

    def b_chr(self, args, kw):
        v = args[0]
        if isconst(v) and isinstance(v.v, int):
            return Const(chr(v.v))
        return App('chr', self.freeze(v))

    def b_round(self, args, kw):
        if all(isconst(a) for a in args):
            return Const(round(*[a.v for a in args]))
        return App('round', *[self.freeze(a) for a in args])

    def b_pow(self, args, kw):
        return self.binop(ast.Pow(), args[0], args[1])

    def b_divmod(self, args, kw):
        return App('tuple', self.binop(ast.FloorDiv(), *args), self.binop(ast.Mod(), *args))

    def b_callable(self, args, kw):
        v = args[0]
        if isinstance(v, (FuncV, ClassV, Bound)):
            return TRUE
        return App('callable', self.freeze(v))

    def b_iter(self, args, kw):
        v = self.force(args[0])
        if len(args) == 2:
            return App('iter2', self.freeze(args[0]), self.freeze(args[1]))
        segs = self.segments(v)
        if len(segs) == 1 and segs[0].op == 'rest' and segs[0].args[0] == v:
            return App('iterof', self.levels[-1].loopid or '' if self.levels else '', v, self.count('iter'))
        return self.mklist(segs, 'gen')

    def b_next(self, args, kw):
        v = self.force(args[0])
        if isapp(v, 'iterof'):
            src = v.args[1]
            n = self.st.counts.get(('next', v), 0)
            self.st.counts[('next', v)] = n + 1
            t = App('getitem', src, Const(n))
            if len(args) > 1:
                if not self.decide(App('hasitem', src, Const(n))):
                    return args[1]
            else:
                self.mayraise(t, ['StopIteration'])
            return self.alias.get(t, t)
        if isinstance(v, Ref) and self.get(v).kind in ('gen', 'list'):
            o = self.get(v)
            segs = o.segs
            if not segs:
                if len(args) > 1:
                    return args[1]
                raise self.err('StopIteration')
            if segs[0].op == 'one':
                self.set(v, o.with_(segs=segs[1:]))
                return segs[0].args[0]
            t = App('firstof', *[self.freezeseg(s) for s in segs])
            if len(segs) == 1 and segs[0].op == 'rest':
                t = App('getitem', segs[0].args[0], Const(0))
            self.set(v, o.with_(segs=(App('rest', App('tailof', *segs)),)))
            if len(args) > 1:
                if not self.decide(App('truth', App('seq', *segs))):
                    return args[1]
            else:
                self.mayraise(t, ['StopIteration'])
            return t
        m = self.findmethod(v, '__next__')
        if m is not None:
            return self.call(m, [], {})
        return self.opaquecall(Ext('next'), 'next', args, kw)

    def b_type(self, args, kw):
        v = self.force(args[0])
        if isinstance(v, Ref) and self.get(v).kind == 'inst':
            return ClassV(self.get(v).cls)
        if isinstance(v, Enum):
            return ClassV(self.enuminfo(v))
        if isconst(v):
            return Ext(type(v.v).__name__)
        return App('typeof', self.freeze(v))

    def b_isinstance(self, args, kw):
        v, c = self.force(args[0]), self.force(args[1])
        if isapp(c, 'tuple'):
            for x in c.args:
                if self.decide(self.b_isinstance([v, x], {})):
                    return TRUE
            return FALSE
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == 'inst':
                if isinstance(c, ClassV):
                    return Const(o.cls.subclassof(c.info))
                if isinstance(c, Ext):
                    if c in o.cls.extbases():
                        return TRUE
                    if c.name == 'Exception':
                        return Const(any(b.name in self.EXC for b in o.cls.extbases()))
                    return FALSE
            if isinstance(c, ClassV):
                return FALSE
            return Const({'list': 'list', 'dict': 'dict', 'set': 'set', 'gen': 'generator'}.get(o.kind) == getattr(c, 'name', ''))
        if isinstance(v, Enum) and isinstance(c, ClassV):
            return Const(self.enuminfo(v).subclassof(c.info))
        if isconst(v):
            if isinstance(c, Ext) and c.name in ('str', 'int', 'float', 'bool', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset'):
                return Const(type(v.v).__name__ == c.name or (c.name == 'int' and isinstance(v.v, bool)))
            return FALSE
        if isapp(v, 'nt'):
            if isinstance(c, ClassV):
                return Const(v.args[0].info.subclassof(c.info))
            return Const(getattr(c, 'name', '') == 'tuple')
        if isapp(v, 'excval') or isapp(v, 'excof') or isapp(v, 'excinst'):
            if c == Ext('Exception') or c == Ext('BaseException'):
                return TRUE
        t = typ(v)
        if t in ('str', 'int', 'bool', 'tuple', 'list', 'dict', 'bytes') and isinstance(c, Ext):
            return Const(t == c.name or (t == 'bool' and c.name == 'int'))
        if t in ('str', 'int', 'bool', 'tuple', 'list', 'dict', 'bytes', 'num') and isinstance(c, ClassV):
            return FALSE
        if isinstance(c, ClassV):
            ci = v.cls if isinstance(v, Sym) else self.clsof.get(v)
            if ci is not None:
                if ci.subclassof(c.info):
                    return TRUE
                if not c.info.subclassof(ci):
                    return FALSE
        return App('isinstance', v, c)

    def b_issubclass(self, args, kw):
        if isinstance(args[0], ClassV) and isinstance(args[1], ClassV):
            return Const(args[0].info.subclassof(args[1].info))
        return App('issubclass', *[self.freeze(a) for a in args])

    def b_hasattr(self, args, kw):
        v, n = self.force(args[0]), args[1]
        ci = self.classof(v)
        if isconst(n) and ci is not None and ci.lookup(n.v)[0] is not None:
            return TRUE
        return App('hasattr', self.freeze(v), n)

    def b_getattr(self, args, kw):
        if isconst(args[1]):
            return self.getattr(args[0], args[1].v)
        return App('getattrdyn', self.freeze(args[0]), self.freeze(args[1]))

    def b_setattr(self, args, kw):
        if isconst(args[1]):
            self.setattr(args[0], args[1].v, args[2])
            return NONE
        self.note('dynamic setattr')
        return NONE

    def b_print(self, args, kw):
        self.ev('print', args=tuple(args), kwargs=dict(kw), fargs=tuple(self.freeze(a) for a in args))
        return NONE

    def b_bytes(self, args, kw):
        if all(isconst(a) for a in args) and args:
            try:
                return Const(bytes(*[a.v for a in args]))
            except Exception:
                pass
        return App('call', 'bytes', tuple(self.freeze(a) for a in args), NONE)

    def b_object(self, args, kw):
        return App('call', 'object', (), self.tag(self.count('call')))

    def b_super(self, args, kw):
        return App('super', args[0], args[1]) if len(args) == 2 else self.unknown('super')

    def b_format(self, args, kw):
        return self.format(args[0], args[1].v if len(args) > 1 and isconst(args[1]) else '', '')

    def b_hex(self, args, kw):
        return Const(hex(args[0].v)) if isconst(args[0]) else App('fmt', self.freeze(args[0]), '#x')

    def b_slice(self, args, kw):
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        while len(a) < 3:
            a.append(NONE)
        return App('sl', *a)
