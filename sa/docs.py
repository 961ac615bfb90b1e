"""Model of element trees (xml.etree.ElementTree, svgwrite).  Elements live on
the analyser's heap, so a program may build them in any order."""
from xml.etree import ElementTree as ET

from .terms import *
from .engine import Obj, ClassInfo, seg1
from .report import Lost

ELEM = ClassInfo('Element', 'xml.etree.ElementTree.Element', 'xml', None)
ELEM.bases = [Ext('xml.etree.ElementTree.Element')]
TREE = ClassInfo('ElementTree', 'xml.etree.ElementTree.ElementTree', 'xml', None)
TREE.bases = [Ext('xml.etree.ElementTree.ElementTree')]

SVG = {'container.Group': 'g', 'shapes.Rect': 'rect', 'shapes.Circle': 'circle', 'shapes.Line': 'line', 'text.Text': 'text', 'text.TSpan': 'tspan',
       'Drawing': 'svg', 'drawing.Drawing': 'svg', 'container.Defs': 'defs', 'container.Style': 'style', 'path.Path': 'path', 'container.Symbol': 'symbol',
       'shapes.Ellipse': 'ellipse', 'shapes.Polygon': 'polygon', 'shapes.Polyline': 'polyline', 'container.Use': 'use'}
# positional parameters
PARAMS = {'rect': ('insert', 'size', 'rx', 'ry'), 'circle': ('center', 'r'), 'line': ('start', 'end'), 'text': ('#text', 'insert'), 'tspan': ('#text', 'insert'),
          'svg': ('#file', 'size'), 'style': ('#text',)}


class Docs:
    def __init__(self, it):
        it.exthooks = dict(it.exthooks)
        it.methodhooks = dict(it.methodhooks)
        for p in ('xml.etree.ElementTree', 'xml.etree.cElementTree'):
            it.exthooks[p + '.Element'] = self.element
            it.exthooks[p + '.SubElement'] = self.sub
            it.exthooks[p + '.ElementTree'] = self.tree
            it.exthooks[p + '.tostring'] = self.tostring
        for n, tag in SVG.items():
            it.exthooks['svgwrite.' + n] = self.svg(tag)
        for m in ('set', 'append', 'add', 'extend', 'write', 'save', 'style', 'getroot', 'g', 'rect', 'circle', 'line', 'text', 'tspan', 'get', 'update', 'saveas', 'tostring'):
            it.methodhooks[m] = self.wrap(m)
        self.it = it

    def wrap(self, m):
        old = self_old = None
        f = getattr(self, 'm_' + m, None)

        def go(it, recv, args, kw):
            if not (isinstance(recv, Ref) and it.get(recv).kind == 'inst' and it.get(recv).cls in (ELEM, TREE)):
                return NotImplemented
            if f is None:
                return self.make(it, recv, m, args, kw)
            return f(it, recv, args, kw)
        return go

    def new(self, it, tag, attrib, text=NONE, **more):
        d = it.new(Obj('dict', segs=tuple(seg1(App('tuple', Const(k), v)) for k, v in attrib.items())))
        c = it.new(Obj('list', segs=()))
        a = dict(tag=tag, attrib=d, attribs=d, _children=c, text=text, tail=NONE, elements=c)
        a.update(more)
        return it.new(Obj('inst', cls=ELEM, attrs=a))

    def attribs(self, it, args, kw):
        out = {}
        for a in list(args) + ([kw['attrib']] if 'attrib' in kw else []):
            for k, v in self.items(it, a):
                out[k] = v
        for k, v in kw.items():
            if k == '**':
                for kk, vv in self.items(it, v):
                    out[kk] = vv
            elif k != 'attrib':
                out[k] = v
        return out

    def items(self, it, d):
        if not isinstance(d, Ref) or it.get(d).kind != 'dict':
            raise Lost(f'attributes {d!r}'[:100])
        for s in it.get(d).segs:
            if s.op != 'one' or not isconst(s.args[0].args[0]):
                raise Lost(f'attribute {s!r}'[:100])
            yield s.args[0].args[0].v, s.args[0].args[1]

    def element(self, it, args, kw):
        kw = dict(kw)
        tag = args[0] if args else kw.pop('tag')
        return self.new(it, tag, self.attribs(it, args[1:], kw))

    def sub(self, it, args, kw):
        kw = dict(kw)
        e = self.new(it, args[1] if len(args) > 1 else kw.pop('tag'), self.attribs(it, args[2:], kw))
        self.push(it, args[0], e)
        return e

    def push(self, it, parent, e):
        if not (isinstance(parent, Ref) and it.get(parent).kind == 'inst' and '_children' in it.get(parent).attrs):
            raise Lost(f'parent {parent!r}'[:100])
        c = it.get(parent).attrs['_children']
        o = it.get(c)
        it.set(c, o.with_(segs=tuple(o.segs) + (seg1(e),)))

    def tree(self, it, args, kw):
        return it.new(Obj('inst', cls=TREE, attrs=dict(_root=args[0] if args else kw.get('element'))))

    def m_getroot(self, it, recv, args, kw):
        return it.get(recv).attrs['_root']

    def m_write(self, it, recv, args, kw):
        if it.get(recv).cls is not TREE:
            return NotImplemented
        it.ev('document', tree=self.snap(it, it.get(recv).attrs['_root']), file=args[0] if args else None, how=dict(kw))
        return NONE

    def tostring(self, it, args, kw):
        tree = self.snap(it, args[0])
        it.ev('document', tree=tree, file=None, how=dict(kw))
        enc = args[1] if len(args) > 1 else kw.get('encoding', NONE)
        if isconst(enc) and not set(kw) - {'encoding'}:
            try:
                return Const(ET.tostring(real(tree), encoding=enc.v))
            except (TypeError, LookupError):
                pass
        return App('xmltext', App('line', it.line))

    def svg(self, tag):
        def f(it, args, kw):
            attrib, text, more = {}, NONE, {}
            for n, a in list(zip(PARAMS.get(tag, ()), args)) + list(kw.items()):
                if n == 'text' and tag in ('text', 'tspan'):
                    n = '#text'
                if n == '#text':
                    text = a
                elif n in ('#file', 'filename'):
                    more['_file'] = a
                else:
                    attrib[{'class_': 'class'}.get(n, n.replace('_', '-'))] = a
            e = self.new(it, Const(tag), attrib, text, **more)
            if tag == 'svg':
                d = self.new(it, Const('defs'), {})
                it.set(e, it.get(e).with_(attrs=dict(it.get(e).attrs, defs=d)))
                self.push(it, e, d)
            return e
        return f

    def make(self, it, recv, m, args, kw):
        return self.svg(m)(it, args, kw)

    def m_set(self, it, recv, args, kw):
        it.setitem(it.get(recv).attrs['attrib'], args[0], args[1])
        return NONE

    def m_get(self, it, recv, args, kw):
        return it.call(App('bm', it.get(recv).attrs['attrib'], 'get'), list(args), {})

    def m_update(self, it, recv, args, kw):
        for k, v in self.items(it, args[0]):
            it.setitem(it.get(recv).attrs['attrib'], Const(k), v)
        return NONE

    def m_append(self, it, recv, args, kw):
        self.push(it, recv, args[0])
        return NONE

    def m_add(self, it, recv, args, kw):
        self.push(it, recv, args[0])
        return args[0]

    def m_extend(self, it, recv, args, kw):
        xs = it.concrete(args[0])
        if xs is None:
            raise Lost('extend')
        for x in xs:
            self.push(it, recv, x)
        return NONE

    def m_save(self, it, recv, args, kw):
        it.ev('document', tree=self.snap(it, recv), file=it.get(recv).attrs.get('_file'), how=dict(kw))
        return NONE

    def m_saveas(self, it, recv, args, kw):
        it.ev('document', tree=self.snap(it, recv), file=args[0], how=dict(kw))
        return NONE

    def m_tostring(self, it, recv, args, kw):
        it.ev('document', tree=self.snap(it, recv), file=None, how=dict(kw))
        return App('xmltext', App('line', it.line))

    def snap(self, it, e):
        if not (isinstance(e, Ref) and it.get(e).kind == 'inst' and it.get(e).cls is ELEM):
            raise Lost(f'element {e!r}'[:100])
        a = it.get(e).attrs
        attrib = dict(self.items(it, a['attrib']))
        kids = []
        for s in it.get(a['_children']).segs:
            if s.op != 'one':
                raise Lost('children of an element')
            kids.append(self.snap(it, s.args[0]))
        return Node(a['tag'].v if isconst(a['tag']) else a['tag'], {k: self.value(it, v) for k, v in attrib.items()}, self.value(it, a['text']), kids)

    def value(self, it, v):
        v = it.force(v)
        if isconst(v):
            return v.v
        xs = v.args if isapp(v, 'tuple') else None
        if xs is None and isinstance(v, Ref):
            xs = it.concrete(v)
        if xs is not None:
            return tuple(self.value(it, x) for x in xs)
        return it.freeze(v)


def real(n):
    """constant tree as element of the standard library (serialised there)"""
    e = ET.Element(n.tag, n.attrib)
    e.text = n.text
    for k in n.kids:
        e.append(real(k))
    return e


class Node:
    def __init__(self, tag, attrib, text, kids):
        self.tag, self.attrib, self.text, self.kids = tag, attrib, text, kids

    def all(self, tag=None):
        if tag is None or self.tag == tag:
            yield self
        for k in self.kids:
            yield from k.all(tag)

    def __repr__(self):
        return f'<{self.tag} {self.attrib} {self.text!r} [{len(self.kids)}]>'
