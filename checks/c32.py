"""C32: document filters."""
import html.entities
import itertools
import re

from sa.engine import ClassInfo
from sa.kit import *
from sa.report import Gone, Lost

EXPLANATION = ('The filters are interpreted, as the filter table offers them, on model documents: token streams of all element trees up to a size (elements that are '
               'selected, look similar, scripts, styles, blocks and inline elements, in all nestings, with text everywhere) for the HTML filters, and node trees for '
               'the XML filters. The text they deliver must be that of the selected parts, in order.')
ASSUMPTIONS = ['parsers deliver well-nested token streams and trees (html5lib, minidom)', 'elements with equal names and attributes are treated alike (documents are small)',
               'a selected element does not start inside a script or style element (HTML parsers do not create elements there)']
TECHNIQUE = 'abstract interpretation of the filters on model documents (all trees in a small scope)'

BASE = 'html5lib.filters.base.Filter'
ENT = App('dictof', *[seg1(App('tuple', Const(k), Const(v))) for k, v in sorted(html.entities.html5.items()) if k in ('amp;', 'clubs;', 'nbsp;', 'lt;', 'quot;', 'Backslash;')])
HTMLNS = 'http://www.w3.org/1999/xhtml'


def table(it, name):
    d = it.modattr('lulua.text', 'filterAvail')
    if d is None:
        raise Gone('lulua.text.filterAvail')
    for s in it.get(d).segs:
        if s.op == 'one' and s.args[0].args[0] == Const(name):
            return s.args[0].args[1]
    raise Gone(f'filter {name}')


def base(it):
    """html5lib's Filter, and the other way to write to a list"""
    it.exthooks = dict(it.exthooks)
    it.methodhooks = dict(it.methodhooks)

    def init(i, a, k):
        o = i.get(a[0])
        i.set(a[0], o.with_(attrs=dict(o.attrs, source=a[1] if len(a) > 1 else k['source'])))
        return NONE
    it.exthooks[BASE + '.__init__'] = init
    it.exthooks[BASE + '.__iter__'] = lambda i, a, k: i.call(Ext('iter'), [i.getattr(a[0], 'source')], {})
    it.extconsts = {'html5lib.constants.entities': ENT}
    return it


def plain(v):
    """a Python value as a heap value"""
    return v


def mk(it, v):
    if isinstance(v, dict):
        return it.new(Obj('dict', segs=tuple(seg1(App('tuple', mk(it, k), mk(it, x))) for k, x in v.items())))
    if isinstance(v, list):
        return it.new(Obj('list', segs=tuple(seg1(mk(it, x)) for x in v)))
    if isinstance(v, tuple):
        return App('tuple', *[mk(it, x) for x in v])
    return v if isinstance(v, T) else Const(v)


def start(name, /, **attrs):
    return dict(type='StartTag', name=name, namespace=HTMLNS, data={(None, k): v for k, v in attrs.items()})


def end(name):
    return dict(type='EndTag', name=name, namespace=HTMLNS)


def chars(s):
    return dict(type='Characters', data=s)


def words(s):
    return ' '.join(s.split())


def codec(t):
    """text of bytes and bytes of text in utf-8, in one form"""
    if isinstance(t, T) and not isinstance(t, App):
        return t
    m = {}
    for x in subterms(t):
        if isapp(x, 'strcodec'):
            pos = [a for a in x.args[2] if not isapp(a, 'kw')]
            kw = {a.args[0]: a.args[1] for a in x.args[2] if isapp(a, 'kw')}
            enc = pos[0] if pos else kw.get('encoding', Const('utf-8'))
            err = pos[1] if len(pos) > 1 else kw.get('errors', Const('strict'))
            if isconst(enc) and enc.v.lower().replace('-', '').replace('_', '') == 'utf8' and isconst(err):
                m[x] = App(('' if err.v == 'strict' else 'lossy ') + ('text' if x.args[0] == 'decode' else 'bytes'), codec(x.args[1]))
    return subst(t, m) if m else t


def texts(it, f, args):
    """what a filter yields, as constants"""
    def go():
        xs = it.concrete(it.call(f, args(), {}))
        if xs is None:
            raise Lost('results')
        return App('tuple', *[codec(it.freeze(x)) for x in xs])
    ps = it.analyse(go)
    if any(p.outcome == 'budget' for p in ps):
        raise Lost('too many paths')
    return ps


def one(ps):
    """the strings delivered; failures"""
    if len(ps) != 1:
        raise Lost(f'{len(ps)} paths, {ps[0].facts!r}'[:200])
    p = ps[0]
    if p.notes:
        raise Lost(str(p.notes[:2]))
    if p.outcome == 'raise':
        return None, str(p.value.exc)
    if not all(isconst(x) for x in p.value.args):
        raise Lost(f'delivers {p.value!r}'[:100])
    return [x.v for x in p.value.args], None


SEL = {'aljazeera': [('div', dict(id='DynamicContentContainer'))], 'bbcarabic': [('div', dict(property='articleBody'))]}
# (name, attributes, kind)
LOOKALIKE = {'aljazeera': [('div', dict(id='Other')), ('p', dict(id='DynamicContentContainer'))], 'bbcarabic': [('div', dict(property='name')), ('span', dict(property='articleBody'))]}


# elements with text in them
NAMES = ('noscript', 'template', 'title', 'textarea', 'nav', 'header', 'footer', 'aside', 'figure', 'figcaption', 'table', 'tr', 'td', 'th', 'ul', 'ol', 'li', 'a', 'b', 'i', 'em', 'strong', 'span', 'h1',
         'h2', 'h6', 'blockquote', 'section', 'article', 'main', 'body', 'html', 'head', 'form', 'button', 'option', 'label', 'iframe', 'object', 'svg', 'math', 'pre', 'code', 'q', 'sup', 'center',
         'font', 'picture', 'video', 'audio', 'canvas', 'del', 's', 'ins', 'address', 'details', 'caption', 'dl', 'dt', 'dd')


def forests(n):
    """all ordered forests of n nodes, as nested tuples"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for kids in forests(k - 1):
            for rest in forests(n - k):
                yield (kids,) + rest


def stream(forest, kinds, selected):
    """(tokens, expected text): text before, in and after every element"""
    toks, exp, c = [], [], itertools.count()
    ks = iter(kinds)

    def text(on):
        w = f't{next(c)} '
        toks.append(chars(w))
        if on:
            exp.append(w)

    def node(kids, on, off):
        name, attrs, sel = next(ks)
        on = on or sel and not off
        off = off or name in ('script', 'style')
        toks.append(start(name, **attrs))
        text(on and not off)
        for k in kids:
            node(k, on, off)
            text(on and not off)
        toks.append(end(name))
        if name in ('p', 'div') and on and not off:
            exp.append('\n')
    text(False)
    for k in forest:
        node(k, False, False)
        text(False)
    return toks, words(''.join(exp))


def valid(forest, kinds):
    """nothing selected inside scripts"""
    ks = iter(kinds)

    def node(kids, off):
        name, _, sel = next(ks)
        if off and sel:
            return False
        off = off or name in ('script', 'style')
        return all([node(k, off) for k in kids])
    return all([node(k, False) for k in forest])


def htmlhooks(it, cur):
    it.exthooks['html5lib.parse'] = lambda i, a, k: App('parsed', i.freeze(a[0]), *[App('kw', n, i.freeze(x)) for n, x in sorted(k.items())])
    it.exthooks['html5lib.getTreeWalker'] = lambda i, a, k: Ext('model.walker')
    it.exthooks['model.walker'] = lambda i, a, k: walk(i, cur, a)
    return it


def walk(it, cur, a):
    a = [codec(x) if isinstance(x, App) else x for x in a]
    if a and isapp(a[0], 'parsed') and a[0] not in cur:
        x = a[0].args[0]
        while isapp(x, 'slice'):
            x = x.args[0]
        full = x
        if isapp(x, 'lossy text'):
            full = App('text', x.args[0])
        if full != a[0].args[0] and App('parsed', full, *a[0].args[1:]) in cur:
            return mk(it, [])   # undecodable parts are lost, or only a part of the document is read: some document loses its text
    if not a or a[0] not in cur:
        raise Lost(f'walks {a!r}'[:80])
    return mk(it, cur[a[0]])


def selection(ck, name):
    it = base(interp())
    f = table(it, name)
    cur = {}
    htmlhooks(it, cur)
    where = 'lulua/text.py:' + str(getattr(it.classes.get('lulua.text.Select'), 'node', None).lineno if it.classes.get('lulua.text.Select') else 1)
    rule = f'{name} delivers the text of the selected elements'
    M = [(n, a, True) for n, a in SEL[name]]
    L = [(n, a, False) for n, a in LOOKALIKE[name]]
    full = M + L + [('script', {}, False), ('style', {}, False), ('p', {}, False)]
    small = M + L[:1] + [('script', {}, False)]
    sizes = [(1, full), (2, full), (3, small)] + ([(3, full), (4, small)] if ck.thorough else [])
    docs, seen = [], set()
    for n, kinds in sizes:
        for fo in forests(n):
            for ks in itertools.product(kinds, repeat=n):
                key = (fo, repr(ks))
                if key in seen or not valid(fo, ks):
                    continue
                seen.add(key)
                docs.append(stream(fo, ks, None))
    # deep chains
    S, P = ('script', {}, False), ('p', {}, False)
    for ks in ([P] * 2 + M + [P] * 3, M + [S, P, P, P], M + M + M + [P, P], M + [P] * 2 + [S] + [P], [S, P, P] + [P] * 2, M + [('b', {}, False), S, S, P]):
        fo = ()
        for _ in ks:
            fo = (fo,)
        docs.append(stream(fo, ks, None))
        # and what follows the chain
        docs.append(stream(fo + ((),) * len(M), ks + M, None))
    # other elements inside, between and around; other attributes; values that are only similar
    N, (key, val) = M[0][0], next(iter(M[0][1].items()))
    for n in NAMES:
        X = (n, {}, False)
        docs.append(stream((((), ((),)), ()), M + [X, P, X, X], None))
        docs.append(stream(((((),), ()),), [X] + M + [X, P], None))
        docs.append(stream((((((),),),),), [X] + M + [X, S], None))
    Y = (N, dict({key: val}, **{'class': 'x', 'dir': 'rtl'}), True)
    for other in ({key: val + '2'}, {key: 'x' + val}, {key: val[:-1]}, {key: val.upper()}, {key: ''}, {'class': val}, {'name': val}, {}):
        Z = (N, other, False)
        docs += [stream(((), ()), [Z, Y], None), stream((((),), ()), [Y, Z, Z], None), stream((((),), ()), [Z, Y, Z], None)]
    for void in ('br', 'img', 'hr', 'input', 'wbr', 'meta'):
        e = dict(type='EmptyTag', name=void, namespace=HTMLNS, data={})
        b, z = start(N, **M[0][1]), end(N)
        docs.append(([e, chars('no '), b, chars('a '), e, chars('b '), start('p'), e, chars('c '), end('p'), e, e, chars('d '), z, e, chars('no '), b, e, chars('e '), z, chars('no ')], 'a b c d e'))
        docs.append(([start('script'), e, chars('no '), end('script'), chars('no '), b, start('script'), e, chars('no '), end('script'), chars('a '), z, chars('no ')], 'a'))
    bad = 0
    doc = App('parsed', Sym('fd'))
    for toks, want in docs:
        cur.clear()
        cur[doc] = toks
        got, err = one(texts(it, f, lambda: [Sym('fd')]))
        ck.count('documents')
        if err is not None or words(''.join(got)) != want or len(got) != 1:
            bad += 1
            if bad <= 3:
                ck.violated(rule, where, f'{show(toks)}: ' + (f'fails with {err}' if err else f'delivers {words("|".join(got))!r}, should be {want!r}'))
    if not bad:
        ck.holds(rule, where, f'{len(docs)} documents')
    ck.used(it)


def show(toks):
    out = ''
    for t in toks:
        out += {'StartTag': lambda: '<' + t['name'] + ''.join(f' {k[1]}' for k in t['data']) + '>', 'EndTag': lambda: f'</{t["name"]}>',
                'Characters': lambda: t['data'].strip()}.get(t['type'], lambda: f'[{t["type"]}]')()
    return out[:200]


SERIAL = [
    ('inline elements do not separate', [chars('a'), start('b'), chars('c'), end('b'), chars('d')], 'acd'),
    ('paragraphs and blocks are kept apart', [start('p'), chars('a'), end('p'), start('div'), chars('b'), end('div'), start('p'), chars('c'), end('p')], 'a b c'),
    ('white space separates', [chars('a'), dict(type='SpaceCharacters', data=' '), chars('b'), dict(type='SpaceCharacters', data='\n'), chars('c')], 'a b c'),
    ('comments are no text', [chars('a'), dict(type='Comment', data='no'), chars('b')], 'ab'),
    ('document types are no text', [dict(type='Doctype', name='html', publicId='no', systemId='no'), chars('b')], 'b'),
    ('entities are their characters', [dict(type='Entity', name='amp'), chars('x'), dict(type='Entity', name='clubs'), dict(type='Entity', name='nbsp'), chars('y')], '&x♣\u00a0y'),
    ('text is delivered as it is', [chars('Ünï <b> &amp; "q" ا\u0654بت 0'), chars('x')], 'Ünï <b> &amp; "q" ا\u0654بت 0x'),
    ('attributes are no text', [start('a', href='no', title='no'), chars('x'), end('a'), dict(type='EmptyTag', name='img', namespace=HTMLNS, data={(None, 'alt'): 'no'}), chars('y')], 'xy'),
]


def serializer(ck):
    it = base(interp())
    c = it.classes.get('lulua.text.HTMLSerializer')
    if c is None or c.lookup('serialize')[0] is None:
        raise Gone('lulua.text.HTMLSerializer.serialize')
    where = f'lulua/text.py:{c.lookup("serialize")[0].node.lineno}'
    for rule, toks, want in SERIAL:
        got, err = one(texts(it, c.lookup('serialize')[0], lambda: [it.call(ClassV(c), [], {}), mk(it, toks)]))
        ck.count('documents')
        if err is not None:
            ck.violated(rule, where, f'fails with {err} on {show(toks)}')
            continue
        s = ''.join(got)
        ok = ws(s) == ws(want) if rule != 'text is delivered as it is' else s == want
        ck.expect(ok, rule, where, '', f'{show(toks)} becomes {s!r}')
    ck.used(it)


def ws(s):
    return re.sub('[ \n\t\r]+', ' ', s).strip(' \n\t\r')


def epub(ck):
    """all documents of a book"""
    rule = 'a book delivers the text of every document in it'
    it = base(interp())
    f = table(it, 'epub')
    where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
    cur = {}
    htmlhooks(it, cur)
    it.exthooks['ebooklib.epub.read_epub'] = lambda i, a, k: App('book', i.freeze(a[0]))
    it.extconsts = dict(it.extconsts, **{'ebooklib.ITEM_DOCUMENT': Const(9), 'ebooklib.ITEM_STYLE': Const(2), 'ebooklib.ITEM_UNKNOWN': Const(0), 'ebooklib.ITEM_SCRIPT': Const(3)})
    the = App('book', Const('file name.epub'))
    docs = [Sym(f'document{i}') for i in range(3)]

    def items(i, recv, args, kw):
        if recv != the:
            return NotImplemented
        kinds = {Const(9): docs}
        if not args or args[0] not in kinds:
            return mk(i, [Sym('other')])
        return mk(i, list(docs))
    it.methodhooks['get_items_of_type'] = items
    it.methodhooks['get_content'] = lambda i, recv, args, kw: App('content', recv) if recv in docs else NotImplemented
    it.methodhooks['get_body_content'] = lambda i, recv, args, kw: App('body', recv) if recv in docs else NotImplemented
    body = lambda n: [start('html'), start('head'), start('title'), chars('title '), end('title'), start('style'), chars('css '), end('style'), end('head'), start('body'), chars(f'a{n} '), start('p'), chars(f'b{n}'), start('b'), chars('c'), end('b'), end('p'),
                      start('script'), chars('js '), end('script'), chars(f'd{n}'), end('body'), end('html')]
    for n, d in enumerate(docs):
        for key in (App('content', d), App('text', App('content', d))):
            cur[App('parsed', key)] = body(n)
    got, err = one(texts(it, f, lambda: [Const('file name.epub\n')]))
    ck.count('documents', 3)
    want = [f'title a{n} b{n}c d{n}' for n in range(3)]
    if err is not None:
        ck.violated(rule, where, f'fails with {err}')
    else:
        ck.expect([words(g) for g in got] == want or words(' '.join(got)) == ' '.join(want), rule, where, '', f'delivers {got}, should be {want}')
    ck.used(it)


NODE = ClassInfo('Node', 'model.Node', 'xml', None)
NODE.bases = [Ext('xml.dom.minidom.Node')]
TYPES = dict(ELEMENT_NODE=1, ATTRIBUTE_NODE=2, TEXT_NODE=3, CDATA_SECTION_NODE=4, ENTITY_REFERENCE_NODE=5, ENTITY_NODE=6, PROCESSING_INSTRUCTION_NODE=7, COMMENT_NODE=8, DOCUMENT_NODE=9)
KIND = dict(t='TEXT_NODE', cdata='CDATA_SECTION_NODE', comment='COMMENT_NODE', pi='PROCESSING_INSTRUCTION_NODE')


def xmltree(it, n):
    """('tag', child, ...) or ('#t', text)"""
    if n[0][0] == '#':
        k = KIND[n[0][1:]]
        return node(it, k, data=Const(n[1]), nodeValue=Const(n[1]), childNodes=mk(it, []), nodeName=Const('#' + n[0][1:]), firstChild=NONE, lastChild=NONE)
    kids = [xmltree(it, c) for c in n[1:]]
    r = node(it, 'DOCUMENT_NODE' if n[0] == 'DOC' else 'ELEMENT_NODE', tagName=Const(n[0]), nodeName=Const(n[0]), childNodes=mk(it, kids), nodeValue=NONE)
    if n[0] == 'DOC':
        o = it.get(r)
        it.set(r, o.with_(attrs=dict(o.attrs, documentElement=next(k for k in kids if it.get(k).attrs['nodeType'] == Const(1)))))
    o = it.get(r)
    it.set(r, o.with_(attrs=dict(o.attrs, firstChild=kids[0] if kids else NONE, lastChild=kids[-1] if kids else NONE)))
    for i, k in enumerate(kids):
        o = it.get(k)
        it.set(k, o.with_(attrs=dict(o.attrs, parentNode=r, previousSibling=kids[i - 1] if i else NONE, nextSibling=kids[i + 1] if i + 1 < len(kids) else NONE)))
    return r


def node(it, kind, **attrs):
    return it.new(Obj('inst', cls=NODE, attrs=dict(attrs, nodeType=Const(TYPES[kind]), **{k: Const(v) for k, v in TYPES.items()})))


def xmlhooks(it):
    def find(i, recv, args, kw):
        if not (isinstance(recv, Ref) and i.get(recv).kind == 'inst' and i.get(recv).cls is NODE):
            return NotImplemented
        want = args[0] if args else kw['name']
        if not isconst(want):
            raise Lost(f'elements named {want!r}')
        out = []

        def go(r):
            for c in i.concrete(i.get(r).attrs['childNodes']):
                a = i.get(c).attrs
                if a.get('tagName') is not None and (a['tagName'] == want or want.v == '*'):
                    out.append(c)
                go(c)
        go(recv)
        return mk(i, out)
    it.methodhooks['getElementsByTagName'] = find
    it.methodhooks['hasChildNodes'] = lambda i, r, a, k: Const(bool(i.concrete(i.get(r).attrs['childNodes']))) if isinstance(r, Ref) and i.get(r).cls is NODE else NotImplemented
    it.extconsts = dict(it.extconsts, **{f'xml.dom.{c}.{k}': Const(v) for c in ('Node', 'minidom.Node') for k, v in TYPES.items()})


def t(s):
    return ('#t', s)


def xmldocs(ck, name, docs):
    it = base(interp())
    f = table(it, name)
    xmlhooks(it)
    where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
    for rule, doc, want in docs:
        got, err = one(texts(it, f, lambda: [xmltree(it, doc)]))
        ck.count('documents')
        if err is not None:
            ck.violated(rule, where, f'fails with {err}')
            continue
        s = '\n'.join(got)
        lines = [x for x in re.split(r'\s*\n\s*', s.strip()) if x]
        ck.expect([words(x) for x in lines] == want, rule, where, name, f'delivers {lines}, should be {want}')
    ck.used(it)


def s(*kids):
    return ('s', *[t(k) if isinstance(k, str) else k for k in kids])


def tei(ck):
    P = lambda *ss: ('p', *ss)
    xmldocs(ck, 'tei2', [
        ('every sentence is delivered, in order', ('DOC', ('TEI.2', ('teiHeader', ('title', s('no'))), ('text', ('body', P(s('a b'), s('c')), P(s('d'))), ('body', ('div', P(s('e'))))), ('text', ('body', P(s('f')))))),
         ['a b', 'c', 'd', 'e', 'f']),
        ('text outside of sentences is left out', ('DOC', ('TEI.2', s('no'), ('p', s('no')), ('text', P(s('no')), ('front', P(s('no'))), ('body', s('no'), t('no'), P(t('no'), s('x'), t('no')))))), ['x']),
        ('all text of a sentence is delivered', ('DOC', ('TEI.2', ('text', ('body', P(s('a ', ('#comment', 'no'), 'b', ('#cdata', 'c & d'), ('pb',), 'e', ('#pi', 'no')), s('', 'f'), s(), s(('pb',), 'g')))))),
         ['a bc & de', 'f', 'g']),
        ('an empty document is empty', ('DOC', ('TEI.2',)), []),
    ])


def subtitles(ck):
    tm = ('time',)
    xmldocs(ck, 'opensubtitles', [
        ('every sentence is delivered, in order', ('DOC', ('document', s('\n    a b\n  '), s(tm, '\n c ', tm, '\n'), ('group', s('d')), s(tm), s('e'))), ['a b', 'c', 'd', 'e']),
        ('text outside of sentences is left out', ('DOC', ('document', t('no'), ('meta', t('no')), s('x'), t('no'))), ['x']),
        ('all text of a sentence is delivered', ('DOC', ('document', s('- a ', ('#comment', 'no'), tm, 'b ', ('#cdata', 'c <d>'), '!'))), ['- a b c <d>!']),
        ('an empty document is empty', ('DOC', ('document',)), []),
    ])


def simple(ck):
    """filters that hand on what a library gives"""
    for name, arg, want in (('lines', Const('a line\n'), lambda: {Const('a line\n')}),
                            ('json', Sym('item', 'str'), lambda: None),
                            ('text', Sym('fd'), lambda: None)):
        it = base(interp())
        f = table(it, name)
        where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
        it.exthooks['json.loads'] = lambda i, a, k: App('loaded', i.freeze(a[0]))
        it.exthooks['json.load'] = lambda i, a, k: App('loaded', i.freeze(a[0]))
        it.methodhooks['read'] = lambda i, r, a, k: App('content', i.freeze(r)) if not [x for x in a if x not in (NONE, Const(-1))] else NotImplemented
        rule = f'{name} delivers the item as it is'
        ok = {'lines': arg, 'json': App('loaded', arg), 'text': App('text', App('content', arg))}[name]
        for p in texts(it, f, lambda: [arg]):
            if p.outcome == 'raise':
                if not p.value.implicit:
                    ck.violated(rule, where, f'fails with {p.value.exc}')
                continue
            if p.notes:
                raise Lost(str(p.notes))
            got = list(p.value.args)
            ck.count('documents')
            if len(got) == 1 and got[0] == ok:
                ck.holds(rule, where)
            else:
                known = all(x == ok or isconst(x) or isapp(x, 'strmeth') or isapp(x, 'strcodec') or isapp(x, 'lossy text') for x in got)
                ck.expect(False if known and (len(got) != 1 or got) else None, rule, where, '', f'delivers {got!r}, should be {ok!r}'[:200])
        ck.used(it)


def files(ck):
    it = base(interp())
    f = table(it, 'file')
    where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
    rule = 'file opens the file named by the line'

    def openit(i, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', Const('r'))
        i.ev('opened', name=a[0] if a else k.get('file'), mode=mode)
        return App('file', a[0] if a else k.get('file'), mode)
    it.exthooks['open'] = openit
    n = 0
    for p in texts(it, f, lambda: [Const('dir/a name.tar.br\n')]):
        if p.outcome == 'raise':
            if not p.value.implicit:
                ck.violated(rule, where, f'fails with {p.value.exc}')
            continue
        n += 1
        got = list(p.value.args)
        ok = [App('file', Const('dir/a name.tar.br'), Const('rb'))]
        ck.expect(got == ok if all(isapp(g, 'file') for g in got) else None, rule, where, '', f'delivers {got!r}, should be {ok!r}')
    ck.expect(n > 0 or None, rule, where)
    ck.used(it)


def xmlparse(ck):
    it = base(interp())
    f = table(it, 'xml')
    where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
    rule = 'documents that cannot be read are reported'
    for fails in (False, True):
        def parse(i, a, k):
            if fails:
                raise i.err('xml.parsers.expat.ExpatError')
            return App('parsed', i.freeze(a[0]))
        it.exthooks['xml.dom.minidom.parse'] = parse
        for p in texts(it, f, lambda: [Sym('fd')]):
            if p.notes:
                raise Lost(str(p.notes))
            said = [e for e in p.trace if e.kind == 'call' and e.name.startswith('logging.') and e.name.split('.')[-1] in ('error', 'warning', 'exception', 'critical', 'warn')]
            said += [e for e in p.trace if e.kind == 'mcall' and e.name in ('error', 'warning', 'exception', 'critical')]
            if fails:
                ok = p.outcome == 'raise' or bool(said)
                ck.expect(ok, rule, where, 'broken', 'an unreadable document is dropped silently')
                if p.outcome != 'raise':
                    ck.expect(not p.value.args, 'documents that cannot be read deliver nothing', where, '', f'delivers {p.value!r}'[:100])
            elif p.outcome != 'raise':
                ck.expect(list(p.value.args) == [App('parsed', Sym('fd'))] or None if p.value.args else False, 'a document is delivered parsed', where, '', f'delivers {p.value!r}'[:100])
            ck.count('documents')
    ck.used(it)


def markdown(ck):
    """conversion by an external program"""
    it = base(interp())
    f = table(it, 'mediawikimarkdown')
    where = f'lulua/text.py:{getattr(getattr(f, "node", None), "lineno", 1)}'
    proc = Sym('process')
    got = {}
    it.exthooks['subprocess.Popen'] = lambda i, a, k: (i.ev('popen', args=[x.v for x in i.concrete(a[0])] if i.concrete(a[0]) and all(isconst(x) for x in i.concrete(a[0])) else None), proc)[1]
    for code in (0, 1):
        it.methodhooks['wait'] = lambda i, r, a, k: Const(code) if r == proc else NotImplemented
        it.methodhooks['read'] = lambda i, r, a, k: App('output', r) if not a else NotImplemented
        for p in texts(it, f, lambda: [Sym('text', 'str')]):
            if p.outcome == 'raise':
                if not p.value.implicit:
                    ck.violated('markup is converted', where, f'fails with {p.value.exc}')
                continue
            if p.notes:
                raise Lost(str(p.notes))
            ck.count('documents')
            fed = [e for e in p.trace if e.kind == 'mcall' and e.name == 'write' and App('bytes', Sym('text', 'str')) in [codec(x) for x in e.args]]
            cmd = [e.args for e in p.trace if e.kind == 'popen']
            if code:
                ck.expect(not p.value.args, 'a rejected document delivers nothing', where, '', f'delivers {p.value!r}')
                said = [e for e in p.trace if e.kind == 'call' and e.name.startswith('logging.')]
                ck.expect(bool(said), 'documents that cannot be read are reported', where, 'pandoc', 'a rejected document is dropped silently')
                continue
            ok = [App('text', App('output', App('attr', proc, 'stdout')))]
            ck.expect(list(p.value.args) == ok if all(isapp(x, 'text') for x in p.value.args) else None, 'the converted text is delivered', where, '', f'delivers {p.value!r}')
            ck.expect(len(fed) == 1 or None, 'the whole text is converted', where, '', f'{len(fed)} writes')
            if len(cmd) == 1 and cmd[0]:
                c = cmd[0]
                opt = {c[i]: c[i + 1] for i in range(len(c) - 1)}
                ck.expect(opt.get('-f') == 'mediawiki' if '-f' in opt else None, 'mediawiki markup is read', where, '', f'{c}')
    ck.used(it)


def mediawiki(ck):
    """texts of a dump"""
    it = base(interp())
    from sa.args import Args
    f = it.modattr('lulua.text', 'extractMediawiki')
    if not isinstance(f, FuncV):
        raise Gone('lulua.text.extractMediawiki')
    where = f'lulua/text.py:{f.node.lineno}'
    rule = 'every text of a dump is extracted, once'
    Args(it, ['dump.bz2'])
    ns = '{http://www.mediawiki.org/xml/export-0.10/}'
    E = ClassInfo('Elem', 'model.Elem', 'xml', None)
    E.bases = [Ext('xml.etree.ElementTree.Element')]
    it.exthooks['bz2.open'] = it.exthooks['bz2.BZ2File'] = lambda i, a, k: Sym('dump')
    spec = [('start', 'mediawiki', None), ('start', 'page', None), ('start', 'title', None), ('end', 'title', 'no'), ('start', 'text', None), ('end', 'text', ('a ', 'b')), ('end', 'page', 'no'),
            ('start', 'text', None), ('end', 'text', ('c\n"d" ا',)), ('start', 'text', None), ('end', 'text', ()), ('end', 'mediawiki', 'no')]

    def parse(i, a, k):
        evs = a[1] if len(a) > 1 else k.get('events')
        want = [x.v for x in i.concrete(evs)] if evs is not None else ['end']
        out = []
        for ev, tag, tx in spec:
            if ev not in want:
                continue
            e = i.new(Obj('inst', cls=E, attrs=dict(tag=Const(ns + tag), texts=mk(i, list(tx) if tx and ev == 'end' else [] if ev == 'end' else ['partial']),
                                                   text=Const(tx[0]) if tx and ev == 'end' and tx != 'no' else NONE)))
            out.append(App('tuple', Const(ev), e))
        return mk(i, out)
    it.exthooks['xml.etree.ElementTree.iterparse'] = parse
    it.methodhooks['itertext'] = lambda i, r, a, k: i.getattr(r, 'texts') if isinstance(r, Ref) and i.get(r).cls is E else NotImplemented
    it.methodhooks['clear'] = lambda i, r, a, k: NONE if isinstance(r, Ref) and i.get(r).cls is E else NotImplemented
    it.exthooks['json.dump'] = lambda i, a, k: (i.ev('json', what=i.freeze(a[0])), NONE)[1]
    it.exthooks['json.dumps'] = lambda i, a, k: App('json', i.freeze(a[0]))
    n = 0
    for p in it.analyse(lambda: it.call(f, [], {})):
        if p.outcome == 'raise':
            if not p.value.implicit:
                ck.violated(rule, where, f'fails with {p.value.exc}')
            continue
        if p.notes:
            raise Lost(str(p.notes[:2]))
        got, sep = [], []
        for e in p.trace:
            if e.kind == 'json':
                got.append(e.what)
            elif e.kind == 'mcall' and e.name == 'write' or e.kind == 'call' and e.name == 'sys.stdout.write' or e.kind == 'print':
                js = [x for a in e.args for x in subterms(a) if isapp(x, 'json')]
                got += [x.args[0] for x in js]
                sep.append(e)
        n += 1
        want = ['a b', 'c\n"d" ا', '']
        g = [x.v if isconst(x) else None for x in got]
        ck.count('documents', 3)
        ck.expect(None if None in g or not got else g == want or [x for x in g if x] == want[:2], rule, where, '', f'extracts {g}, should be {want}')
        ck.expect(len(sep) >= len(got) or None, 'every text is on a line of its own', where, '', f'{len(sep)} line ends')
    ck.expect(n > 0 or None, rule, where)
    ck.used(it)


def run(ck):
    for name in SEL:
        ck.part(name, selection, ck, name)
    ck.part('serialisation', serializer, ck)
    ck.part('books', epub, ck)
    ck.part('tei2', tei, ck)
    ck.part('opensubtitles', subtitles, ck)
    ck.part('plain items', simple, ck)
    ck.part('files', files, ck)
    ck.part('xml', xmlparse, ck)
    ck.part('markdown', markdown, ck)
    ck.part('mediawiki', mediawiki, ck)
