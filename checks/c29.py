"""C29: the report page."""
import os
import re
from html.parser import HTMLParser

import yaml
from jinja2 import Environment, nodes, meta
from jinja2.exceptions import TemplateSyntaxError
from jinja2 import filters as jfilters

from sa.args import Args
from sa.engine import ClassInfo
from fractions import Fraction
from sa.evalt import Ev
from checks import c33
from checks.ninja import Build
from checks.c33 import same, plainof, dumped, Small, command
from checks.out_common import *

EXPLANATION = ('The report command is interpreted on the statistics the analysis commands are found to write (themselves interpreted on unknown counts, for every '
               'layout and every corpus metadata file the build script hands over, with both hands used and with one hand unused). The context and filters it gives to the '
               'template are propagated through the parsed template, whose values stay terms over the unknown counts; every name, field, filter and key used must be '
               'there, no division by an unused hand may happen, and each figure on the abstract page is compared with the figure of the layout, hand, finger or corpus it '
               'stands with. Build targets are obtained by expanding the text of gen.sh; files, places and plots the page points to must be among them.')
ASSUMPTIONS = ['jinja2 and HTML as documented', 'counts are positive', 'contents of external resources (bokeh, style sheets) are not looked at']
TECHNIQUE = 'abstract interpretation of command and template with symbolic counts; cross-reference of page and build targets'

ENV = ClassInfo('Environment', 'jinja2.Environment', 'jinja2', None)
TPL = ClassInfo('Template', 'jinja2.Template', 'jinja2', None)
FD = ClassInfo('File', 'io.File', 'io', None)
ENV.bases, TPL.bases, FD.bases = [Ext('jinja2.Environment')], [Ext('jinja2.Template')], [Ext('io.File')]


def run(ck):
    ck.part('page', page, ck)
    ck.part('numbers', numbers, ck)
    ck.part('files', files, ck)


def page(ck):
    b = build()
    cs = corpora(b)
    names = layoutsof(b)
    both = [(c, Source(ck, c, 'corpusStats', 'yaml', meta_=m)) for c, m in cs]
    for what, combos in (('every hand used', BOTH), ('only one hand used', ONELEFT)):
        lays = [(l, Source(ck, l, 'layoutstats', 'pickled', combos)) for l in names]
        rendered(ck, what, both, lays, combos is BOTH)


def build():
    global BUILD
    if BUILD is None:
        BUILD = Build()
    return BUILD


BUILD = None


def corpora(b):
    """(name, metadata) of the corpora in the report, as the build lists them"""
    out = []
    for c in target(b)[3].get('corpus', '').split():
        f = b.var(c, {})
        if f not in b.targets:
            out.append((f, None))
            continue
        md = b.var(b.targets[f][3].get('metadata', ''), {})
        p = os.path.join(ROOT, md)
        if not md or not os.path.exists(p):
            raise Lost(f'metadata of {f}')
        out.append((os.path.basename(os.path.dirname(p)), constv(yaml.safe_load(open(p, encoding='utf8')))))
    return out


def target(b):
    """the report itself"""
    for o, t in b.targets.items():
        if 'lulua-report' in (b.command(o) or ''):
            return t
    raise Gone('lulua-report in gen.sh')


def layoutsof(b):
    """layouts whose statistics the report gets"""
    out = []
    for f in b.var(target(b)[3].get('layoutstats', ''), {}).split():
        if f not in b.targets:
            raise Lost(f'{f} is not built')
        m = re.search(r'(?:-l|--layout)[ =](\S+)', b.command(f) or '')
        if not m:
            raise Lost(f'layout of {f}')
        out.append(m[1])
    return out


def templatefile(ps):
    e = [x for x in ps.trace if x.kind == 'page']
    env = [x for x in ps.trace if x.kind == 'environment']
    if len(e) != 1 or not isconst(e[0].name):
        raise Lost(f'{len(e)} pages')
    l = env[-1].kw.get('loader') if env else None
    if isapp(l, 'call') and str(l.args[0]).endswith('PackageLoader') and all(isconst(x) for x in l.args[1]) and l.args[1]:
        pkg, path = [x.v for x in l.args[1]][:2] if len(l.args[1]) > 1 else (l.args[1][0].v, 'templates')
        if any(k.startswith(('block_', 'variable_', 'comment_', 'line_')) for k in env[-1].kw):
            raise Lost('template syntax')
        return e[0], os.path.join(pkg.replace('.', '/'), path, e[0].name.v)
    raise Lost(f'template loader {l!r}'[:100])


def rendered(ck, what, cs, lays, full):
    docs = {f'{n}.yaml': [s.data, None] for n, s in cs}
    # documents may also arrive concatenated
    first = list(docs)[:2]
    docs[first[0]] = docs[first[0]][:1] + docs.pop(first[1]) if len(first) > 1 else docs[first[0]]
    stats = {f'{n}.pickle': s.data for n, s in lays}
    c = Ctx(docs, stats)
    f, ps = c.run(['-c', *docs, '-l', *reversed(stats)])
    where = f'lulua/report.py:{f.node.lineno}'
    ck.used(c.it)
    rule = 'the page is made from the statistics given'
    if len(ps) != 1:
        ck.undecided(rule, where, f'{len(ps)} paths')
        return
    if ps[0].outcome != 'return':
        ck.violated(rule, where, f'{what}: fails with {ps[0].value!r}'[:200])
        return
    ev, tf = templatefile(ps[0])
    full_ = os.path.join(ROOT, tf)
    ck.expect(os.path.exists(full_), 'the template exists', where, tf, f'{tf} does not exist')
    if not os.path.exists(full_):
        return
    src = open(full_, encoding='utf8').read()
    try:
        pg = Page(src, ev)
    except TemplateSyntaxError as e:
        # jinja resolves filters while parsing
        ck.violated('everything the page uses is provided', f'{tf}:{e.lineno}', e.message)
        return
    rule = 'everything the page uses is provided'
    for line, n in pg.names():
        ck.violated(rule, f'{tf}:{line}', f'{n} is not provided')
    for n in {x.name for x in pg.tree.find_all(nodes.Filter)}:
        ck.expect(n in pg.filters or n in jfilters.FILTERS, rule, tf, f'filter {n}', f'filter {n} is not provided')
    ck.count('names used', len(meta.find_undeclared_variables(pg.tree)))
    pg.run()
    for line, w in pg.faults:
        ck.violated(rule, f'{tf}:{line}', f'{what}: {w}'[:250])
    if not pg.faults:
        ck.holds(rule, tf, f'{what}: {len(pg.out)} pieces')
    doc = Doc(pg)
    shown = [x for x in ps[0].trace if x.kind == 'shown' or x.kind in ('print', 'mcall') and 'rendered' in repr(x.d)]
    ck.expect(bool(shown) or None, 'the page is written', where, '', 'the page is not written')
    ck.part('figures', figures, ck, tf, doc, dict((n, s.w) for n, s in lays), full)
    if full:
        ck.part('tables', tables, ck, tf, doc, cs)
        ck.part('links', links, ck, tf, doc)


# ---- document

VOID = {'img', 'br', 'hr', 'meta', 'link', 'input', 'source', 'area', 'base', 'col', 'embed', 'wbr'}
MARK = re.compile('\ue000(\\d+)\ue001')


class Doc(HTMLParser):
    """elements of the abstract page: values stand in the text as marks"""

    def __init__(self, pg):
        super().__init__(convert_charrefs=True)
        self.values, text = [], []
        for kind, v, line in pg.out:
            if kind == 'text':
                text.append(v)
            else:
                text.append(f'\ue000{len(self.values)}\ue001')
                self.values.append((v, line))
        self.stack, self.items, self.ids, self.refs, self.n = [], [], [], [], 0
        self.script = []
        self.feed(''.join(text))
        self.close()

    def handle_starttag(self, tag, attrs):
        a = {k: v or '' for k, v in attrs}
        self.n += 1
        el = (self.n, tag, a)
        if 'id' in a:
            self.ids.append(a['id'])
        for k in ('href', 'src'):
            if k in a:
                self.refs.append((a[k], tag))
        self.items.append(('start', el, tuple(self.stack)))
        for k, v in a.items():
            for m in MARK.finditer(v):
                self.items.append(('value', self.values[int(m[1])], tuple(self.stack) + (el,), k))
        if tag not in VOID:
            self.stack.append(el)

    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, -1, -1):
            if self.stack[i][1] == tag:
                self.stack = self.stack[:i]
                return

    def handle_data(self, data):
        if self.stack and self.stack[-1][1] == 'script':
            self.script.append(data)
        for m in MARK.finditer(data):
            self.items.append(('value', self.values[int(m[1])], tuple(self.stack), None))
        if data.strip():
            self.items.append(('text', data, tuple(self.stack)))


def inside(stack, tag):
    return next((e for e in reversed(stack) if e[1] == tag), None)


def labels(t):
    return {x.name.split('/')[0] for x in subterms(t) if isinstance(x, Sym) and '/' in x.name}


def number(t):
    """the number a displayed term shows, or None"""
    while True:
        if isapp(t, 'fmt') and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif isapp(t, 'filter'):
            t = t.args[1]
        elif isapp(t, 'item') and isapp(t.args[0], 'filter'):
            t = t.args[0].args[1]
        else:
            return t


def figures(ck, tf, doc, lays, full):
    """numbers shown for a layout are those of that layout, hand and finger"""
    rule = 'figures shown with a layout are those of that layout'
    shares = 'the shares shown for hands and fingers are those of that hand and finger'
    any_ = next(iter(lays.values()))
    hname = {n.lower(): n for n in any_.hands}
    fname = {n.lower(): n for n in any_.fingers}
    heat = {}
    for x in doc.items:
        if x[0] == 'start' and x[1][1] == 'img':
            m = re.fullmatch(r'(.*)-heat\.svg', x[1][2].get('src', ''))
            fig = inside(x[2], 'figure')
            if m and fig:
                heat[fig[0]] = m[1]
    seen = {}
    for x in doc.items:
        if x[0] != 'value':
            continue
        (t, line), stack, attr = x[1], x[2], x[3]
        ls = labels(t)
        if not ls & set(lays):
            # constants of a hand that is not used
            if not isconst(number(t)):
                continue
        fig = inside(stack, 'figure')
        lay = heat.get(fig[0]) if fig else None
        ck.count('figures shown')
        if lay and ls:
            ck.expect(ls == {lay}, rule, f'{tf}:{line}', f'{lay}', f'figure of {", ".join(sorted(ls))} is shown with {lay}')
        if fig is None and len(ls) == 1 and full:
            # shares quoted in the text
            w = lays[next(iter(ls))]
            cnt = lambda *ts: w.total('c', lambda y: w.texts.get((y[0], y[1])) in [Const(q) for q in ts])
            imp = mul(cnt(c33.AH, c33.AB, c33.YH, c33.WH), c33.inv(w.total('c')))
            on = mul(cnt(c33.AH, c33.AB), c33.inv(cnt(c33.AH, c33.AB, c33.A)))
            v = number(t)
            ok = same(v, mul(Const(100), imp)) or same(v, on)
            ck.expect(ok, 'shares quoted in the text are those of the statistics', f'{tf}:{line}', f'{v!r}'[:80], f'shows {v!r}, should be {mul(Const(100), imp)!r} or {on!r}'[:300])
        if lay is None or lay not in lays:
            continue
        w = lays[lay]
        classes = [c for e in stack for c in e[2].get('class', '').split()]
        h = [c for c in classes if c in hname]
        fs = [c for c in classes if c in fname]
        v = number(t)
        tot = w.total('b')
        hand = lambda n: w.total('b', lambda k: c33.FINGER[k][0] == n)
        if len(set(h)) == 1 and len(set(fs)) <= 1:
            n = hname[h[0]]
            if fs:
                m = fname[fs[0]]
                part = w.total('b', lambda k: c33.FINGER[k] == (n, m))
                if attr is None:
                    want = mul(Const(100), mul(part, c33.inv(tot)))
                else:
                    want = mul(Const(100), mul(part, c33.inv(hand(n)))) if hand(n) != Const(0) else Const(0)
                name = f'{n.lower()} {m.lower()}'
            else:
                want, name = mul(Const(100), mul(hand(n), c33.inv(tot))), n.lower()
            seen.setdefault(lay, set()).add((name, attr))
            ck.expect(same(v, want), shares, f'{tf}:{line}', f'{lay} {name} {attr or "text"}', f'{lay}: {name} shows {v!r}, should be {want!r}'[:300])
        elif 'asymm' in classes:
            want = mul(sub(hand('LEFT'), hand('RIGHT')), c33.inv(tot))
            ck.expect(same(v, want), 'the asymmetry shown is the share of the left hand minus that of the right', f'{tf}:{line}', lay, f'{lay}: shows {v!r}'[:200])
    if full and seen:
        want = {(f'{a} {b}', None) for a in hname for b in fname} | {(a, None) for a in hname}
        for lay in heat.values():
            if lay in lays:
                miss = want - seen.get(lay, set())
                ck.expect(not miss or (None if len(miss) == len(want) else False), 'every hand and finger of a layout is shown', tf, lay, f'{lay}: {sorted(a for a, _ in miss)} missing')


def tables(ck, tf, doc, cs):
    """the corpus tables"""
    rule = 'the corpus table lists every corpus with its own numbers'
    heads = {'words': 'words', 'characters': 'characters', '\u0643\u0644\u0627\u0645': 'words', '\u062d\u0631\u0648\u0641': 'characters'}
    ws = {n: s.w for n, s in cs}
    tabs = {}
    for x in doc.items:
        st = x[2] + ((x[1],) if x[0] == 'start' else ())
        t = inside(st, 'table')
        if t:
            tabs.setdefault(t[0], []).append(x)
    for n, xs in tabs.items():
        if not any(x[0] == 'value' and labels(x[1][0]) & set(ws) for x in xs):
            continue
        cols, rows, order = [], {}, []
        cells = {}
        for x in xs:
            if x[0] == 'start' and x[1][1] == 'th':
                cols.append('')
            elif x[0] == 'text' and inside(x[2], 'th'):
                cols[-1] += x[1].strip().lower()
            elif x[0] == 'start' and x[1][1] == 'td':
                tr = inside(x[2], 'tr')
                rows.setdefault(tr[0] if tr else 0, []).append([x[1], [], [], x[2]])
                cells[x[1][0]] = rows[tr[0] if tr else 0][-1]
            else:
                td = inside(x[2], 'td')
                if td and td[0] in cells:
                    cells[td[0]][1 if x[0] == 'value' else 2].append(x)
        idx = {heads[c]: i for i, c in enumerate(cols) if c in heads}
        if set(idx) != {'words', 'characters'}:
            ck.undecided(rule, tf, f'columns {cols}')
            continue
        seen = []
        total = False
        for r in rows.values():
            if len(r) != len(cols):
                ck.undecided(rule, tf, f'{len(r)} cells below {len(cols)} columns')
                continue
            en = any(e[2].get('lang') == 'en' for e in r[0][3])
            texts = [''.join(x[1] for x in c[2] if x[0] == 'text').strip() for c in r]
            name = None
            for c, s in cs:
                nm = s.data.get(Const('source'), {}).get(Const('name'), {}) if isinstance(s.data.get(Const('source')), dict) else {}
                if any(isconst(v) and v.v == texts[0] for v in nm.values()):
                    name = c
                    own = nm.get(Const('en' if en else 'ar'))
                    ck.expect(own == Const(texts[0]), 'names and units are in the language of the text', tf, c, f'{c}: {texts[0]} where {own!r} is expected')
            for col, tag in (('words', 'w'), ('characters', 'c')):
                ck.count('table cells')
                vals = r[idx[col]][1]
                nums = [(v, number(v[1][0])) for v in vals]
                nums = [(v, t) for v, t in nums if labels(t)]
                if not nums:
                    ck.undecided(rule, tf, f'{texts[0]}: {col}')
                    continue
                want = Const(0)
                for c in ([name] if name else ws):
                    want = add(want, ws[c].total(tag))
                for v, t in nums:
                    ck.expect(same(t, want), rule if name else 'the last row sums up all corpora', f'{tf}:{v[1][1]}', f'{name or "total"} {col}',
                              f'{name or "total"}: {col} shows {t!r}, should be {want!r}'[:300])
                    lang = {x.args[2][0].v if x.args[2] and isconst(x.args[2][0]) else 'en' for x in subterms(v[1][0]) if isapp(x, 'filter') and x.args[0] == 'approx'}
                    ck.expect(not lang or (lang == {'en' if en else 'ar'}), 'names and units are in the language of the text', f'{tf}:{v[1][1]}', col, f'units in {lang}')
            if name:
                seen.append(name)
            else:
                total = True
        ck.expect(sorted(seen) == sorted(ws), rule, tf, 'all corpora', f'lists {seen}, given {list(ws)}')


def links(ck, tf, doc):
    """files and places the page points to"""
    b = build()
    rep = [o for o in b.targets if 'lulua-report' in (b.command(o) or '')]
    base = os.path.dirname(rep[0])
    css = set()
    for ref, tag in doc.refs:
        if re.match(r'[a-z]+:|//', ref) or '\ue000' in ref:
            continue
        ck.count('links')
        if ref.startswith('#'):
            ck.expect(ref[1:] in doc.ids, 'links within the page lead somewhere', tf, ref, f'{ref}: there is no such place')
            continue
        path = os.path.normpath(os.path.join(base, ref.split('#')[0].split('?')[0]))
        ck.expect(path in b.targets, 'files the page refers to are built', tf, ref, f'{ref} is not built')
        if ref.endswith('.css') and path in b.targets:
            css.update(b.targets[path][1])
    for x in doc.items:
        if x[0] == 'text' and inside(x[2], 'kbd') and re.fullmatch(r'[\w-]+\.(txt|bat|exe|reg|dll)', x[1].strip()):
            ck.count('links')
            ck.expect(any(os.path.basename(o) == x[1].strip() for o in b.targets), 'files the page refers to are built', tf, x[1].strip(), f'{x[1].strip()} is not part of any download')
    for c in css:
        p = os.path.join(ROOT, c)
        if not os.path.exists(p):
            continue
        for m in re.finditer(r'url\(\s*[\'"]?([^\'")]+)', open(p, encoding='utf8').read()):
            if not re.match(r'[a-z]+:|//', m[1]):
                ck.count('links')
                ck.expect(os.path.normpath(os.path.join(base, m[1])) in b.targets, 'files the page refers to are built', c, m[1], f'{m[1]} is not built')
    # plots
    script = ''.join(doc.script)
    m = re.search(r'=\s*\[([^\]]*)\]', script)
    names = re.findall(r'[\'"]([^\'"]+)[\'"]', m[1]) if m and "+ '.json'" in script.replace('"', "'") else None
    for n in names or ():
        ck.count('plots')
        ck.expect(os.path.join(base, n + '.json') in b.targets, 'files the page refers to are built', tf, n + '.json', f'{n}.json is not built')
        if "+ '-div'" in script.replace('"', "'"):
            ck.expect(n + '-div' in doc.ids, 'plots have a place on the page', tf, n, f'{n}-div is not on the page')
    if names is not None:
        for i in doc.ids:
            if i.endswith('-div'):
                ck.expect(i[:-4] in names, 'plots have a place on the page', tf, i, f'nothing is loaded into {i}')


# ---- build description

def files(ck):
    b = build()
    for o in b.double:
        ck.violated('every file is built once', 'gen.sh', f'{o} is built twice')
    layouts = set(b.shell.vars.get('layouts', '').split()) or set(layoutsof(b))
    tmp = [b.vars.get(v, '?') for v in ('builddir', 'reportdir', 'tempdir', 'statsdir')]
    for o, (rule, ins, deps, env, order) in b.targets.items():
        ck.count('targets')
        if rule != 'phony':
            ck.expect(rule in b.rules, 'every target has a rule', 'gen.sh', o, f'{o}: rule {rule} does not exist')
        for d in deps + order:
            if any(d.startswith(t + '/') for t in tmp):
                ck.expect(d in b.targets, 'what a target needs is built', 'gen.sh', f'{o}: {d}', f'{o} needs {d}, which is not built')
            elif d.startswith('lulua/'):
                ck.expect(os.path.exists(os.path.join(ROOT, d)), 'what a target needs exists', 'gen.sh', d, f'{o} needs {d}, which does not exist')
        for x in re.findall(r'(?:%s)/\S+' % '|'.join(re.escape(t) for t in tmp), (b.command(o) or '')):
            x = x.strip("'\"")
            if x != o and rule not in ('phony',) and x not in deps and x not in order and x not in b.targets:
                ck.violated('what a target needs is built', 'gen.sh', f'{o} reads {x}, which is not built')
    # every file named after a layout is made from that layout alone
    rule = 'files named after a layout are made from that layout'
    for o in b.targets:
        name = o[len(b.vars.get('builddir', '')) + 1:]
        mine = [l for l in layouts if re.search(r'(^|/)%s($|[-./])' % re.escape(l), name)]
        if len(mine) != 1:
            continue
        ck.count('layout files')
        for d in b.closure(o):
            cmd = b.command(d) or ''
            used = set(re.findall(r'lulua-(?:render|analyze|optimize)\s(?:.*?\s)?(?:-l|--layout)[ =](\S+)', cmd)) | set(re.findall(r'lulua-write\s+(\S+)', cmd))
            ck.expect(used <= set(mine), rule, 'gen.sh', f'{o}: {d}', f'{o}: {cmd} uses {sorted(used - set(mine))}'[:250])
        for x in b.closure(o)[1:]:
            other = [l for l in layouts if re.search(r'(^|/)%s($|[-./])' % re.escape(l), x[len(b.vars.get('builddir', '')) + 1:])]
            ck.expect(set(other) <= set(mine), rule, 'gen.sh', f'{o}: {x}', f'{o} is made from {x}')


# ---- numbers

def numbers(ck):
    it = interp(start=True)
    it.exthooks = dict(it.exthooks)
    it.exthooks['decimal.Decimal'] = lambda i, a, k: a[0] if a else Const(0)
    it.unrollwhile = 8
    rule = 'large numbers are shown with the right unit'
    f = it.modattr('lulua.report', 'approx')
    if isinstance(f, FuncV):
        where = f'lulua/report.py:{f.node.lineno}'
        for lang, units in (('en', ['', 'thousand', 'million', 'billion']), ('ar', ['', '\u0623\u0644\u0641', '\u0645\u0644\u064a\u0648\u0646', '\u0645\u0644\u064a\u0627\u0631']), (None, ['', 'thousand', 'million', 'billion'])):
            i = Sym('i', 'int')
            ps = it.analyse(lambda: it.call(f, [i] + ([Const(lang)] if lang else []), {}))
            ck.used(it)
            for n in sorted({b * 1000 ** e + d for b in (1, 2, 9, 10, 99, 123, 500, 999) for e in range(5) for d in (0, -1, 1, 51, 949, 10 ** 8 + 7)} | {0, 999949, 999951, 999949999, 999950001, 999949999999, 999950000001, 123456789012345}):
                if n < 0:
                    continue
                ck.count('numbers')
                k = 0
                while round(Fraction(n, 1000 ** k), 1) >= 1000 and k < 3:
                    k += 1
                want = round(Fraction(n, 1000 ** k), 1)
                e = Ev({i: n})
                try:
                    p = e.pick(ps)
                    if len(p) != 1:
                        raise Lost(f'{len(p)} paths for {n}')
                    p = p[0]
                    if p.outcome != 'return':
                        ck.violated(rule, where, f'{n}: fails with {p.value!r}'[:150])
                        continue
                    v = p.value
                    if not isapp(v, 'tuple') or len(v.args) != 2:
                        raise Lost(f'{v!r}'[:80])
                    num, unit = e.ev(v.args[0]), e.ev(v.args[1])
                except Lost as x:
                    ck.undecided(rule, where, str(x))
                    break
                ck.expect(abs(Fraction(num) - want) < Fraction(1, 10 ** 6) and unit == units[k], rule, where, f'{n} {lang}', f'{n} is shown as {float(num)} {unit!r}, should be {float(want)} {units[k]!r}')
    f = it.modattr('lulua.report', 'arabnum')
    if isinstance(f, FuncV):
        where = f'lulua/report.py:{f.node.lineno}'
        for d in [str(i) for i in range(10)] + [',', '.', ' ', '-', '%', 'a', '0123456789,.', '  1,234.5', '', '\u0663', '999']:
            ps = it.analyse(lambda: it.call(f, [Const(d)], {}))
            want = ''.join({',': '\u066c', '.': '\u066b'}.get(c, chr(0x660 + int(c)) if c in '0123456789' else c) for c in d)
            ck.count('numbers')
            rule = 'arabic text shows arabic-indic digits'
            if len(ps) != 1 or not isconst(ps[0].value):
                ck.undecided(rule, where, f'{d!r}: {ps[0].value!r}'[:100])
                continue
            ck.expect(ps[0].value.v == want, rule, where, d, f'{d!r} becomes {ps[0].value.v!r}, should be {want!r}')
    f = it.modattr('lulua.report', 'numspace')
    if isinstance(f, FuncV):
        where = f'lulua/report.py:{f.node.lineno}'
        for d in (' ', '  1.5', '1', '', 'a b c'):
            ps = it.analyse(lambda: it.call(f, [Const(d)], {}))
            ck.count('numbers')
            rule = 'numbers are padded with spaces as wide as digits'
            if len(ps) != 1 or not isconst(ps[0].value):
                ck.undecided(rule, where, f'{d!r}: {ps[0].value!r}'[:100])
                continue
            ck.expect(ps[0].value.v == d.replace(' ', '\u2007'), rule, where, d, f'{d!r} becomes {ps[0].value.v!r}')
    f = it.modattr('lulua.report', 'fraction')
    if isinstance(f, FuncV):
        where = f'lulua/report.py:{f.node.lineno}'
        rule = 'fractions are shown as numerator over denominator'
        it.exthooks['fractions.Fraction'] = lambda i, a, k: App('frac', *a) if len(a) == 1 else NotImplemented
        it.methodhooks = dict(it.methodhooks)
        it.methodhooks['limit_denominator'] = lambda i, r, a, k: App('limited', r, *(a or k.values())) if isapp(r, 'frac') else NotImplemented
        n = Sym('n', 'float')
        for args, m in (([n], Const(10)), ([n, Const(7)], Const(7))):
            ps = it.analyse(lambda: it.call(f, args, {}))
            ck.count('numbers')
            if len(ps) != 1:
                ck.undecided(rule, where, f'{len(ps)} paths')
                continue
            x = App('limited', App('frac', n), m)
            want = [f'{x!r}.numerator', '\u2044', f'{x!r}.denominator']
            got = [t.v if isconst(t) else repr(t.args[0] if isapp(t, 'str') else t) for t in (ps[0].value.args if isapp(ps[0].value, 'concat') else ())]
            known = got and all(y in want or isapp(t, 'str') and isapp(t.args[0], 'attr') for t, y in zip(ps[0].value.args, got))
            ck.expect(got == want or (None if not known else False), rule, where, f'{m!r}', f'{ps[0].value!r}'[:150])


class Ctx:
    """what the report command hands to its template"""

    def __init__(self, corpora, layouts):
        """corpora: file -> list of documents (Python data with terms); layouts: file -> statistics"""
        self.it = it = interp(start=True)
        self.corpora, self.layouts = corpora, layouts
        it.exthooks = x = dict(it.exthooks)
        x['open'] = x['io.open'] = self.open
        x['jinja2.Environment'] = x['jinja2.environment.Environment'] = self.env
        x['yaml.safe_load_all'] = x['yaml.load_all'] = x['yaml.full_load_all'] = self.docs
        x['yaml.safe_load'] = x['yaml.load'] = x['yaml.full_load'] = self.sole
        x['pickle.load'] = self.load
        m = it.methodhooks = dict(it.methodhooks)
        m['get_template'] = m['select_template'] = self.template
        m['stream'] = m['render'] = m['generate'] = self.page
        m['dump'] = self.dump
        m['__enter__'] = lambda i, r, a, k: r if self.is_(r, FD) else NotImplemented
        m['__exit__'] = lambda i, r, a, k: NONE if self.is_(r, FD) else NotImplemented
        m['close'] = lambda i, r, a, k: NONE if self.is_(r, FD) else NotImplemented
        m['read'] = lambda i, r, a, k: r if self.is_(r, FD) else NotImplemented

    def is_(self, r, c):
        return isinstance(r, Ref) and self.it.get(r).kind == 'inst' and self.it.get(r).cls is c

    def open(self, it, a, k):
        n = a[0] if a else k.get('file')
        if not isconst(n) or n.v not in self.corpora and n.v not in self.layouts:
            return NotImplemented
        return it.new(Obj('inst', cls=FD, attrs={'name': n}))

    def name(self, r):
        if not self.is_(r, FD):
            raise Lost(f'reads {r!r}'[:80])
        return self.it.get(r).attrs['name'].v

    def heap(self, v):
        it = self.it
        if isinstance(v, dict):
            ks = [(k if isinstance(k, T) else App('tuple', *k) if isinstance(k, tuple) else Const(k), self.heap(x)) for k, x in v.items()]
            return it.new(Obj('dict', segs=tuple(seg1(App('kv', k, x)) for k, x in ks)))
        if isinstance(v, (list, tuple)):
            return it.new(Obj('list', segs=tuple(seg1(self.heap(x)) for x in v)))
        return v if isinstance(v, T) else Const(v)

    def docs(self, it, a, k):
        n = self.name(a[0])
        if n not in self.corpora:
            raise Lost('statistics read as corpus')
        return self.heap(self.corpora[n])

    def sole(self, it, a, k):
        """files of several documents are rejected by the functions for one"""
        n = self.name(a[0])
        if n not in self.corpora:
            raise Lost('statistics read as corpus')
        if len(self.corpora[n]) > 1:
            raise it.err('yaml.composer.ComposerError')
        return self.heap(self.corpora[n][0]) if self.corpora[n] else NONE

    def load(self, it, a, k):
        n = self.name(a[0])
        if n not in self.layouts:
            raise Lost('corpus read as statistics')
        return self.heap(self.layouts[n])

    def env(self, it, a, k):
        d = lambda: it.new(Obj('dict'))
        it.ev('environment', kw=dict(k))
        return it.new(Obj('inst', cls=ENV, attrs=dict(filters=d(), globals=d(), tests=d())))

    def template(self, it, r, a, k):
        if not self.is_(r, ENV):
            return NotImplemented
        return it.new(Obj('inst', cls=TPL, attrs=dict(env=r, name=a[0] if a else k.get('name', NONE))))

    def page(self, it, r, a, k):
        if not self.is_(r, TPL):
            return NotImplemented
        o = it.get(r).attrs
        e = it.get(o['env']).attrs
        ctx = {}
        for x in a:
            ctx.update({kk.v: v for kk, v in plainof(it, x).items()})
        ctx.update({kk: plainof(it, v) for kk, v in k.items()})
        gl, fl = plainof(it, e['globals']), plainof(it, e['filters'])
        it.ev('page', name=o['name'], ctx=ctx, globals=gl, filters=fl, tests=plainof(it, e['tests']))
        return App('rendered', it.tag(it.count('page')))

    def dump(self, it, r, a, k):
        if not isapp(r, 'rendered'):
            return NotImplemented
        it.ev('shown', what=r, to=a[0] if a else k.get('fp', NONE))
        return NONE

    def run(self, cmdline):
        Args(self.it, cmdline)
        f = self.it.modattr('lulua.report', 'render')
        if not isinstance(f, FuncV):
            raise Gone('lulua.report.render')
        return f, self.it.analyse(lambda: self.it.call(f, [], {}))



def constv(v):
    """terms of shipped data"""
    if isinstance(v, dict):
        return {Const(k): constv(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return tuple(constv(x) for x in v)
    return Const(v if isinstance(v, (str, int, float, bool, type(None))) else str(v))


class Labelled(Small):
    """small world whose counts carry the name of their source"""
    label = ''

    def amount(self, tag, name):
        return Sym(f'{self.label}/{tag}:{name}', 'int')


BOTH = c33.COMBOS
ONELEFT = [(0, 'Dl4', 0), (0, 'Cl1', 0), (0, 'Fl_space', 0)]
ALEF = c33.HAMZA


class Source:
    """statistics of one layout or corpus, as the analysis command writes them"""

    def __init__(self, ck, label, func, how, combos=BOTH, meta_=None):
        it = interp()
        it.anyorder = True
        self.w = w = Labelled(it, ALEF)
        w.label = label
        if meta_ is not None:
            it.exthooks = dict(it.exthooks)

            def heap(v):
                if isinstance(v, dict):
                    return w.dct([(k, heap(x)) for k, x in v.items()])
                return w.lst([heap(x) for x in v]) if isinstance(v, tuple) else v
            it.exthooks['yaml.safe_load'] = it.exthooks['yaml.load'] = lambda i, a, k: heap(meta_)
        opts = dict(metadata=Sym('metadata')) if meta_ is not None else {}
        self.where, ps = command(it, w, func, stats=dict(combos=combos), layout=label, keyboard='kb', **opts)
        ck.used(it)
        ps = [p for p in ps if p.outcome == 'return']
        if len(ps) > 1:
            # counts are positive
            e = Ev({v: i + 2 for i, v in enumerate(w.n.values())})
            ps = e.pick(ps)
        if len(ps) != 1:
            raise Lost(f'{func}: {len(ps)} paths')
        self.data = dumped(ps[0], how)
        if not isinstance(self.data, dict):
            raise Lost(f'{func} writes {self.data!r}'[:100])


# ---- template

class Undef:
    def __init__(self, what):
        self.what = what


class Macro:
    def __init__(self, node, scope):
        self.node, self.scope = node, scope


class Bound_:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


SAFE = {'safe', 'string', 'trim', 'e', 'escape', 'forceescape', 'indent', 'striptags', 'wordwrap'}
PERM = {'sort', 'list', 'reverse', 'unique'}


class Page:
    """abstract rendering: pieces of text and value terms; values are terms or nested Python data of terms"""

    def __init__(self, src, ev):
        self.ev = ev
        self.filters = {k.v for k in ev.filters}
        self.tests = {k.v for k in ev.tests}
        env = Environment()
        for f in self.filters:
            env.filters.setdefault(f, lambda *a: None)
        for f in self.tests:
            env.tests.setdefault(f, lambda *a: True)
        self.tree = env.parse(src)
        for x in self.tree.find_all(nodes.Filter):
            env.filters.setdefault(x.name, lambda *a: None)
        for x in self.tree.find_all(nodes.Test):
            env.tests.setdefault(x.name, lambda *a: True)
        self.out, self.faults, self.line = [], [], 0
        self.provided = set(ev.ctx) | {k.v for k in ev.globals}
        self.builtin = set(Environment().globals)

    def fault(self, what):
        if (self.line, what) not in self.faults:
            self.faults.append((self.line, what))

    def run(self):
        top = dict({k.v: v for k, v in self.ev.globals.items()}, **self.ev.ctx)
        self.body(self.tree.body, [top])
        return self

    def body(self, ns, sc):
        for n in ns:
            self.line = getattr(n, 'lineno', self.line)
            m = getattr(self, 's_' + type(n).__name__, None)
            if m is None:
                raise Lost(f'template:{n.lineno}: {type(n).__name__}')
            m(n, sc)

    # statements

    def s_Output(self, n, sc):
        for x in n.nodes:
            if isinstance(x, nodes.TemplateData):
                self.out.append(('text', x.data, x.lineno))
                continue
            self.line = x.lineno
            v = self.expr(x, sc)
            self.emit(v, x.lineno)

    def emit(self, v, line):
        if isinstance(v, Undef):
            self.fault(f'{v.what} is not provided')
            return
        if isinstance(v, list):         # rendered macro
            self.out.extend(v)
        elif isconst(v):
            self.out.append(('text', str(v.v), line))
        else:
            self.out.append(('value', v, line))

    def s_Macro(self, n, sc):
        sc[-1][n.name] = Macro(n, list(sc))

    def s_Assign(self, n, sc):
        v = self.expr(n.node, sc)
        if isinstance(n.target, nodes.Name):
            sc[-1][n.target.name] = v
        elif isinstance(n.target, nodes.Tuple) and isinstance(v, tuple):
            for t, x in zip(n.target.items, v):
                sc[-1][t.name] = x
        elif isinstance(n.target, nodes.Tuple) and isinstance(v, T):
            for i, t in enumerate(n.target.items):
                sc[-1][t.name] = App('item', v, Const(i))
        else:
            raise Lost(f'template:{n.lineno}: assignment')

    def s_AssignBlock(self, n, sc):
        keep, self.out = self.out, []
        self.body(n.body, sc + [{}])
        got, self.out = self.out, keep
        sc[-1][n.target.name] = got

    def s_With(self, n, sc):
        new = {}
        for t, v in zip(n.targets, n.values):
            new[t.name] = self.expr(v, sc)
        self.body(n.body, sc + [new])

    def s_If(self, n, sc):
        if self.truth(self.expr(n.test, sc)):
            return self.body(n.body, sc)
        for e in n.elif_:
            if self.truth(self.expr(e.test, sc)):
                return self.body(e.body, sc)
        self.body(n.else_, sc)

    def s_For(self, n, sc):
        xs = self.items(self.expr(n.iter, sc))
        done = []
        if n.test is not None:
            ys = []
            for x in xs:
                new = {}
                self.bind(n.target, x, new)
                if self.truth(self.expr(n.test, sc + [new])):
                    ys.append(x)
            xs = ys
        for i, x in enumerate(xs):
            new = {'loop': {Const(k): Const(v) for k, v in dict(first=i == 0, last=i == len(xs) - 1, index=i + 1, index0=i, length=len(xs), revindex=len(xs) - i, revindex0=len(xs) - i - 1).items()}}
            self.bind(n.target, x, new)
            self.body(n.body, sc + [new])
        if not xs:
            self.body(n.else_, sc)

    def s_FilterBlock(self, n, sc):
        self.body(n.body, sc + [{}])

    def s_CallBlock(self, n, sc):
        raise Lost(f'template:{n.lineno}: call block')

    def s_Scope(self, n, sc):
        self.body(n.body, sc + [{}])

    def s_Block(self, n, sc):
        self.body(n.body, sc + [{}])

    def s_ExprStmt(self, n, sc):
        self.expr(n.node, sc)

    def bind(self, t, x, new):
        if isinstance(t, nodes.Name):
            new[t.name] = x
        elif isinstance(x, tuple) and len(x) == len(t.items):
            for a, b in zip(t.items, x):
                self.bind(a, b, new)
        elif isinstance(x, T):
            for i, a in enumerate(t.items):
                self.bind(a, App('item', x, Const(i)), new)
        else:
            raise Lost('template: loop target')

    # values

    def truth(self, v):
        if isinstance(v, Undef):
            return False
        if isinstance(v, (dict, tuple, list)):
            return bool(v)
        if isconst(v):
            return bool(v.v)
        if isinstance(v, (Macro, Bound_)):
            return True
        if isinstance(v, Enum):
            return True
        if isinstance(v, (Sym, App)) and typ(v) in ('int', 'float', 'num') or isapp(v, 'poly'):
            return True            # counts are positive
        raise Lost(f'template:{self.line}: condition {v!r}'[:120])

    def items(self, v):
        if isinstance(v, Undef):
            self.fault(f'{v.what} is not provided')
            return ()
        if isinstance(v, dict):
            return tuple(v)
        if isinstance(v, (tuple, list)):
            return tuple(v)
        if isinstance(v, ClassV) and v.info.kind == 'enum':
            return tuple(m for m in v.info.members)
        if isinstance(v, T) and not isconst(v):
            return (App('each', v),)
        if isconst(v) and isinstance(v.v, str):
            return tuple(Const(c) for c in v.v)
        raise Lost(f'template:{self.line}: loop over {v!r}'[:100])

    def expr(self, n, sc):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Lost(f'template:{n.lineno}: {type(n).__name__}')
        return m(n, sc)

    def e_Const(self, n, sc):
        return Const(n.value)

    def e_TemplateData(self, n, sc):
        return Const(n.data)

    def e_Name(self, n, sc):
        for s in reversed(sc):
            if n.name in s:
                return s[n.name]
        if n.name in self.builtin:
            return Ext('jinja2.' + n.name)
        return Undef(n.name)

    def e_Tuple(self, n, sc):
        return tuple(self.expr(x, sc) for x in n.items)
    e_List = e_Tuple

    def e_Dict(self, n, sc):
        return {self.key(self.expr(p.key, sc)): self.expr(p.value, sc) for p in n.items}

    def key(self, k):
        return tuple(self.key(x) for x in k) if isinstance(k, tuple) else k

    def lookup(self, o, k, attr):
        name = k.v if isinstance(k, Const) else None
        if isinstance(o, Undef):
            self.fault(f'{o.what} is not provided')
            return Undef(f'{o.what}.{name}')
        if isinstance(o, dict):
            if attr and name in ('get', 'items', 'keys', 'values'):
                return Bound_(o, name)
            k = self.key(k)
            if k in o:
                return o[k]
            return Undef(f'{self.show(k)} among {", ".join(self.show(x) for x in list(o)[:8])}')
        if isinstance(o, tuple):
            if isinstance(name, int) and -len(o) <= name < len(o):
                return o[name]
            return Undef(f'element {name}')
        if isinstance(o, Enum):
            if name == 'name':
                return Const(o.name)
            if name == 'value':
                return Const(o.value) if not isinstance(o.value, T) else o.value
            return Undef(f'{o!r}.{name}')
        if isinstance(o, ClassV) and o.info.kind == 'enum':
            for m in o.info.members:
                if m.name == name:
                    return m
            return Undef(f'{o!r}.{name}')
        if isconst(o) and not isinstance(o.v, str):
            return Undef(f'{o.v!r}.{name}')
        if isconst(o) and isinstance(o.v, str):
            return Bound_(o, name) if hasattr(str, str(name)) else Undef(f'{o.v!r}.{name}')
        if isinstance(o, T):
            return App('item', o, k) if not attr else App('attr', o, name)
        raise Lost(f'template:{self.line}: {o!r}.{name}'[:100])

    def show(self, k):
        return '(' + ', '.join(self.show(x) for x in k) + ')' if isinstance(k, tuple) else repr(k)

    def e_Getattr(self, n, sc):
        return self.lookup(self.expr(n.node, sc), Const(n.attr), True)

    def e_Getitem(self, n, sc):
        if isinstance(n.arg, nodes.Slice):
            v = self.expr(n.node, sc)
            b = [None if x is None else self.expr(x, sc) for x in (n.arg.start, n.arg.stop, n.arg.step)]
            if isinstance(v, tuple) and all(x is None or isconst(x) for x in b):
                return v[slice(*[None if x is None else x.v for x in b])]
            raise Lost(f'template:{n.lineno}: slice')
        return self.lookup(self.expr(n.node, sc), self.expr(n.arg, sc), False)

    def args(self, n, sc):
        if n.dyn_args is not None or n.dyn_kwargs is not None:
            raise Lost(f'template:{n.lineno}: arguments')
        return [self.expr(a, sc) for a in n.args], {k.key: self.expr(k.value, sc) for k in n.kwargs}

    def e_Call(self, n, sc):
        f = self.expr(n.node, sc)
        a, k = self.args(n, sc)
        self.line = n.lineno
        if isinstance(f, Macro):
            new = {}
            ps = [p.name for p in f.node.args]
            for i, p in enumerate(ps):
                if i < len(a):
                    new[p] = a[i]
                elif p in k:
                    new[p] = k[p]
                else:
                    j = i - len(ps) + len(f.node.defaults)
                    new[p] = self.expr(f.node.defaults[j], f.scope) if j >= 0 else Undef(p)
            keep, self.out = self.out, []
            self.body(f.node.body, f.scope + [new])
            got, self.out = self.out, keep
            return got
        if isinstance(f, Bound_):
            o = f.obj
            if isinstance(o, dict):
                if f.name == 'get':
                    return o.get(self.key(a[0]), a[1] if len(a) > 1 else NONE)
                if f.name == 'items':
                    return tuple((x, y) for x, y in o.items())
                return tuple(o) if f.name == 'keys' else tuple(o.values())
            if all(isconst(x) for x in a) and all(isconst(x) for x in k.values()) and (f.name != 'format' or all(isinstance(x.v, str) for x in a)):
                try:
                    r = getattr(o.v, f.name)(*[x.v for x in a], **{x: y.v for x, y in k.items()})
                except Exception as e:
                    self.fault(f'{o.v!r}.{f.name} fails: {e}')
                    return Undef(f'{o.v!r}.{f.name}')
                return Const(r) if not isinstance(r, (list, tuple)) else tuple(Const(x) for x in r)
            for x in a + list(k.values()):
                if isinstance(x, Undef):
                    self.fault(f'{x.what} is not provided')
            return App('fmt', o, tuple(x for x in a + list(k.values()) if isinstance(x, T)))
        if isinstance(f, Undef):
            self.fault(f'{f.what} is not provided')
            return Undef(f.what + '()')
        if isinstance(f, T):
            if f == Ext('jinja2.dict'):
                return {Const(x): y for x, y in k.items()}
            if f == Ext('jinja2.range') and all(isconst(x) for x in a):
                return tuple(Const(i) for i in range(*[x.v for x in a]))
            if f == Ext('jinja2.namespace'):
                raise Lost('template: namespace')
            if isapp(f, 'attr') and isconst(f.args[0]) is False:
                return App('mcalled', f, tuple(x for x in a if isinstance(x, T)))
        raise Lost(f'template:{n.lineno}: call')

    def e_Filter(self, n, sc):
        v = self.expr(n.node, sc) if n.node is not None else Const('')
        a, k = self.args(n, sc)
        self.line = n.lineno
        if n.name not in self.filters and n.name not in jfilters.FILTERS:
            self.fault(f'filter {n.name} is not provided')
            return Undef(n.name)
        if n.name in ('default', 'd'):
            return (a[0] if a else Const('')) if isinstance(v, Undef) else v
        for x in [v] + a:
            if isinstance(x, Undef):
                self.fault(f'{x.what} is not provided')
                return Undef(x.what)
        if n.name in self.filters:
            if not isinstance(v, T):
                raise Lost(f'template:{n.lineno}: filter {n.name} of {v!r}'[:100])
            return App('filter', n.name, v, tuple(x for x in a + list(k.values()) if isinstance(x, T)))
        if n.name in PERM:
            if n.name == 'sort' and 'attribute' in k and isconst(k['attribute']):
                for x in self.items(v):
                    for part in k['attribute'].v.split(','):
                        y = x
                        for s in part.strip().split('.'):
                            y = self.lookup(y, Const(int(s)) if s.isdigit() else Const(s), False)
                        if isinstance(y, Undef):
                            self.fault(f'{y.what} is not provided')
            xs = self.items(v)
            return tuple(reversed(xs)) if n.name == 'reverse' else xs
        if n.name == 'dictsort' and isinstance(v, dict):
            return tuple(v.items())
        if n.name == 'items' and isinstance(v, dict):
            return tuple(v.items())
        if n.name == 'format':
            if all(isconst(x) and isinstance(x.v, str) for x in a) and isconst(v):
                try:
                    return Const(v.v % tuple(x.v for x in a))
                except Exception as e:
                    self.fault(f'format fails: {e}')
                    return Undef('format')
            return App('fmt', v, tuple(a))
        if n.name in SAFE:
            return v
        if n.name in ('length', 'count') and isinstance(v, (tuple, dict)):
            return Const(len(v))
        if n.name == 'sum':
            t = Const(0)
            for x in self.items(v):
                y = x
                at = k.get('attribute') or (a[0] if a else None)
                if at is not None:
                    for s in at.v.split('.'):
                        y = self.lookup(y, Const(s), False)
                if isinstance(y, Undef):
                    self.fault(f'{y.what} is not provided')
                    return y
                t = add(t, y)
            return t
        if n.name in ('first', 'last'):
            xs = self.items(v)
            return xs[0 if n.name == 'first' else -1] if xs else Undef(n.name)
        if n.name == 'attr' and isconst(a[0]):
            return self.lookup(v, a[0], True)
        if isconst(v) and isinstance(v.v, str) and n.name in ('lower', 'upper', 'title', 'capitalize', 'replace') and all(isconst(x) for x in a):
            return Const(getattr(v.v, n.name)(*[x.v for x in a]))
        if isinstance(v, T):
            return App('filter', n.name, v, tuple(x for x in a if isinstance(x, T)))
        raise Lost(f'template:{n.lineno}: filter {n.name}')

    def e_Test(self, n, sc):
        v = self.expr(n.node, sc)
        if n.name == 'defined':
            return Const(not isinstance(v, Undef))
        if n.name == 'undefined':
            return Const(isinstance(v, Undef))
        if n.name == 'none':
            return Const(isconst(v) and v.v is None)
        if n.name == 'mapping':
            return Const(isinstance(v, dict))
        raise Lost(f'template:{n.lineno}: test {n.name}')

    def e_CondExpr(self, n, sc):
        if self.truth(self.expr(n.test, sc)):
            return self.expr(n.expr1, sc)
        return self.expr(n.expr2, sc) if n.expr2 is not None else Const('')

    def e_And(self, n, sc):
        v = self.expr(n.left, sc)
        return self.expr(n.right, sc) if self.truth(v) else v

    def e_Or(self, n, sc):
        v = self.expr(n.left, sc)
        return v if self.truth(v) else self.expr(n.right, sc)

    def e_Not(self, n, sc):
        return Const(not self.truth(self.expr(n.node, sc)))

    def e_Compare(self, n, sc):
        v = self.expr(n.expr, sc)
        if len(n.ops) != 1:
            raise Lost(f'template:{n.lineno}: comparison')
        o, w = n.ops[0].op, self.expr(n.ops[0].expr, sc)
        if o in ('in', 'notin') and isinstance(w, (dict, tuple)):
            r = self.key(v) in w
            return Const(r if o == 'in' else not r)
        if isinstance(v, (Const, Enum)) and isinstance(w, (Const, Enum)):
            if o in ('eq', 'ne'):
                return Const((v == w) == (o == 'eq'))
            if isconst(v) and isconst(w):
                return Const(dict(lt=v.v < w.v, gt=v.v > w.v, lteq=v.v <= w.v, gteq=v.v >= w.v)[o])
        if isconst(w) and w.v == 0 and isinstance(v, T) and o in ('gt', 'ne', 'eq', 'lteq', 'gteq', 'lt'):
            self.truth(v)
            return Const(o in ('gt', 'ne', 'gteq'))
        raise Lost(f'template:{n.lineno}: comparison')

    def num(self, n, sc):
        v = self.expr(n, sc)
        if isinstance(v, Undef):
            self.fault(f'{v.what} is not provided')
            return Sym('undefined', 'int')
        if not isinstance(v, T):
            raise Lost(f'template:{n.lineno}: arithmetic')
        return v

    def e_Add(self, n, sc):
        return add(self.num(n.left, sc), self.num(n.right, sc))

    def e_Sub(self, n, sc):
        return sub(self.num(n.left, sc), self.num(n.right, sc))

    def e_Mul(self, n, sc):
        return mul(self.num(n.left, sc), self.num(n.right, sc))

    def e_Div(self, n, sc):
        a, b = self.num(n.left, sc), self.num(n.right, sc)
        self.line = n.lineno
        if isconst(b) and b.v == 0:
            self.fault('divides by zero')
            return Sym('undefined', 'int')
        return div(a, b)

    def e_Neg(self, n, sc):
        return neg(self.num(n.node, sc))

    def e_Concat(self, n, sc):
        vs = [self.expr(x, sc) for x in n.nodes]
        if all(isconst(x) for x in vs):
            return Const(''.join(str(x.v) for x in vs))
        return App('fmt', Const('~'), tuple(x for x in vs if isinstance(x, T)))

    def names(self):
        """names used on any path that nothing provides"""
        tested = {x.node.name for x in self.tree.find_all(nodes.Test) if x.name in ('defined', 'undefined') and isinstance(x.node, nodes.Name)}
        tested |= {x.node.name for x in self.tree.find_all(nodes.Filter) if x.name in ('default', 'd') and isinstance(x.node, nodes.Name)}
        und = meta.find_undeclared_variables(self.tree)
        out = []
        for n in sorted(und - tested - self.provided):
            line = next((x.lineno for x in self.tree.find_all(nodes.Name) if x.name == n and x.ctx == 'load'), 0)
            out.append((line, n))
        return out
