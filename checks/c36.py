"""C36: keyboards drawn as SVG."""
import re
import unicodedata

from checks.out_common import *
from checks import c20
from sa.docs import Docs

EXPLANATION = ('The drawing code is interpreted abstractly with the shipped keyboard and every shipped layout (and layouts of further shapes) as constants, '
               'with and without heat map; the drawing becomes a constant element tree. Caps, labels, colours, markers and highlights are read from the '
               'tree and compared with keyboard and layout for every key and layer. The display text is computed the same way for every combining, '
               'format, control and space character of Unicode, and for strings of them.')
ASSUMPTIONS = ['hand and finger of a key are right (C20)', 'svgwrite writes the elements it is given']
ARROWS = {1: '⭡', 2: '⭧', 3: '⭨'}
INV = {'\t': '⭾', '\n': '↳', ' ': '\u2423', '\b': '⌦', '\u202f': '[NNBSP]'}


def disp(t):
    """what is shown for a text"""
    if all(unicodedata.combining(c) for c in t):
        return '\u25cc' + t
    if len(t) == 1 and unicodedata.category(t) == 'Cf':
        try:
            words = unicodedata.name(t).replace('-', ' ').split(' ')
        except ValueError:
            return t
        # the word TO is left out between others
        out = [x for i, x in enumerate(words) if not (x == 'TO' and 0 < i < len(words) - 1)]
        return '[' + ''.join(x[0] for x in out) + ']'
    return INV.get(t, t)


def run(ck):
    kbs, lays = definitions('keyboards'), definitions('layouts')
    ck.part('display text', display, ck)
    for n, (kp, kb) in kbs.items():
        todo = [(ln, lay) for ln, (path, lay) in lays.items() if not isinstance(lay, Exception) and lay['layout']]
        try:
            todo += list(shapes(kb))
        except Lost as e:
            ck.undecided('layout shapes', kp, e)
        for i, (ln, lay) in enumerate(todo):
            ck.part(f'drawing of {ln}', drawing, ck, n, kb, ln, lay, None)
        names = [b['name'] for r, h, p, b in buttons(kb)]
        heat = {x: v for x, v in zip(names, (3, 7, 8, 0, 1, 0, 2))}
        ck.part('heat map', drawing, ck, n, kb, todo[0][0], todo[0][1], heat)
        ck.part('heat map', drawing, ck, n, kb, todo[0][0], todo[0][1], {x: 1 for x in names})
        kb2 = resized(kb)
        for ln, lay in todo[:1] + todo[-1:]:
            ck.part(f'drawing of {ln}', drawing, ck, n, kb2, ln, lay, None)
        ck.part('heat map', drawing, ck, n, kb2, todo[0][0], todo[0][1], heat)
        # counts of very different size
        ck.part('heat map', drawing, ck, n, kb, todo[0][0], todo[0][1], {x: v for x, v in zip(names, (1, 2000, 3, 0, 12, 700, 1999, 45))})
        ck.part('heat map', drawing, ck, n, kb, todo[0][0], todo[0][1], {x: v for x, v in zip(names[3:], (987654321, 123456, 123456789, 5000000))})
        # shape of a heat map that was made for another keyboard
        ck.part('heat map', drawing, ck, n, kb, todo[0][0], todo[0][1], {names[5]: 4, 'other': 8, names[0]: 2})


def display(ck):
    it = interp()
    f = it.modattr('lulua.util', 'displayText')
    if f is None:
        raise Gone('lulua.util.displayText')
    where = f'lulua/util.py:{f.node.lineno}'
    chars = [chr(c) for c in range(0x110000) if not 0xd800 <= c < 0xe000]
    todo = [c for c in chars if unicodedata.category(c) in ('Cf', 'Cc', 'Zs') or unicodedata.combining(c)]
    todo += ['a', '\u0627', '\u0640', 'ab', 'a\u0301', '\u0301a', '\u0301\u0308', '\u200c\u200d', '\u06af\u200e', '  ', '\u0651\u064e', '\U0001f600', '[', '[]', '\u25cc', '\u0903']
    n = 0
    for t in todo:
        ps = it.analyse(lambda: it.call(f, [Const(t)], {}))
        ck.count('texts')
        if len(ps) != 1 or ps[0].outcome == 'return' and not isconst(ps[0].value):
            raise Lost(f'display of {t!r}: {ps[0].value!r}'[:150])
        p = ps[0]
        v = p.value.v if p.outcome == 'return' else p.value.exc
        if v != disp(t):
            n += 1
            if n <= 5:
                ck.violated('every text is shown by visible characters', where, f'{t!r} (U+{ord(t[0]):04X}) is shown as {v!r}, not {disp(t)!r}'.encode('unicode_escape').decode())
    if not n:
        ck.holds('every text is shown by visible characters', where, f'{len(todo)} texts')
    ps = it.analyse(lambda: it.call(f, [NONE], {}))
    v = ps[0].value if len(ps) == 1 and ps[0].outcome == 'return' else None
    ck.expect(v is NONE or None if v is None else v == NONE, 'no text is shown as no text', where, '', f'None is shown as {v!r}')
    ck.used(it)


def num(x):
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x.replace('px', ''))
        except ValueError:
            pass
    raise Lost(f'number {x!r}'[:100])


def point(x):
    if not isinstance(x, tuple) or len(x) != 2:
        raise Lost(f'point {x!r}'[:100])
    return num(x[0]), num(x[1])


def literal(x):
    """text in which numbers were inserted"""
    if isapp(x, 'concat') or isapp(x, 'str'):
        out = ''
        for a in x.args if isapp(x, 'concat') else [x]:
            a = a.args[0] if isapp(a, 'str') else a
            if not isconst(a):
                return x
            out += str(a.v)
        return out
    return x


def walk(n, up=()):
    yield n, up
    for k in n.kids:
        yield from walk(k, up + (n,))


def classes(n):
    c = n.attrib.get('class', '')
    if not isinstance(c, str):
        raise Lost(f'class {c!r}'[:80])
    return c.split()


def drawing(ck, kn, kb, ln, lay, heat):
    it = interp()
    w = Shipped(it, kb, lay)
    Docs(it)
    hm = NONE
    if heat is not None:
        hm = lambda: w.dct([(Const('total'), Const(sum(heat.values()))), (Const('buttons'), w.dct([(Const(k), Const(v)) for k, v in heat.items()]))])
        ln = ln + ' with heat map'
    fn, ps = export(it, w, 'renderSvg', keyboard=kn, layout=lay['name'], output='OUT', style=Sym('style'), heatmap=hm)
    where = f'lulua/render.py:{fn.node.lineno}'
    cl = cls(it, 'render.Renderer')
    if cl is not None:
        where = f'lulua/render.py:{cl.node.lineno}'
    ck.used(it)
    if len(ps) != 1:
        raise Lost(f'{len(ps)} paths: {[p.facts[:3] for p in ps[:3]]}'[:200])
    p = ps[0]
    if p.outcome == 'raise':
        if not (len(w.mods) <= 4 and all(len(m.args) < 2 for ms in w.mods for m in ms)):
            return
        ck.expect(False, 'the keyboard can be drawn', where, ln, f'drawing {ln} fails: {p.value.exc!r}'[:200])
        return
    ds = [e for e in flat(p.trace) if e.kind == 'document']
    if len(ds) != 1:
        raise Lost(f'{len(ds)} documents')
    if isconst(ds[0].file):
        ck.expect(ds[0].file.v == 'OUT', 'the drawing is written to the file named on the command line', where, ln, f'written to {ds[0].file.v!r}')
    ck.count('drawings')
    root = ds[0].tree
    if any('transform' in n.attrib for n in root.all()):
        raise Lost('transformed elements')
    caps, shadows, labels, circles, lines = [], [], [], [], []
    for n, up in walk(root):
        cs = classes(n)
        ups = [c for u in up for c in classes(u)]
        if n.tag == 'rect' and 'cap' in ups:
            caps.append((point(n.attrib.get('insert')), point(n.attrib.get('size')), cs))
        elif n.tag == 'rect' and 'cap-shadow' in ups:
            shadows.append((point(n.attrib.get('insert')), point(n.attrib.get('size')), cs))
        elif n.tag == 'text' and 'shadow' not in cs:
            labels.append((point(n.attrib.get('insert')), [(k.text, classes(k)) for k in n.kids if k.tag == 'tspan'] or [(n.text, cs)], 'modifier' in ups))
        elif n.tag == 'circle':
            circles.append((point(n.attrib.get('center')), num(n.attrib.get('r')), n.attrib.get('style'), n.attrib.get('opacity')))
        elif n.tag == 'line' and 'shadow' not in cs:
            lines.append((point(n.attrib.get('start')), point(n.attrib.get('end'))))
    # caps
    rule = 'every key is drawn once, in its row and order, with its width'
    rows = [[b for half in row for b in half] for row in kb['rows']]
    if not ck.expect(len(caps) == len(w.keys), rule, where, ln, f'{ln}: {len(caps)} caps, keyboard has {len(w.keys)} keys'):
        return
    ys = sorted({c[0][1] for c in caps})
    got = [sorted((c for c in caps if c[0][1] == y), key=lambda c: c[0]) for y in ys]
    if not ck.expect([len(r) for r in got] == [len(r) for r in rows], rule, where, ln, f'{ln}: rows of {[len(r) for r in got]} caps, keyboard has {[len(r) for r in rows]}'):
        return
    h = caps[0][1][1]
    cap = {}
    for r, (bs, cs) in enumerate(zip(rows, got)):
        for b, c in zip(bs, cs):
            cap[w.named[b['name']]] = c
            ck.expect(abs(c[1][0] - b.get('width', 1) * h) < 1e-6 * h and abs(c[1][1] - h) < 1e-6, rule, where, f'{ln} {b["name"]}', f'{b["name"]}: size {c[1]}, width {b.get("width", 1)}')
        gaps = {round(b[0][0] - a[0][0] - a[1][0], 3) for a, b in zip(cs, cs[1:])}
        ck.expect(all(g > 0 for g in gaps), 'caps do not overlap', where, f'{ln} row {r}', f'{ln} row {r}: gaps {sorted(gaps)}')
        starts = round(cs[0][0][0], 3)
        ck.expect(starts == round(got[0][0][0][0], 3), 'rows start at the same margin', where, f'{ln} row {r}', f'{ln} row {r} starts at {starts}')
    ck.expect(all(b - a > h for a, b in zip(ys, ys[1:])), 'caps do not overlap', where, ln, f'{ln}: rows at {ys}, height {h}')
    W, H = point(root.attrib.get('size'))
    out = [k.name for k, c in cap.items() if c[0][0] < 0 or c[0][1] < 0 or c[0][0] + c[1][0] > W or c[0][1] + c[1][1] > H]
    ck.expect(not out, 'all caps lie inside the drawing', where, ln, f'{ln}: {out} outside {W}x{H}')

    def inside(pt):
        ks = [k for k, c in cap.items() if c[0][0] <= pt[0] <= c[0][0] + c[1][0] and c[0][1] <= pt[1] <= c[0][1] + c[1][1]]
        return ks[0] if len(ks) == 1 else None
    # labels
    shown = {k: [] for k in cap}
    for pt, spans, ismod in labels:
        k = inside(pt)
        rule = 'every label lies on a cap'
        if k is None:
            ck.violated(rule, where, f'{ln}: label {spans} at {pt}')
            continue
        c = cap[k]
        off = (round(pt[0] - c[0][0] - c[1][0] / 2, 3), round(pt[1] - c[0][1] - c[1][1] / 2, 3))
        shown[k].append((off, ''.join(t for t, _ in spans if isinstance(t, str)), [x for _, cs in spans for x in cs], ismod))
    # position of a layer: from the layer style
    pos = {}
    for k, ls in shown.items():
        for off, t, cs, ismod in ls:
            for x in cs:
                m = re.fullmatch(r'layer-(\d+)', x)
                if m and not ismod:
                    pos.setdefault(int(m[1]) - 1, set()).add(off)
    if any(len(v) != 1 for v in pos.values()):
        ck.violated('labels of a layer are at the same place of each cap', where, f'{ln}: {pos}')
        return
    pos = {i: next(iter(v)) for i, v in pos.items()}
    ck.expect(len(set(pos.values())) == len(pos), 'different layers are at different places', where, ln, f'{ln}: {pos}')
    single = {}
    for i, ms in enumerate(w.mods):
        for m in ms:
            if len(m.args) == 1:
                single.setdefault(m.args[0], i)
    # plausible corners: layers 1 and 2 left, 3 and 4 right; 1 and 4 below 2 and 3
    for a, b, ax, lt in ((0, 1, 1, False), (3, 2, 1, False), (0, 3, 0, True), (1, 2, 0, True)):
        if a in pos and b in pos:
            ck.expect((pos[a][ax] < pos[b][ax]) == lt, 'layers run clockwise from the bottom left corner', where, f'{ln} {a} {b}', f'{ln}: {pos}')
    for k in w.keys:
        ck.count('keys')
        ls = shown[k]
        if k in single:
            want = ARROWS.get(single[k])
            rule = 'modifier keys show the arrow of their layer'
            ck.expect([t for _, t, _, _ in ls] == [want] and all(x[3] for x in ls), rule, where, f'{ln} {k.name}', f'{ln} {k.name}: {[t for _, t, _, _ in ls]}, switches to layer {single[k]}')
            text = [want]
        else:
            text = [t.get(k.name) for t in w.tx][:4]
            want, have = {}, {}
            for i, t in enumerate(text):
                if t is not None:
                    d = disp(t)
                    ctl = d.startswith('[') and d.endswith(']')
                    want[i] = (d[1:-1] if ctl else d, ctl)
            rev = {v: i for i, v in pos.items()}
            for off, t, cs, ismod in ls:
                lays = [int(m[1]) - 1 for x in cs for m in [re.fullmatch(r'layer-(\d+)', x)] if m]
                i = lays[0] if lays else rev.get(off)
                if i is None:
                    # place without a styled label anywhere
                    i = next((j for j in want if j not in pos and want[j][1]), off)
                have[i] = (t, 'controlchar' in cs) if i not in have else 'twice'
            rule = 'every key shows the text of each layer'
            ck.expect(have == want, rule, where, f'{ln} {k.name}', f'{ln} {k.name}: {have}, layout has {want}')
        used = any(text)
        c = cap[k]
        ck.expect(('unused' in c[2]) == (not used), 'caps are marked unused if they have no text', where, f'{ln} {k.name}', f'{ln} {k.name}: class {c[2]}, text {text}')
        sh = [s for s in shadows if abs(s[0][0] - c[0][0]) < 15 and abs(s[0][1] - c[0][1]) < 15 and s[1] == c[1]]
        rule = 'used caps are coloured by finger and hand'
        ck.expect(len(sh) == (1 if used else 0), rule, where, f'{ln} {k.name}', f'{ln} {k.name}: {len(sh)} shadows')
        if used and len(sh) == 1:
            f = finger(w, k)
            if f is None:
                raise Lost('finger')
            ck.expect(set(sh[0][2]) == set(f), rule, where, f'{ln} {k.name}', f'{ln} {k.name}: {sh[0][2]}, typed by {f}')
    # markers
    mk = {inside(a) for a, b in lines if inside(a) == inside(b)}
    want = {k for k in w.keys if w.data[k][3].get('isMarked')}
    ck.expect(mk == want and len(lines) == len(want), 'marked keys have a marker', where, ln, f'{ln}: markers on {sorted(k.name if k else "?" for k in mk)}, marked {sorted(k.name for k in want)}')
    # heat
    hot = {}
    for ct, r, style, op in circles:
        k = inside(ct)
        c = cap.get(k)
        style, op = literal(style), literal(op)
        ck.expect(k is not None and abs(ct[0] - c[0][0] - c[1][0] / 2) < 1 and abs(ct[1] - c[0][1] - h / 2) < 1 and r <= min(c[1]) / 2, 'highlights lie on their caps', where, ln, f'{ln}: highlight at {ct}, radius {r}')
        m = re.search(r'(?:^|;)\s*opacity:\s*([0-9.e+-]+)', style) if isinstance(style, str) else None
        if not m and op is None:
            raise Lost(f'opacity {style!r}'[:150])
        v = float(m[1]) if m else num(op)
        if k is not None:
            hot[k.name] = v if k.name not in hot else None
    if heat is None:
        ck.expect(not hot, 'without heat map nothing is highlighted', where, ln, f'{ln}: {hot}')
        return
    mx = max(heat.values())
    want = {k: v / mx for k, v in heat.items() if v and k in w.named}
    for k in sorted(set(want) | set(hot)):
        a, b = hot.get(k), want.get(k)
        ck.expect(a is not None and b is not None and abs(a - b) < 1e-6, 'highlights are proportional to the presses of the key', where, f'{ln} {k}', f'{k}: opacity {a}, expected {b}')


FINGER = {}


def finger(w, k):
    """names of finger and hand the program gives to a key"""
    key = k.name
    if key not in FINGER:
        it = interp()
        w2 = Shipped(it, w.kbdata)
        w2.laydata = dict(name='x')
        f = method(it, 'writer.Writer', 'getHandFinger')
        if f is None:
            raise Gone('lulua.writer.Writer.getHandFinger')

        for x in w2.keys:
            def go():
                return it.call(f, [c20.writer(it, w2), x], {})
            ps = it.analyse(go)
            FINGER[x.name] = None
            if len(ps) == 1 and ps[0].outcome == 'return':
                v = ps[0].value
                xs = it.concrete(v) if not isapp(v, 'tuple') else v.args
                if xs and len(xs) == 2 and all(isinstance(y, Enum) for y in xs):
                    FINGER[x.name] = (f'hand-{xs[0].name.lower()}', f'finger-{xs[1].name.lower()}')
    return FINGER[key]
