"""C25: layouts exported for other systems."""
import re
import unicodedata
from xml.etree import ElementTree as ET

from checks.out_common import *
from sa.docs import Docs

EXPLANATION = ('Each exporter is interpreted abstractly with the shipped keyboard and every shipped layout as constants, and with layouts of further shapes '
               '(two to four layers, two-key modifiers, strings, characters beyond the basic plane or with a meaning in XML); what it writes becomes a constant '
               'text or element tree. That is read the way the target system reads it and compared with the layout for every layer, modifier set and key.')
ASSUMPTIONS = ['key codes of the shipped keyboard are right (C22)', 'xml.etree serialises element trees correctly',
               'a layout an exporter rejects with an error is not supported by it; layouts of single characters and single-key modifiers must be accepted']
FORMATS = {}


def fmt(name, plain=True):
    def f(g):
        FORMATS[name] = (g, plain)
        return g
    return f


def run(ck):
    kbs, lays = definitions('keyboards'), definitions('layouts')
    for n, (kp, kb) in kbs.items():
        if isinstance(kb, Exception):
            ck.undecided('keyboard can be read', kp, kb)
            continue
        todo = [(ln, lay) for ln, (path, lay) in lays.items() if not isinstance(lay, Exception) and lay['layout']]
        try:
            todo += list(shapes(kb))
        except Lost as e:
            ck.undecided('layout shapes', kp, e)
        for func, (f, plain) in FORMATS.items():
            for ln, lay in todo:
                ck.part(f'{func} {ln}', one, ck, func, f, plain, n, kb, ln, lay)


def one(ck, func, f, plain, n, kb, ln, lay):
    it = interp()
    w = Shipped(it, kb, lay)
    Docs(it)
    fn, ps = export(it, w, func, keyboard=n, layout=ln, output='OUT')
    where = f'lulua/render.py:{fn.node.lineno}'
    ck.used(it)
    simple = all(len(t) == 1 for l in w.tx for t in l.values()) and all(len(m.args) <= 1 for ms in w.mods for m in ms) and len(w.mods) > 1
    for p in ps:
        if p.outcome == 'raise':
            if simple:
                ck.expect(False if len(ps) == 1 else None, 'layouts of single characters and single-key modifiers can be exported', where, f'{func} {ln}',
                          f'{func}: export of {ln} fails: {p.value.exc!r}'[:200])
            continue
        if p.facts:
            raise Lost(f'depends on {p.facts!r}'[:200])
        ck.count('documents')
        f(ck, w, p, ln, where)


def sole(ck, p, where, ln):
    """the text written, by any number of writes, to the output file"""
    out = written(p)
    names = [r for r, t in out]
    if len(names) != 1:
        if not names and not any(e.kind in ('document', 'mcall') for e in flat(p.trace)):
            ck.violated('the export is written', where, f'{ln}: nothing is written')
            return None
        raise Lost(f'files written: {names!r}'[:200])
    r = names[0]
    r = r.args[0] if isapp(r, 'entered') else r
    if isapp(r, 'call') and r.args[0] == 'open' and r.args[1] and isconst(r.args[1][0]):
        a = r.args[1]
        ck.expect(a[0].v == 'OUT', 'the export is written to the file named on the command line', where, ln, f'written to {a[0].v!r}')
        mode = a[1].v if len(a) > 1 and isconst(a[1]) else 'r' if len(a) == 1 else None
        if isinstance(mode, str):
            ck.expect('w' in mode or 'x' in mode, 'the export replaces the file', where, ln, f'opened with mode {mode!r}')
    return out[0][1]


def tree(ck, p, where, ln):
    ds = [e for e in flat(p.trace) if e.kind == 'document']
    if len(ds) != 1:
        raise Lost(f'{len(ds)} documents')
    if isconst(ds[0].file):
        ck.expect(ds[0].file.v == 'OUT', 'the export is written to the file named on the command line', where, ln, f'written to {ds[0].file.v!r}')
    return ds[0].tree


def same(ck, got, want, rule, where, ln, show=repr):
    """two mappings; report the differences"""
    for k in want:
        g = got.get(k)
        ck.count('entries')
        if g != want[k]:
            ck.violated(rule, where, f'{ln} {show(k)}: {g!r}, layout has {want[k]!r}')
    extra = [k for k in got if k not in want]
    if extra:
        ck.violated('nothing else is written', where, f'{ln} {show(extra[0])}: {got[extra[0]]!r}')
    if got == want:
        ck.holds(rule, where, f'{ln}: {len(want)} entries')


def code(w, k, plat):
    s = w.data[k][3].get('scancode') or {}
    c = s.get(plat)
    return tuple(c) if isinstance(c, list) else c


SYMS = {'\t': 'Tab', '\n': 'Return', ' ': 'space', '\b': 'BackSpace'}
COLUMN = {0: 0, 1: 1, 2: 2, 3: 4, 4: 3, 5: 6, 6: 7}
MODSYM = {1: 'Shift', 2: 'ISO_Group_Shift', 3: 'ISO_Level3_Shift'}


@fmt('renderXmodmap')
def xmodmap(ck, w, p, ln, where):
    text = sole(ck, p, where, ln)
    if text is None:
        return
    got, mods = {}, {}
    codes = []
    for line in text.split('\n'):
        m = re.fullmatch(r'keycode\s+(\d+)\s*=\s*(.*)', line)
        if not m:
            if line.strip() and not line.startswith('!') and not re.match(r'(clear|add|remove)\s+(Lock|Shift|Control|Mod[1-5])\b', line):
                raise Lost(f'line {line!r}')
            continue
        c, syms = int(m[1]), m[2].split()
        codes.append(c)
        got[c] = syms
    ck.expect(len(codes) == len(set(codes)), 'every key code is assigned once', where, ln, f'{ln}: codes assigned twice')
    modkeys = {}
    for i, ms in enumerate(w.mods):
        for m in ms:
            for k in m.args:
                modkeys[code(w, k, 'xorg')] = i
    want, have = {}, {}
    for k in w.keys:
        c = code(w, k, 'xorg')
        if c in modkeys:
            continue
        for i, t in enumerate(w.tx):
            s = t.get(k.name)
            if s is not None and len(s) != 1:
                continue
            if s:
                want[c, i] = (SYMS.get(s), ord(s))
    for c, syms in got.items():
        if c in modkeys:
            continue
        for col, s in enumerate(syms):
            if s == 'NoSymbol':
                continue
            i = {v: a for a, v in COLUMN.items()}.get(col)
            m = re.fullmatch(r'U([0-9A-Fa-f]{4,6})', s)
            have[c, i] = (None, int(m[1], 16)) if m else (s, {v: ord(a) for a, v in SYMS.items()}.get(s))
    strings = {(code(w, k, 'xorg'), i) for i, t in enumerate(w.tx) for k in w.keys if len(t.get(k.name, 'x')) != 1}
    have = {k: v for k, v in have.items() if k not in strings}
    same(ck, have, want, 'every key carries its text in the column of the layer', where, ln, lambda k: f'key code {k[0]}, layer {k[1]}')
    for c, i in modkeys.items():
        syms = got.get(c, [])
        pre = MODSYM.get(i)
        if pre is None:
            continue
        ck.expect(bool(syms) and syms[0].startswith(pre), 'every modifier key switches to its layer', where, f'{ln} {c}', f'{ln}: key code {c}, modifier of layer {i}, is {syms}')


@fmt('renderKeyman')
def keyman(ck, w, p, ln, where):
    text = sole(ck, p, where, ln)
    if text is None:
        return
    got, want = {}, {}
    for line in text.split('\n'):
        if not line.startswith('+'):
            continue
        m = re.fullmatch(r'\+\s*\[(.*)\]\s*>\s*(.*)', line)
        if not m:
            raise Lost(f'line {line!r}')
        ks = m[1].split()
        if not re.fullmatch(r'(U\+[0-9A-Fa-f]{4,6}\s*)*', m[2]):
            raise Lost(f'line {line!r}')
        k = (frozenset(ks[:-1]), ks[-1])
        t = ''.join(chr(int(x[2:], 16)) for x in m[2].split())
        if got.get(k, t) != t:
            got[k] = (got[k], t)
        else:
            got[k] = t
    for i, ms in enumerate(w.mods):
        for m in ms:
            mc = frozenset(code(w, k, 'keyman') for k in m.args)
            for k in w.keys:
                t = w.tx[i].get(k.name)
                if t is not None:
                    want.setdefault((mc, code(w, k, 'keyman')), t)
    same(ck, got, want, 'every layer, modifier set and key has a rule', where, ln, lambda k: '+'.join(sorted(k[0]) + [str(k[1])]))


@fmt('renderKeylayout')
def keylayout(ck, w, p, ln, where):
    data = sole(ck, p, where, ln)
    if data is None:
        return
    if isinstance(data, str):
        data = data.encode('utf8')
    rule = 'the document is well-formed'
    m = re.match(rb'<\?xml version="(1\.[01])"', data)
    one1 = bool(m) and m[1] == b'1.1'
    raw = re.findall(rb'[\x00-\x08\x0b\x0c\x0e-\x1f]', data)
    ck.expect(not raw, rule, where, ln, f'{ln}: contains control characters {raw[:3]}')
    if raw:
        return
    if one1:
        # control characters by reference
        data = data.replace(b'version="1.1"', b'version="1.0"', 1)
        data = re.sub(rb'&#x0*([1-8bBcCeEfF]|1[0-9a-fA-F]);', lambda m: b'&#x%x;' % (0xE000 + int(m[1], 16)), data)
        data = re.sub(rb'&#0*([1-8]|1[124-9]|2[0-9]|3[01]);', lambda m: b'&#x%x;' % (0xE000 + int(m[1])), data)
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        ck.violated(rule, where, f'{ln}: {e}')
        return
    ck.holds(rule, where, ln)
    un = lambda s: ''.join(chr(ord(c) - 0xE000) if 0xE000 <= ord(c) < 0xE020 else c for c in s)
    if root.tag != 'keyboard' or len(root.findall('layouts/layout')) != 1:
        raise Lost('document structure')
    lo = root.find('layouts/layout')
    mm = [e for e in root.findall('modifierMap') if e.get('id') == lo.get('modifiers')]
    ms = [e for e in root.findall('keyMapSet') if e.get('id') == lo.get('mapSet')]
    if not ck.expect(len(mm) == 1 and len(ms) == 1, 'the layout refers to its modifier map and key maps', where, ln, f'{ln}: {lo.attrib}'):
        return
    want, got = {}, {}
    for i, t in enumerate(w.tx):
        for k in w.keys:
            if k.name in t:
                want.setdefault((i, code(w, k, 'macos')), t[k.name])
    maps = {}
    for e in ms[0].findall('keyMap'):
        idx = int(e.get('index'))
        ck.expect(idx not in maps, 'key maps have different indices', where, f'{ln} {idx}', f'{ln}: index {idx} twice')
        maps[idx] = e
        for key in e.findall('key'):
            try:
                kk = (idx, int(key.get('code')))
            except (TypeError, ValueError):
                kk = (idx, key.get('code'))
            o = un(key.get('output', ''))
            got[kk] = o if got.get(kk, o) == o else (got[kk], o)
    same(ck, got, want, 'every key of a layer is in the map of the layer', where, ln, lambda k: f'map {k[0]}, code {k[1]}')
    sel = {}
    for e in mm[0].findall('keyMapSelect'):
        for x in e.findall('modifier'):
            sel[int(e.get('mapIndex'))] = x.get('keys')
    known = {0: '', 1: 'anyShift', 2: 'caps', 3: 'anyOption'}
    for i in range(min(len(w.tx), 4)):
        ck.expect(i in sel and (sel[i].split() or [''])[0] == known[i], 'every layer can be selected', where, f'{ln} layer {i}', f'{ln}: layer {i} is selected by {sel.get(i)!r}')


def letters(w):
    """rows of letter keys"""
    for row in w.kbdata['rows']:
        yield [w.named[b['name']] for half in row for b in half if b.get('kind') == 'letter']


def nfc(t):
    return unicodedata.normalize('NFC', t) if t is not None else ''


@fmt('renderKlavaro')
def klavaro(ck, w, p, ln, where):
    text = sole(ck, p, where, ln)
    if text is None:
        return
    rows = [r for r in letters(w) if r]
    want = [[''.join(nfc(w.tx[i].get(k.name)) or ' ' for k in r) for r in rows] for i in (0, 1)]
    got = text.split('\n')
    exp = want[0] + want[1] + ['']
    ck.count('entries', sum(len(r) for r in rows) * 2)
    for i, (g, e) in enumerate(zip(got, exp)):
        ck.expect(g == e, 'every row of letter keys is a line, first layer then second', where, f'{ln} line {i + 1}', f'{ln} line {i + 1}: {g!r}, layout has {e!r}')
    ck.expect(len(got) == len(exp), 'every row of letter keys is a line, first layer then second', where, ln, f'{ln}: {len(got)} lines, {len(exp)} expected')


@fmt('renderAsk')
def ask(ck, w, p, ln, where):
    root = tree(ck, p, where, ln)
    rows = [x for x in root.kids if x.tag == 'Row']
    modkeys = {k for ms in w.mods for m in ms if len(m.args) == 1 for k in m.args}
    want = []
    last = len(w.kbdata['rows']) - 1
    for r, ks in enumerate(letters(w)):
        ks = [k for k in ks if k not in modkeys]
        if ks and r != last:
            want.append((r, ks))
    A = 'android:'
    if not ck.expect(len(rows) == len(want) + 1, 'every row of letter keys is a row, and one for the control keys', where, ln, f'{ln}: {len(rows)} rows, {len(want)} with letters'):
        return
    for (r, ks), e in zip(want, rows):
        rule = 'every letter key is a key of its row'
        if not ck.expect(len(e.kids) == len(ks), rule, where, f'{ln} row {r}', f'{ln} row {r}: {len(e.kids)} keys, keyboard has {len(ks)}'):
            continue
        try:
            wd = float(str(e.attrib.get(A + 'keyWidth', '')).replace('%p', ''))
        except ValueError:
            wd = None
        if not str(e.attrib.get(A + 'keyWidth', '%p')).endswith('%p'):
            wd = 0
        ck.expect(wd is not None and 99 < wd * len(ks) < 100.5 if wd is not None else False, 'keys fill the row', where, f'{ln} row {r}', f'{ln} row {r}: {len(ks)} keys of width {e.attrib.get(A + "keyWidth")}')
        for x, k in zip(e.kids, ks):
            ck.count('entries')
            t = [nfc(l.get(k.name)) for l in w.tx]
            exp = {A + 'codes': ','.join(str(ord(c)) for c in t[0]), A + 'keyLabel': t[0], A + 'popupCharacters': ''.join(t[1:])}
            have = {a: x.attrib.get(a) for a in exp}
            ck.expect(have == exp, 'every key types its text and offers that of the other layers', where, f'{ln} {k.name}', f'{ln} {k.name}: {have}, layout has {exp}')
            hint = x.attrib.get('ask:hintLabel', '')
            ck.expect(hint == ''.join(t[1:3]) or exp[A + 'popupCharacters'].startswith(hint) and bool(hint), 'hints are the first of the offered characters', where, f'{ln} {k.name}', f'{ln} {k.name}: {hint!r}')
        top = e.attrib.get(A + 'rowEdgeFlags')
        ck.expect((top == 'top') == (r == 0), 'the first row of the keyboard is the top row', where, f'{ln} row {r}', f'{ln} row {r}: {e.attrib}')
    codes = {str(x.attrib.get(A + 'codes')) for x in rows[-1].kids}
    ck.expect({'10', '32', '-5'} <= codes, 'the control keys return, space and backspace exist', where, ln, f'{ln}: codes {sorted(codes)}')
    ck.expect(rows[-1].attrib.get(A + 'rowEdgeFlags') == 'bottom', 'the control keys are the bottom row', where, ln, f'{ln}: {rows[-1].attrib}')
