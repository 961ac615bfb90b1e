"""C34: importing layout projects of Microsoft's layout creator."""
import codecs
import unicodedata

from checks.c27 import deep
from checks.data import buttons, definitions
from checks.world import *
from sa.args import Args

EXPLANATION = ('The import command is interpreted on model project files (file access replaced by its specification) up to the data it writes: a project '
               'that lists every position of a keyboard with a different character in every cell, and variations of it (blanks, comments, empty cells, '
               'short lines, order, sections before and after). The data written must have each character on the key with that scancode on the shipped '
               'keyboard, on the layer of its column, and each layer reached by the modifiers of that column.')
ASSUMPTIONS = ['projects use the virtual keys of a US keyboard', 'columns are: none, shift, control, shift and control, alt gr, shift and alt gr']
TECHNIQUE = 'abstract interpretation with constant propagation on model project files, scancodes of the shipped keyboard as oracle'

VK = {0x29: 'OEM_3', 0x0b: '0', 0x0c: 'OEM_MINUS', 0x0d: 'OEM_PLUS', 0x1a: 'OEM_4', 0x1b: 'OEM_6', 0x2b: 'OEM_5', 0x27: 'OEM_1', 0x28: 'OEM_7',
      0x56: 'OEM_102', 0x33: 'OEM_COMMA', 0x34: 'OEM_PERIOD', 0x35: 'OEM_2', 0x39: 'SPACE'}
VK.update({2 + i: str(i + 1) for i in range(9)})
for first, row in ((0x10, 'QWERTYUIOP'), (0x1e, 'ASDFGHJKL'), (0x2c, 'ZXCVBNM')):
    VK.update({first + i: c for i, c in enumerate(row)})
COLUMNS = [(), ('shift',), ('ctrl',), ('ctrl', 'shift'), ('altgr',), ('altgr', 'shift')]
HEAD = ['KBD\tmodel\t"Model"\n', '\n', 'COPYRIGHT\t"(c) 2020"\n', 'LOCALENAME\t"ar-SA"\n', 'VERSION\t1.0\n', 'SHIFTSTATE\n', '\n', '0\t//Column 4\n',
        '1\t//Column 5 : Shft\n', '2\t//Column 6 :       Ctrl\n', '\n', "LAYOUT\t\t;an extra '@' at the end is a dead key\n", '\n',
        '//SC\tVK_\t\tCap\t0\t1\t2\n', '//--\t----\t\t----\t----\t----\t----\n', '\n']
LIG = ['LIGATURE\n', '\n', '//VK_\tMod#\tChar0\tChar1\n', 'B\t0\t0644\t0627\t// LAM + ALEF\n', 'G\t\t1\t0644\t0623\n', '\n']
TAIL = ['KEYNAME\n', '\n', '01\tEsc\n', '0e\tBackspace\n', '37\t"Num *"\n', '4e\t"Num +"\n', '39\tSpace\n', '\n', 'KEYNAME_EXT\n', '\n', '1c\t"Num Enter"\n',
        '2a\t"Left Shift key"\n', '\n', 'DESCRIPTIONS\n', '\n', '0409\tModel\n', 'LANGUAGENAMES\n', '\n', '0409\tArabic (Saudi Arabia)\n', 'ENDKBD\n']
DEAD = ['DEADKEY\t0060\n', '\n', '0061\t00e0\t// a -> a grave\n', '0020\t0060\n', '\n']


def line_(sc, cells, form):
    cs = [c if isinstance(c, str) else '%04x' % c for c in cells]
    v = VK.get(sc, 'DECIMAL')
    if form == 'tabs':
        return f'{sc:02x}\t{v}\t{"" if len(v) > 7 else chr(9)}0\t' + '\t'.join(cs) + '\t\t// ' + ', '.join('X' for c in cs) + '\n'
    if form == 'blanks':
        return f'  {sc:02x}   {v}  4 ' + '  '.join(cs) + ' \r\n'
    if form == 'semicolon':
        return f'{sc:02X}\t{v}\t0\t' + '\t'.join(c.upper() for c in cs) + '\t; a comment // with another\n'
    if form == 'capstext':
        return f'{sc:02x}\t{v}\tSGCap\t' + '\t'.join(cs) + '//; no blank in front\n'
    raise ValueError(form)


def cell(v):
    """text of a cell: a code, or the way a project has it"""
    if not isinstance(v, str):
        return chr(v)
    if v in ('-1', '%%'):
        return None
    v = v[:-1] if len(v) > 1 and v.endswith('@') else v
    return v if len(v) == 1 else chr(int(v, 16))


def projects(ck):
    """name -> (lines, {(scancode, column): character})"""
    scs = sorted(VK)
    full = {}
    for i, sc in enumerate(scs):
        for col in range(6):
            full[sc, col] = 0x4e00 + 6 * i + col

    def make(cells, form='tabs', order=None, after=None, extra=(), cols=6):
        ls = list(HEAD)
        for sc in order or scs:
            row = [cells.get((sc, c), '-1') for c in range(cols)]
            ls.append(line_(sc, row, form))
        ls += list(extra)
        ls.append(line_(0x53, [0x2e, 0x2e] + ['-1'] * (cols - 2), 'tabs'))
        ls += ['\n'] + (LIG + TAIL if after is None else after)
        return ls, {k: unicodedata.normalize('NFD', x) for k, v in cells.items() for x in [cell(v)] if x}
    yield 'every position', make(full)
    yield 'lines separated by blanks', make(full, 'blanks')
    yield 'comments after semicolons', make(full, 'semicolon')
    yield 'comments without blanks', make(full, 'capstext')
    yield 'positions in reverse order', make(full, order=scs[::-1])
    yield 'no ligatures', make(full, after=TAIL)
    yield 'dead keys', make(full, after=DEAD + TAIL)
    yield 'nothing after the layout', make(full, after=[])
    empty = {}
    for i, sc in enumerate(scs):
        for col in range(6):
            empty[sc, col] = ('-1', '%%', 0x61 + i)[(i + col) % 3]
    yield 'empty cells', make(empty)
    yield 'columns in the middle left empty', make({k: v for k, v in full.items() if k[1] in (0, 1, 4, 5)})
    yield 'two columns', make({k: v for k, v in full.items() if k[1] < 2}, cols=2)
    yield 'one key', make({(0x1e, 0): 0x627}, order=[0x1e], cols=3)
    yield 'comment lines', make(full, extra=['// a comment line\n', '   // another comment line with words\n', '; and another one with words\n', ';\n', '//\n'])
    lit = dict(full)
    for i, sc in enumerate(scs):
        v = VK[sc]
        if len(v) == 1:
            lit[sc, 0] = v.lower()
            lit[sc, 1] = v if v.isalpha() else f'{0x21 + i:04x}'
    for form in ('tabs', 'blanks', 'capstext'):
        yield f'letters and digits as such, form {form}', make(lit, form)
    yield 'dead keys in cells', make({k: f'{v:04x}@' if (k[0] + k[1]) % 3 else v for k, v in full.items()}, after=DEAD + TAIL)
    yield 'literal dead keys', make({k: f'{v}@' if isinstance(v, str) and k[0] % 2 else v for k, v in lit.items()}, after=DEAD + TAIL)
    chars = [0x20, 0x3b, 0x2f, 0x40, 0x25, 0x622, 0x623, 0x624, 0x625, 0x626, 0x6c0, 0x6d3, 0xfefb, 0x64b, 0x200d, 0xa0, 0xe9, 0x1e69, 0xac00, 0x1e900, 0x10ffff, 0x2126, 0x344]
    if ck.thorough:
        chars += [c for c in range(0x100, 0x30000, 7) if unicodedata.normalize('NFD', chr(c)) != chr(c)]
    per = 6 * len(scs)
    for n in range(0, len(chars), per):
        some = {(scs[i // 6], i % 6): c for i, c in enumerate(chars[n:n + per])}
        yield f'characters {n}–{n + len(some) - 1}', make(some)


class Files:
    def __init__(self, it, lines):
        self.it, self.lines, self.encodings, self.written = it, lines, [], []
        x = dict(it.exthooks)
        x['open'] = x['io.open'] = x['codecs.open'] = self.open
        for n in ('dump', 'safe_dump'):
            x['yaml.' + n] = self.dump
        it.exthooks = x
        m = dict(it.methodhooks)
        m['readlines'] = lambda i, r, a, k: r if r == self.fd else NotImplemented
        m['read'] = lambda i, r, a, k: Const(''.join(self.lines)) if r == self.fd else NotImplemented
        m['close'] = lambda i, r, a, k: NONE if r == self.fd else NotImplemented
        m['__iter__'] = lambda i, r, a, k: r if r == self.fd else NotImplemented
        m['__enter__'] = lambda i, r, a, k: r if r == self.fd else NotImplemented
        it.methodhooks = m
        self.fd = None

    def open(self, it, a, k):
        f = a[0] if a else k.get('file')
        if f != Const('project.klc'):
            raise Lost(f'opens {f!r}'[:80])
        self.encodings.append(k.get('encoding', a[3] if len(a) > 3 else NONE))
        self.fd = it.new(Obj('list', segs=tuple(seg1(Const(l)) for l in self.lines)))
        return self.fd

    def dump(self, it, a, k):
        self.written.append(deep(it, a[0] if a else k['data']))
        return NONE


def names(v):
    """python value of written data"""
    if isinstance(v, tuple) and v and v[0] == 'dict':
        return {names(k): names(x) for k, x in v[1]}
    if isinstance(v, tuple) and v and v[0] in ('list', 'tuple'):
        return [names(x) for x in v[1]]
    if isconst(v):
        return v.v
    raise Lost(f'written: {v!r}'[:120])


def run(ck):
    ck.part('projects', imports, ck)


def imports(ck):
    it = interp(start=True)
    f = it.modattr('lulua.layout', 'importFrom')
    if not isinstance(f, FuncV):
        raise Gone('lulua.layout.importFrom')
    where = f'lulua/layout.py:{f.node.lineno}'
    g = method(it, 'layout.GenericLayout', 'fromKlc')
    parse = f'lulua/layout.py:{g.node.lineno}' if g else where
    kb = definitions('keyboards').get('ibmpc105')
    if kb is None or isinstance(kb[1], Exception):
        raise Gone('keyboard ibmpc105')
    byscan, known = {}, set()
    for r, h, p, b in buttons(kb[1]):
        known.add(b['name'])
        w = (b.get('scancode') or {}).get('windows')
        w = w if isinstance(w, list) else [w]
        if len(w) == 1 and w[0] is not None:
            byscan.setdefault(w[0], set()).add(b['name'])
    kinds = lambda m: tuple(sorted({'shift' if 'shift' in x else 'ctrl' if 'ctrl' in x else 'altgr' if 'altgr' in x else x for x in m}))
    seen = []
    for what, (lines, want) in projects(ck):
        ck.count('projects')
        ck.count('cells', len(want))
        rule = 'each character is imported to the key at its position, on the layer of its column'
        Args(it, ['project.klc', 'klc'])
        fs = Files(it, lines)

        def go():
            fs.encodings.clear(), fs.written.clear()
            it.call(f, [], {})
            return it.freeze(tup())
        ps = nobudget(it.analyse(go))
        if len(ps) != 1:
            ck.undecided(rule, parse, f'{what}: {len(ps)} paths')
            continue
        if ps[0].outcome == 'raise':
            ck.violated(rule, parse, f'project with {what}: fails with {ps[0].value.exc!r}'[:200])
            continue
        for e in fs.encodings:
            if not isconst(e) or not (e.v is None or isinstance(e.v, str)):
                ck.undecided('projects are read as UTF-16', where, repr(e)[:80])
                continue
            try:
                n = codecs.lookup(e.v).name if e.v else None
            except LookupError:
                n = e.v
            ck.expect(n == 'utf-16', 'projects are read as UTF-16', where, what, f'project is opened with encoding {e.v!r}')
        if len(fs.written) != 1:
            ck.expect(False if not fs.written else None, 'the imported layout is written', where, what, f'{len(fs.written)} documents are written')
            continue
        d = names(fs.written[0])
        if not isinstance(d, dict) or not isinstance(d.get('layout'), list) or not all(isinstance(l, dict) and {'layer', 'modifier'} <= set(l) for l in d['layout']) or 'name' not in d:
            ck.violated('the imported layout is written as a layout definition', where, f'written is {str(d)[:120]}')
            continue
        # cells
        got = {}
        for l, lay in enumerate(d['layout']):
            for k, t in lay['layer'].items():
                got[l, k] = t
        bad = None
        for (sc, col), ch in want.items():
            ks = byscan.get(sc)
            if not ks:
                raise Lost(f'scancode {sc} on the keyboard')
            have = [k for k in ks if got.get((col, k)) == ch]
            if not have:
                at = [x for x, t in got.items() if t == ch]
                bad = f'{VK[sc]} (scancode {sc:02x}), column {col}, character U+{ord(ch[0]):04x}: ' + (f'imported to layer {at[0][0]}, key {at[0][1]}' if at else f'not imported, {sorted(ks)[0]} has {[got.get((col, k)) for k in ks]}')
                break
            for k in ks:
                if got.get((col, k), ch) == ch:
                    got.pop((col, k), None)
        if bad is None and got:
            bad = f'{next(iter(got.items()))} is no content of the project'
        ck.expect(bad is None, rule, parse, what, f'project with {what}: {bad}')
        mods = [[tuple(m) for m in lay['modifier']] for lay in d['layout']]
        if mods not in seen:
            seen.append(mods)
            used = {c for _, c in want}
            for i, ms in enumerate(mods):
                ck.count('modifiers', len(ms))
                for m in ms:
                    ck.expect(set(m) <= known, 'layer switches are keys of the keyboard', parse, str(m), f'layer {i} is reached by {m}, which is not on the keyboard')
                    ck.expect(i < len(COLUMNS) and kinds(m) == COLUMNS[i], 'each layer is reached by the modifiers of its column', parse, str(m), f'layer {i} is reached by {m}')
                if i in used:
                    ck.expect(len(ms) > 0, 'each layer is reached by the modifiers of its column', parse, f'layer {i}', f'layer {i} cannot be reached')
    ck.used(it)
