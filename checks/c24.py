"""C24: tables of generated Windows drivers."""
import shutil
import subprocess
from checks.c23 import *
from checks.c23 import table

EXPLANATION = ('The source text of every driver that can be generated from the shipped definitions is obtained by constant propagation (see C23) and '
               'its tables are checked for end markers, counts, order and symbols; the C compiler front end checks it for undeclared names and types. The table '
               'generators are also interpreted on definitions in unsorted order and of different sizes. The standard assignment of scancodes to '
               'virtual keys and the values of virtual keys are compared with the published ones.')
ASSUMPTIONS = ['tables are scanned as described in the driver kit: name tables and escape tables up to a zero scancode, shift bits and characters up to a zero '
               'virtual key, the list of character tables up to a null pointer']

# published values of virtual keys used by key drivers
VK = dict(BACK=0x08, TAB=0x09, RETURN=0x0D, SHIFT=0x10, CONTROL=0x11, MENU=0x12, CAPITAL=0x14, ESCAPE=0x1B, SPACE=0x20, LWIN=0x5B, RWIN=0x5C, APPS=0x5D,
          LSHIFT=0xA0, RSHIFT=0xA1, LCONTROL=0xA2, RCONTROL=0xA3, LMENU=0xA4, RMENU=0xA5, OEM_1=0xBA, OEM_PLUS=0xBB, OEM_COMMA=0xBC, OEM_MINUS=0xBD,
          OEM_PERIOD=0xBE, OEM_2=0xBF, OEM_3=0xC0, OEM_4=0xDB, OEM_5=0xDC, OEM_6=0xDD, OEM_7=0xDE, OEM_8=0xDF, OEM_102=0xE2,
          **{f'NUMPAD{i}': 0x60 + i for i in range(10)}, **{f'F{i}': 0x6F + i for i in range(1, 25)}, **{f'NUMBER{i}': 0x30 + i for i in range(10)},
          **{chr(c): c for c in range(65, 91)})
FLAGS = dict(EXT=0x100, MULTIVK=0x200, SPECIAL=0x400, NUMPAD=0x800)
# standard keys by scancode
ROWS = {0x02: 'NUMBER1 NUMBER2 NUMBER3 NUMBER4 NUMBER5 NUMBER6 NUMBER7 NUMBER8 NUMBER9 NUMBER0 OEM_MINUS OEM_PLUS BACK TAB '
              'Q W E R T Y U I O P OEM_4 OEM_6 RETURN LCONTROL A S D F G H J K L OEM_1 OEM_7 OEM_3 LSHIFT OEM_5 Z X C V B N M OEM_COMMA OEM_PERIOD OEM_2 RSHIFT',
        0x38: 'LMENU SPACE CAPITAL F1 F2 F3 F4 F5 F6 F7 F8 F9 F10', 0x56: 'OEM_102 F11 F12', 0x01: 'ESCAPE'}
STANDARD = {(b + i,): n for b, ns in ROWS.items() for i, n in enumerate(ns.split())}
STANDARD.update({(0xe0, 0x1d): 'RCONTROL', (0xe0, 0x38): 'RMENU', (0xe0, 0x5b): 'LWIN', (0xe0, 0x5c): 'RWIN', (0xe0, 0x5d): 'APPS', (0xe0, 0x1c): 'RETURN'})


def run(ck):
    ck.part('drivers', all_, ck)
    ck.part('scancodes', scancodes, ck)
    ck.part('names', keynames, ck)
    ck.part('characters', characters, ck)
    ck.part('standard', standard, ck)


def all_(ck):
    for ln, w, src, where in drivers(ck):
        ck.part(ln, check, ck, ln, w, src, where)
        ck.part(ln, compiled, ck, ln, src, where)


def terminated(ck, src, name, zero, where, what):
    rows = table(src, name)
    rule = 'a table has exactly one end marker, at its end'
    z = [i for i, r in enumerate(rows) if zero(r)]
    ck.expect(z == [len(rows) - 1], rule, where, f'{what} {name}', f'{name} of {what}: {len(rows)} entries, end markers at {z}')
    return rows[:-1]


def check(ck, ln, w, src, where):
    val = src.value
    zero = lambda r: val(r[0]) == 0
    ck.expect(not src.redefined, 'a symbol has one definition', where, ln, f'{src.redefined}')
    known = set(src.defs) | set(src.tables) | src.types | {'NULL', 'sizeof', 'L'}
    fields = set()
    for name, (decl, init) in src.tables.items():
        for t in decl:
            ok = t in src.types or t in ('unsigned', 'short', 'char', 'long', 'int', 'wchar_t', 'const')
            ck.expect(ok, 'every symbol used is defined', where, f'{ln} {name} {t}', f'type {t} of {name} is not declared')
        if name == 'KbdTables':
            continue
        for s in src.symbols(init):
            ck.expect(True if s in known or s.startswith('L"') else False, 'every symbol used is defined', where, f'{ln} {name} {s}', f'{s} in {name} is not defined')
    for name in ('aE0VscToVk', 'aE1VscToVk'):
        rows = terminated(ck, src, name, zero, where, ln)
        codes = [val(r[0]) for r in rows]
        ck.expect(codes == sorted(set(codes)), 'escape tables are sorted', where, f'{ln} {name}', f'{name}: {codes}')
    for name in ('aKeyNames', 'aKeyNamesExt', 'aVkToBits'):
        terminated(ck, src, name, zero, where, ln)
    n = len(table(src, 'ausVK'))
    ck.expect(n == 0x80, 'the scancode table has an entry for every scancode', where, ln, f'ausVK has {n} entries')
    mods = table(src, 'CharModifiers')
    ck.expect(val(mods[1]) == len(mods[2]) - 1, 'declared counts match', where, ln, f'{len(mods[2])} combinations of shift bits, largest declared {val(mods[1])}')
    ck.expect('aVkToBits' in mods[0], 'declared counts match', where, ln, f'CharModifiers refers to {mods[0]}')
    tabs = terminated(ck, src, 'aVkToWcharTable', lambda r: r[0] == ['NULL'] or r[0] == ['0'], where, ln)
    seen = []
    for r in tabs:
        name = [t for t in r[0] if t in src.tables]
        ck.expect(len(name) == 1, 'every symbol used is defined', where, f'{ln} {r[0]}', f'{r[0]} names no table')
        if len(name) != 1:
            continue
        name = name[0]
        seen.append(name)
        n = val(r[1])
        decl, rows = src.tables[name]
        ck.expect(f'VK_TO_WCHARS{n}' in decl, 'declared counts match', where, f'{ln} {name}', f'{name} has {n} columns, is declared {decl}')
        ck.expect(name in r[2] and 'sizeof' in r[2], 'declared counts match', where, f'{ln} {name} size', f'size of {name}: {" ".join(r[2])}')
        rows = terminated(ck, src, name, zero, where, ln)
        for x in rows:
            ck.expect(len(x) == 3 and len(x[2]) == n, 'declared counts match', where, f'{ln} {name} {x[0]}', f'{x[0]} in {name} has {len(x[2])} characters, {n} declared')
    mine = {t for t in src.tables if t.startswith('aVkToWch') and t != 'aVkToWcharTable'}
    ck.expect(mine == set(seen) and len(seen) == len(set(seen)), 'every character table is listed once', where, ln, f'{sorted(mine)} exist, {seen} are listed')
    last = seen[-1:] and [val(r[0]) for r in src.tables[seen[-1]][1][:-1]]
    ck.expect(bool(last) and all(0x60 <= v <= 0x6f for v in last), 'the number pad comes last', where, ln, f'last table is {seen[-1:]}')


def compiled(ck, ln, src, where):
    cc = shutil.which('gcc') or shutil.which('clang')
    if cc is None:
        return
    r = subprocess.run([cc, '-fsyntax-only', '-w', '-x', 'c', '-'], input=src.text.encode('utf8'), capture_output=True, timeout=60)
    err = [l for l in r.stderr.decode('utf8', 'replace').split('\n') if 'error' in l]
    if r.returncode != 0 and not any('undeclared' in l or 'unknown type' in l or 'has no member' in l or 'unknown field' in l or 'expected' in l or 'error:' in l for l in err):
        raise Lost(f'compiler: {err[:1]}')
    ck.expect(r.returncode == 0, 'the generated source is accepted by a compiler', where, ln, f'{err[:1]}')


def text(it, f, *args):
    ps = it.analyse(lambda: it.call(f, [a() if callable(a) else a for a in args], {}))
    if len(ps) != 1:
        raise Lost(f'{f.qual}: {len(ps)} paths')
    return ps[0]


def fn(it, name):
    f = it.modattr('lulua.winkbd', name)
    if f is None:
        raise Gone(f'lulua.winkbd.{name}')
    return f, f'lulua/winkbd.py:{f.node.lineno}'


def enums(it):
    c = it.modattr('lulua.winkbd', 'VirtualKey')
    fl = it.modattr('lulua.winkbd', 'VirtualKeyFlag')
    if not isinstance(c, ClassV) or not isinstance(fl, ClassV):
        raise Gone('lulua.winkbd.VirtualKey')
    vk = {n: v for n, v in c.info.attrs.items() if isinstance(v, Enum)}
    return vk, {n: v for n, v in fl.info.attrs.items() if isinstance(v, Enum)}


def defines(it):
    f, _ = fn(it, 'enumToCDefine')
    out = ''
    for n in ('VirtualKey', 'VirtualKeyFlag', 'WChar'):
        p = text(it, f, it.modattr('lulua.winkbd', n))
        if p.outcome != 'return' or not isconst(p.value):
            raise Lost(f'definitions of {n}')
        out += p.value.v + '\n'
    return out


def scancodes(ck):
    it = interp()
    vk, fl = enums(it)
    f, where = fn(it, 'scancodeToVkTables')
    w = Shipped(it, next(iter(definitions('keyboards').values()))[1])
    members = sorted({e for e in vk.values()}, key=lambda e: e.value)
    flags = sorted(fl.values(), key=lambda e: e.value)
    head = defines(it)
    # a definition in scrambled order: all plain scancodes, some missing, and all prefixed ones
    m = {}
    codes = [(i,) for i in range(0x80) if i % 7] + [(0xe0, i) for i in range(1, 0x80, 3)] + [(0xe1, i) for i in range(2, 0x80, 11)]
    codes = [codes[(i * 37) % len(codes)] for i in range(len(codes))] if len(codes) % 37 else codes
    for i, c in enumerate(codes):
        m[c] = [members[i % len(members)]] + ([flags[i % len(flags)]] if i % 3 == 0 else []) + ([flags[(i + 2) % len(flags)]] if i % 6 == 0 else [])
    p = text(it, f, lambda: w.dct([(tup(*[Const(x) for x in c]), tup(*v)) for c, v in m.items()]))
    ck.used(it)
    rule = 'every scancode is mapped to the virtual key given for it'
    if p.outcome != 'return':
        ck.violated(rule, where, f'scancodeToVkTables raises {p.value.exc!r}'[:100])
        return
    if not isconst(p.value):
        raise Lost('scancodeToVkTables')
    src = CSource(head + p.value.v)
    got = {}
    for i, e in enumerate(table(src, 'ausVK')):
        got[(i,)] = src.value(e)
    for esc, name in ((0xe0, 'aE0VscToVk'), (0xe1, 'aE1VscToVk')):
        rows = terminated(ck, src, name, lambda r: src.value(r[0]) == 0, where, 'scancodes')
        cs = [src.value(r[0]) for r in rows]
        ck.expect(cs == sorted(set(cs)), 'escape tables are sorted', where, name, f'{name}: {cs}')
        for r in rows:
            got[(esc, src.value(r[0]))] = src.value(r[1])
    ck.expect(len(table(src, 'ausVK')) == 0x80, 'the scancode table has an entry for every scancode', where, 'ausVK', f'{len(table(src, "ausVK"))} entries')
    null = vk['NULL'].value if 'NULL' in vk else 0xff
    for c in sorted(set(m) | set(got)):
        v = 0
        for x in m.get(c, ()):
            v |= x.value
        want = v if c in m else null
        ck.expect(got.get(c) == want, rule, where, str(c), f'scancode {c} is mapped to {got.get(c)!r}, not {want:#x}')
        ck.count('scancodes')


def keynames(ck):
    it = interp()
    f, where = fn(it, 'scancodeToName')
    w = Shipped(it, next(iter(definitions('keyboards').values()))[1])
    m = {(0x10,): 'b', (0xe0, 0x1c): 'q', (0x01,): 'a', (0xe0, 0x10): 'p', (0x7f,): 'c', (0xe0, 0x7f): 'r'}
    p = text(it, f, lambda: w.dct([(tup(*[Const(x) for x in c]), Const(v)) for c, v in m.items()]))
    ck.used(it)
    rule = 'every key name is listed under its scancode'
    if p.outcome != 'return' or not isconst(p.value):
        raise Lost('scancodeToName')
    src = CSource(p.value.v)
    for name, n in (('aKeyNames', 1), ('aKeyNamesExt', 2)):
        rows = terminated(ck, src, name, lambda r: src.value(r[0]) == 0, where, 'names')
        got = [(src.value(r[0]), r[1][0]) for r in rows]
        want = sorted((c[-1], f'L"{v}"') for c, v in m.items() if len(c) == n)
        ck.expect(got == want, rule, where, name, f'{name}: {got}, not {want}')


def characters(ck):
    it = interp()
    vk, fl = enums(it)
    f, where = fn(it, 'vkToWchar')
    w = Shipped(it, next(iter(definitions('keyboards').values()))[1])
    head = defines(it)
    A = lambda n: vk[n]
    rows = [('A', ['x', None]), ('B', ['y']), ('C', ['z', 'Z', None, '1']), ('D', ['v', 'V']), ('E', [None]), ('F', ['r', None, 's', None])]

    def arg():
        return w.lst([tup(A(n), Const(0), w.lst([NONE if c is None else Const(c) for c in cs])) for n, cs in rows])
    p = text(it, f, arg)
    ck.used(it)
    rule = 'every virtual key is listed once with all its characters'
    if p.outcome != 'return' or not isconst(p.value):
        raise Lost('vkToWchar')
    src = CSource(head + p.value.v)
    tabs = terminated(ck, src, 'aVkToWcharTable', lambda r: r[0] in (['NULL'], ['0']), where, 'characters')
    got = {}
    for r in tabs:
        name = [t for t in r[0] if t in src.tables]
        if len(name) != 1:
            raise Lost(f'table {r[0]}')
        n = src.value(r[1])
        rs = terminated(ck, src, name[0], lambda x: src.value(x[0]) == 0, where, 'characters')
        for x in list(rs) + [src.tables[name[0]][1][-1]]:
            ck.expect(len(x[2]) == n, 'declared counts match', where, f'{name[0]}', f'{name[0]}: {len(x[2])} characters in {x[0]}, {n} declared')
        for x in rs:
            got.setdefault(src.value(x[0]), []).append([src.value(c) for c in x[2]])
    none = src.defs.get('WCHAR_NONE')
    for n, cs in rows:
        want = [none if c is None else ord(c) for c in cs]
        g = got.get(A(n).value)
        ck.expect(g == [want], rule, where, n, f'{n} {cs}: {g}')
    for i in range(10):
        ck.expect(got.get(0x60 + i) == [[0x30 + i]], 'number pad keys type their digit', where, str(i), f'number pad {i}: {got.get(0x60 + i)}')
    # strings that do not fit must be refused, not cut
    p = text(it, f, lambda: w.lst([tup(A('A'), Const(0), w.lst([Const('xy')]))]))
    ck.expect(p.outcome == 'raise', 'strings that do not fit are refused', where, 'xy', f'a string of two characters is accepted')


def standard(ck):
    it = interp()
    vk, fl = enums(it)
    where = 'lulua/winkbd.py'
    for n, v in VK.items():
        if n in vk:
            ck.expect(vk[n].value == v, 'virtual keys have their published value', where, n, f'{n} is {vk[n].value:#x}, not {v:#x}')
    for n, v in FLAGS.items():
        if n in fl:
            ck.expect(fl[n].value == v, 'virtual keys have their published value', where, n, f'flag {n} is {fl[n].value:#x}, not {v:#x}')
    m = it.modattr('lulua.winkbd', 'qwertyScancodeToVk')
    if m is None:
        raise Gone('lulua.winkbd.qwertyScancodeToVk')
    st = it.analyse(lambda: NONE)[0].state
    d = {}
    for k, v in dictof(st, m).items():
        d[tuple(x.v for x in k.args)] = v.args
    for sc, n in STANDARD.items():
        got = [x for x in d.get(sc, ()) if isinstance(x, Enum) and x.cls.endswith('.VirtualKey')]
        ck.expect(len(got) == 1 and got[0].value == VK[n], 'scancodes have their standard virtual key', where, str(sc), f'scancode {sc} is {got}, not {n}')
    ck.used(it)
