"""C23: layers of generated Windows drivers."""
from checks.out_common import *
from checks.cparse import CSource, Init

EXPLANATION = ('The exporter is interpreted abstractly on the shipped keyboard and every shipped layout as constants; what it writes becomes a '
               'constant text. The tables in that text are read the way the system reads them: key to virtual key, virtual key to shift bits, '
               'shift bits to column, virtual key and column to character; the result is compared with the layout for every layer, modifier set, '
               'pattern of shift bits and key.')
ASSUMPTIONS = ['the system maps left and right shift, control and menu keys to their common virtual key before looking up shift bits']
GENERIC = {0xA0: 0x10, 0xA1: 0x10, 0xA2: 0x11, 0xA3: 0x11, 0xA4: 0x12, 0xA5: 0x12}


def variants(lay):
    """other texts on the keys of the supported layout"""
    for name, keep in (('with gaps', lambda i, j, n: (i + j) % n != 0), ('on upper layers', lambda i, j, n: j == i % n or i % 7 == 0), ('with one key', lambda i, j, n: i == 9)):
        l = copy.deepcopy(lay)
        n = len(l['layout'])
        for j, x in enumerate(l['layout']):
            # the space keys share a code
            x['layer'] = {k: t for i, (k, t) in enumerate(sorted(x['layer'].items())) if k.endswith('space') or keep(sum(map(ord, k)), j, n)}
        yield name, l
    l = copy.deepcopy(lay)
    ts = [x['layer'] for x in l['layout']]
    for x, t in zip(l['layout'], ts[1:] + ts[:1]):
        x['layer'] = {k: v for k, v in t.items()}
    yield 'with layers rotated', l
    l = copy.deepcopy(lay)
    for j, x in enumerate(l['layout']):
        ks = [k for k in x['layer'] if not k.endswith('space')]
        x['layer'].update({k: chr(0x21 + i * 3 + j) for i, k in enumerate(ks)})
    yield 'with other characters', l


def drivers(ck):
    """[(layout, world, source, where)] for every layout the exporter accepts"""
    kbs, lays = definitions('keyboards'), definitions('layouts')
    n, (kp, kb) = next(iter(kbs.items()))
    todo = [(ln, ln, lay) for ln, (path, lay) in lays.items() if not isinstance(lay, Exception) and lay['layout']]
    for x, ln, lay in list(todo):
        if ln == 'ar-lulua':
            todo += [(f'{ln} {v}', ln, l) for v, l in variants(lay)]
    for name, ln, lay in todo:
        it = interp()
        w = Shipped(it, kb, lay)
        f, ps = export(it, w, 'renderWinKbd', keyboard=n, layout=ln, output='out.c')
        where = f'lulua/render.py:{f.node.lineno}'
        ck.used(it)
        for p in ps:
            if p.outcome == 'raise':
                # refused, for instance because of strings it cannot express
                if ln == 'ar-lulua':
                    ck.expect(False if len(ps) == 1 else None, 'the driver can be generated', where, ln, f'export of {ln} fails: {p.value.exc!r}'[:160])
                continue
            out = written(p)
            if not out:
                if ln == 'ar-lulua':
                    ck.expect(False if len(ps) == 1 else None, 'the driver can be generated', where, ln, f'nothing is written for {ln}')
                continue
            ck.count('drivers')
            yield name, w, CSource(''.join(t for _, t in out)), where


def run(ck):
    ck.part('drivers', all_, ck)


def all_(ck):
    n = 0
    for ln, w, src, where in drivers(ck):
        n += 1
        ck.part(ln, check, ck, ln, w, src, where)
    ck.expect(True if n else None, 'the driver can be generated', 'lulua/render.py', 'drivers')


def table(src, name):
    t = src.tables.get(name)
    if t is None:
        raise Lost(f'table {name}')
    return t[1]


def vks(src):
    """scancode -> virtual key, without flags"""
    out = {}
    for i, e in enumerate(table(src, 'ausVK')):
        out[(i,)] = src.value(e) & 0xff
    for esc, name in ((0xe0, 'aE0VscToVk'), (0xe1, 'aE1VscToVk')):
        for e in table(src, name):
            sc, vk = (src.value(x) for x in e)
            if sc == 0:
                break
            out.setdefault((esc, sc), vk & 0xff)
    return out


def check(ck, ln, w, src, where):
    vk = vks(src)
    bits = {}
    for e in table(src, 'aVkToBits'):
        k, b = (src.value(x) for x in e)
        if k == 0:
            break
        bits[k] = b
    vals = set(bits.values())
    ck.expect(len(vals) == len(bits) and all(b and b & (b - 1) == 0 for b in vals), 'every modifier has a shift bit of its own', where, ln, f'shift bits {bits}')
    mods = table(src, 'CharModifiers')
    if len(mods) != 3 or not isinstance(mods[2], Init):
        raise Lost('CharModifiers')
    maxbits, numbers = src.value(mods[1]), [src.value(x) for x in mods[2]]
    nl = len(w.mods)
    # pattern -> layer
    want = {}
    for i, alts in enumerate(w.mods):
        for m in alts:
            pat, names = 0, '+'.join(k.name for k in m.args) or 'nothing'
            for k in m.args:
                sc = tuple(w.data[k][3]['scancode']['windows'])
                v = vk.get(sc)
                v = GENERIC.get(v, v)
                rule = 'every modifier key of a layer sets a shift bit'
                ck.expect(v in bits, rule, where, f'{ln} {k.name}', f'{k.name}, modifier of layer {i} of {ln}, produces virtual key {v!r} without shift bit')
                pat |= bits.get(v, 0)
            rule = 'the modifiers of a layer select its column'
            col = numbers[pat] if pat < len(numbers) and pat <= maxbits else None
            ck.expect(col == i, rule, where, f'{ln} {names}', f'{names} selects column {col} in the driver, layer {i} of {ln}')
            if want.get(pat, i) != i:
                ck.violated('different layers have different shift bits', where, f'{names}: layers {want[pat]} and {i} of {ln} share shift bits {pat:x}')
            want[pat] = i
    for pat in range(min(len(numbers), maxbits + 1)):
        if pat in want:
            continue
        col = numbers[pat]
        ck.expect(col >= nl, 'modifiers without a layer select nothing', where, f'{ln} {pat:x}', f'shift bits {pat:#x} select column {col}, a layer of {ln}')
    # characters
    entries = {}
    for e in table(src, 'aVkToWcharTable'):
        name = [t for t in e[0] if t in src.tables]
        if not name:
            continue
        for row in table(src, name[0]):
            k = src.value(row[0])
            if k == 0:
                break
            entries.setdefault(k, []).append((name[0], src.value(row[1]), [src.value(c) for c in row[2]]))
    none = src.defs.get('WCHAR_NONE', 0xf000)
    owner, listed = {}, set()
    for k in w.keys:
        text = [w.tx[i].get(k.name) for i in range(nl)]
        sc = tuple(w.data[k][3]['scancode']['windows'])
        v = vk.get(sc)
        if not any(t is not None for t in text):
            continue
        ck.count('keys')
        listed.add(v)
        rule = 'every key with text is listed under the virtual key of its scancode'
        got = entries.get(v, [])
        ck.expect(len(got) == 1, rule, where, f'{ln} {k.name}', f'{k.name} ({sc}) of {ln}: virtual key {v!r} is listed {len(got)} times')
        if v in owner:
            same = [w.tx[i].get(owner[v].name) for i in range(nl)] == text
            ck.expect(same, 'keys with different text have different virtual keys', where, f'{ln} {k.name}', f'{k.name} and {owner[v].name} share virtual key {v:#x}')
        owner.setdefault(v, k)
        ck.expect(GENERIC.get(v, v) not in bits, 'keys with text are no modifiers', where, f'{ln} {k.name}', f'{k.name} produces modifier key {v!r}')
        for tn, flags, chars in got[:1]:
            exp = [none if t is None else ord('\r' if t == '\n' else t) if len(t) == 1 else None for t in text]
            ck.expect(chars == exp, 'characters are listed in layer order', where, f'{ln} {k.name}',
                      f'{k.name}: characters {[hex(c) for c in chars]}, layout has {text}')
    pad = set(range(0x60, 0x70))
    extra = sorted(v for v in entries if v not in listed and v not in pad)
    ck.expect(not extra, 'no other virtual key is listed', where, ln, f'virtual keys {[hex(v) for v in extra]} carry text in the driver of {ln}')
