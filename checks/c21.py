"""C21: shipped layouts."""
import re
from checks.data import *

EXPLANATION = ('All shipped layout definitions are read as data (mappings with repeated keys are noticed) and their obligations enumerated: keys, '
               'texts, modifier sets, layer switches. Names of layouts and keyboards are collected from the constants of the code, gen.sh and the '
               'report page and must exist.')
ASSUMPTIONS = ['the loader reads definitions as C27 says']


def run(ck):
    kbs, lays = definitions('keyboards'), definitions('layouts')
    ck.part('layouts', layout, ck, kbs, lays)
    ck.part('names', names, ck, kbs, lays)


def line(d, k):
    return d.lines.get(k, 1) if hasattr(d, 'lines') else 1


def layout(ck, kbs, lays):
    keys = set()
    for n, (path, kb) in kbs.items():
        if not isinstance(kb, Exception):
            keys |= {b['name'] for *_, b in buttons(kb)}
    if not keys or not lays:
        raise Gone('keyboard and layout definitions')
    for n, (path, lay) in lays.items():
        ck.count('layouts')
        if isinstance(lay, Exception) or not isinstance(lay, dict):
            ck.violated('a definition can be read', path, f'{n}: {lay}'[:200])
            continue
        bad = [f for f in ('name', 'layout') if f not in lay]
        ck.expect(not bad, 'a definition can be read', path, n, f'{n} has no {bad}')
        if bad:
            continue
        if n != 'null':
            ck.expect(lay['name'] == n, 'a layout is named like its file', f'{path}:{line(lay, "name")}', n, f'{n} is named {lay["name"]!r}')
        ck.expect(not lay.dups, 'a definition repeats no key', path, n, f'{n}: {lay.dups} repeated')
        owner, texts = {}, []
        for i, l in enumerate(lay['layout']):
            where = f'{path}:{line(l, "layer")}'
            miss = [f for f in ('layer', 'modifier') if f not in l]
            ck.expect(not miss, 'a layer has texts and modifiers', where, f'{n} {i}', f'layer {i} of {n} has no {miss}')
            if miss:
                continue
            ck.expect(not l.dups, 'a definition repeats no key', where, f'{n} {i}', f'{n} layer {i}: {l.dups} repeated')
            mods = l['modifier']
            ok = isinstance(mods, list) and all(isinstance(m, list) for m in mods)
            ck.expect(ok and len(mods) > 0, 'a layer has at least one modifier set', where, f'{n} {i}', f'layer {i} of {n} cannot be reached: {mods!r}')
            for m in mods if ok else ():
                for k in m:
                    ck.expect(k in keys, 'a layout names keys of the keyboard', where, f'{n} {k}', f'modifier {k!r} of {n} does not exist')
                ck.expect(len(set(m)) == len(m), 'a modifier set repeats no key', where, f'{n} {m}', f'{m}')
                s = frozenset(m)
                ck.expect(s not in owner, 'a modifier set selects one layer', where, f'{n} {sorted(s)}', f'{sorted(s)} selects layers {owner.get(s)} and {i} of {n}')
                owner[s] = i
            t = l['layer']
            if not isinstance(t, dict):
                ck.violated('a layer has texts and modifiers', where, f'layer {i} of {n}')
                continue
            ck.expect(not t.dups, 'a definition repeats no key', where, f'{n} {i}', f'{n} layer {i}: {t.dups} repeated')
            for k, v in t.items():
                at = f'{path}:{line(t, k)}'
                ck.count('texts')
                ck.expect(k in keys, 'a layout names keys of the keyboard', at, f'{n} {k}', f'key {k!r} of {n} does not exist')
                ck.expect(isinstance(v, str) and len(v) > 0, 'texts are non-empty strings', at, f'{n} {k}', f'{k} of {n}: {v!r}')
                texts.append((k, i, at))
        if lay['layout']:
            ck.expect(owner.get(frozenset()) == 0, 'the first layer needs no modifier', path, n, f'{n}: layer without modifier is {owner.get(frozenset())}')
        single = {next(iter(s)): i for s, i in owner.items() if len(s) == 1}
        for k, i, at in texts:
            ck.expect(k not in single, 'a key that alone switches layers carries no text', at, f'{n} {k}',
                      f'{k} switches to layer {single.get(k)} of {n} and carries text on layer {i}')


def names(ck, kbs, lays):
    """names used by the tools and build scripts"""
    import ast
    rule = 'layouts and keyboards named by the tools exist'
    pat = re.compile(r'(?<![\w./-])(ar-[a-z0-9]+)\b')
    know = set(lays)
    # code: constant subscripts of the loaders, defaults of options
    d = os.path.join(ROOT, 'lulua')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f.startswith('test_'):
            continue
        with open(os.path.join(d, f), encoding='utf8') as fd:
            tree = ast.parse(fd.read())
        for node in ast.walk(tree):
            where = f'lulua/{f}:{getattr(node, "lineno", 0)}'
            if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str):
                if node.value.id == 'defaultLayouts':
                    ck.expect(node.slice.value in know, rule, where, node.slice.value, f'layout {node.slice.value!r} does not exist')
                elif node.value.id == 'defaultKeyboards':
                    ck.expect(node.slice.value in kbs, rule, where, node.slice.value, f'keyboard {node.slice.value!r} does not exist')
            elif isinstance(node, ast.Call):
                opts = [a.value for a in node.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                for kw in node.keywords:
                    if kw.arg == 'default' and isinstance(kw.value, ast.Constant) and isinstance(kw.value.value, str):
                        if '--layout' in opts:
                            ck.expect(kw.value.value in know, rule, where, kw.value.value, f'layout {kw.value.value!r} does not exist')
                        if '--keyboard' in opts:
                            ck.expect(kw.value.value in kbs, rule, where, kw.value.value, f'keyboard {kw.value.value!r} does not exist')
            elif isinstance(node, ast.Constant) and isinstance(node.value, str) and re.fullmatch(r'ar-[a-z0-9]+', node.value):
                ck.expect(node.value in know, rule, where, node.value, f'layout {node.value!r} does not exist')
    for f in ('gen.sh', 'README.rst'):
        p = os.path.join(ROOT, f)
        if not os.path.exists(p):
            continue
        with open(p, encoding='utf8') as fd:
            for i, l in enumerate(fd, 1):
                m = re.match(r'\s*(?:layouts\w*)="([^"]*)"', l)
                found = m.group(1).split() if m else re.findall(r'(?:-l|--layout)[ =](ar-[\w-]+)', l)
                for x in found:
                    ck.expect(x in know, rule, f'{f}:{i}', x, f'layout {x!r} does not exist')
                for x in re.findall(r'(?:-k|--keyboard)[ =]([a-z]\w+)', l):
                    ck.expect(x in kbs, rule, f'{f}:{i}', x, f'keyboard {x!r} does not exist')
    # the page shows layouts by name
    p = os.path.join(DATA, 'report', 'index.html')
    if os.path.exists(p):
        with open(p, encoding='utf8') as fd:
            for i, l in enumerate(fd, 1):
                for x in re.findall(r"layoutstats\['([^']+)'\]", l):
                    ck.expect(x in know, rule, f'lulua/data/report/index.html:{i}', x, f'layout {x!r} does not exist')
