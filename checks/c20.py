"""C20: hand, finger, row and effort of every key."""
from checks.data import *
from checks import c18, c19
from checks.c08 import IGNORED

EXPLANATION = ('The keyboard definition is read as data and every key of it is sent as a constant through the writer (hand and finger) and the '
               'keyboard (row); the answers are compared with the position of the key. For every model and every combination of every shipped '
               'layout (all layers, all alternative modifiers) the triad made of it is added to an effort account with the constants of the '
               'model: no path may raise. Models are checked for completeness.')
ASSUMPTIONS = ['rows of a keyboard definition list the left half first, keys from left to right', 'triads contain no whitespace keys and backspace (C08)']
FINGERS = ('LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB')


def run(ck):
    kbs = {n: v for n, v in definitions('keyboards').items()}
    for n, (path, kb) in kbs.items():
        if isinstance(kb, Exception):
            raise Lost(f'{path}: {kb}'[:100])
    ck.part('hand and finger', fingers, ck, kbs)
    ck.part('row', rows, ck, kbs)
    ck.part('effort', effort, ck, kbs)
    ck.part('models', c19.shipped, ck)


def writer(it, w):
    c = cls(it, 'writer.Writer')
    if c is None:
        raise Gone('lulua.writer.Writer')
    return it.call(ClassV(c), [w.layout()], {})


def result(p):
    return p.value if p.outcome == 'return' else None


def fingers(ck, kbs):
    for n, (path, kb) in kbs.items():
        it = interp()
        w = Shipped(it, kb)
        w.laydata = dict(name='x')
        order, hands, fs = c18.domain(it)
        f = method(it, 'writer.Writer', 'getHandFinger')
        if f is None:
            raise Gone('lulua.writer.Writer.getHandFinger')
        where = f'lulua/writer.py:{f.node.lineno}'
        got = {}
        for k in w.keys:
            def go():
                return it.call(f, [writer(it, w), k], {})
            ps = it.analyse(go)
            ck.count('keys')
            rule = 'every key has exactly one hand and finger'
            if len(ps) != 1 or ps[0].outcome == 'raise':
                bad = len(ps) >= 1 and all(p.outcome == 'raise' for p in ps)
                ck.expect(False if bad else None, rule, where, k.name, f'no finger for {k.name} of {n}')
                continue
            v = ps[0].value
            xs = it.concrete(v) if not isapp(v, 'tuple') else v.args
            if xs is None or len(xs) != 2 or not all(isinstance(x, Enum) for x in xs):
                ck.expect(None, rule, where, f'{k.name}: {v!r}'[:100])
                continue
            ck.expect(xs[0] in hands.values() and xs[1] in fs.values(), rule, where, k.name, f'{k.name}: {xs[0].name} {xs[1].name}')
            got[k] = (xs[0].name, xs[1].name)
        for r, row in enumerate(kb['rows']):
            for h, half in enumerate(row):
                side = 'LEFT' if h == 0 else 'RIGHT'
                ks = [w.named[b['name']] for b in half]
                for k in ks:
                    if k in got:
                        ck.expect(got[k][0] == side, 'a key is typed by the hand of its half', where, k.name, f'{k.name} lies {side}, is typed {got[k][0]}')
                seq = [k for k in (ks if h == 0 else reversed(ks)) if k in got and k.cls.endswith('.LetterButton')]
                for a, b in zip(seq, seq[1:]):
                    fa, fb = FINGERS.index(got[a][1]), FINGERS.index(got[b][1])
                    ck.expect(fa <= fb, 'fingers do not cross', where, f'{a.name} {b.name}',
                              f'{a.name} is typed by {got[a][1]}, {b.name} further in by {got[b][1]}')
                for a in seq:
                    ck.expect(got[a][1] != 'THUMB', 'fingers do not cross', where, a.name, f'{a.name} is typed by the thumb')
        ck.used(it)


def rows(ck, kbs):
    for n, (path, kb) in kbs.items():
        it = interp()
        w = Shipped(it, kb)
        it.hooks.pop('lulua.keyboard.PhysicalKeyboard.getRow')
        it.hooks.pop('lulua.keyboard.PhysicalKeyboard.__iter__', None)
        c = cls(it, 'keyboard.PhysicalKeyboard')
        f = method(it, 'keyboard.PhysicalKeyboard', 'getRow')
        if f is None:
            raise Gone('lulua.keyboard.PhysicalKeyboard.getRow')
        where = f'lulua/keyboard.py:{f.node.lineno}'

        def go():
            kbd = w.keyboard()
            new = it.call(ClassV(c), [it.getattr(kbd, 'name'), it.getattr(kbd, 'description'), it.getattr(kbd, 'rows')], {})
            return tup(*[it.call(f, [new, k], {}) for k in w.keys])
        rule = 'the row of a key is the one it lies on'
        for p in it.analyse(go):
            if p.outcome != 'return':
                ck.expect(False if p.outcome == 'raise' and not p.facts else None, rule, where, n, f'getRow raises {p.value.exc!r}'[:120])
                continue
            for k, v in zip(w.keys, p.value.args):
                ck.expect(None if not isconst(v) else v.v == w.data[k][0], rule, where, f'{k.name} {v!r}'[:80], f'{k.name}: row {v!r}, not {w.data[k][0]}')
        ck.used(it)


def effort(ck, kbs):
    lays = definitions('layouts')
    for n, (path, kb) in kbs.items():
        it = interp()
        w = Shipped(it, kb)
        w.laydata = dict(name='x')
        c, ms = cls(it, 'carpalx.Carpalx'), it.modattr('lulua.carpalx', 'models')
        f = method(it, 'carpalx.Carpalx', 'addTriad')
        if c is None or ms is None or f is None:
            raise Gone('lulua.carpalx')
        combs = {}
        for ln, (lp, lay) in lays.items():
            if isinstance(lay, Exception):
                continue
            for mods, t in layers(lay):
                for m in mods:
                    for k in t:
                        if k in IGNORED or k not in w.named or not all(x in w.named for x in m):
                            continue
                        combs.setdefault((m, k), (ln, f'{lp}:{t.lines.get(k, 0)}' if hasattr(t, 'lines') else lp))
        st = it.analyse(lambda: NONE)[0].state
        bc = ClassV(cls(it, 'layout.ButtonCombination'))
        rule = 'every combination of a shipped layout has an effort in every model'
        for name, model in dictof(st, ms).items():
            def one(m, k):
                def go():
                    cx = it.call(ClassV(c), [model, writer(it, w)], {})
                    comb = it.call(bc, [App('frozenset', *sorted((w.named[x] for x in m), key=lambda q: q.name)), App('frozenset', w.named[k])], {})
                    it.call(f, [cx, tup(comb, comb, comb), Const(1)], {})
                    return it.getattr(cx, 'effort')
                return go
            # effort is a sum over keys (C19): each key once, and each combination of a modifier
            for (m, k), (ln, where) in sorted(combs.items(), key=lambda x: (len(x[0][0]), sorted(x[0][0]), x[0][1])):
                ps = it.analyse(one(m, k))
                ck.count('combinations')
                for p in ps:
                    if p.outcome == 'raise':
                        ck.expect(False if len(ps) == 1 else None, rule, where, f'{name.v} {sorted(m)} {k}',
                                  f'{"+".join(sorted(m) + [k])} of {ln} has no effort in model {name.v}: {p.value.exc!r}'[:160])
                    else:
                        v = p.value
                        ok = isconst(v) and isinstance(v.v, (int, float))
                        ck.expect(True if ok and v.v >= 0 else False if ok else None, rule, where, f'{name.v} {sorted(m)} {k} {v!r}'[:100],
                                  f'{sorted(m)} {k}: effort {v!r}'[:100])
        ck.used(it)
