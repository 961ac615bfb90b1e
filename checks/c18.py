"""C18: stroke path classification."""
from checks.world import *
import itertools

EXPLANATION = ('The classification is propagated over its finite domain: every triple of the ten fingers with every admissible pattern of '
               'repeated keys, and every triple of the five rows, as constants through the code. Hand, row and finger of a key come from '
               'the writer and the keyboard, which are replaced by the constants. The categories found are compared with the rules of the '
               'carpalx model; a triple for which the code ends in an assertion is unclassified.')
ASSUMPTIONS = ['hand, row and finger of a key are those of C20 and C21', 'five rows, as on the shipped keyboards']

# the carpalx rules
def hand(h):
    if h[0] == h[1] == h[2]:
        return 2
    return 1 if h[0] == h[2] else 0


def row(r):
    """rows are numbered from the top: downward is increasing"""
    if r[0] == r[1] == r[2]:
        return 0
    if r[0] <= r[1] <= r[2]:
        return 1 if r[0] == r[1] or r[1] == r[2] else 4
    if r[0] >= r[1] >= r[2]:
        return 2 if r[0] == r[1] or r[1] == r[2] else 6
    steps = (r[1] - r[0], r[2] - r[1])
    if max(abs(s) for s in steps) <= 1:
        return 3
    return 5 if max(steps) > 1 else 7


def finger(f, same):
    """f: 1 (left little) … 10 (right little); same: a key is repeated"""
    if f[0] == f[1] == f[2]:
        return 5 if same else 7
    if f[0] > f[2] > f[1] or f[0] < f[2] < f[1]:
        return 2
    mono = f[0] <= f[1] <= f[2] or f[0] >= f[1] >= f[2]
    if len(set(f)) == 3:
        return 0 if mono else 3
    if not mono:
        return 4
    return 1 if same else 6


NAMES = ('hand', 'row', 'finger')
PATTERNS = [(0, 1, 2), (0, 0, 1), (0, 1, 1), (0, 1, 0), (0, 0, 0)]


def run(ck):
    ck.part('classification', classify, ck)


def domain(it):
    d, ft = cls(it, 'layout.Direction'), cls(it, 'layout.FingerType')
    if d is None or ft is None:
        raise Gone('Direction, FingerType')
    en = lambda c: [v for v in c.attrs.values() if isinstance(v, Enum)]
    hands = {v.name: v for v in en(d)}
    fingers = {v.name: v for v in en(ft)}
    order = ['LITTLE', 'RING', 'MIDDLE', 'INDEX', 'THUMB']
    if set(hands) < {'LEFT', 'RIGHT'} or set(fingers) != set(order):
        raise Lost('hands and fingers')
    return [('LEFT', n) for n in order] + [('RIGHT', n) for n in reversed(order)], hands, fingers


def classify(ck):
    it = interp()
    f = method(it, 'carpalx.Carpalx', '_strokePath')
    if f is None:
        raise Gone('Carpalx._strokePath')
    where = f'lulua/carpalx.py:{f.node.lineno}'
    order, hands, fingers = domain(it)
    cur = {}

    def hf(i, a, k):
        h, n = cur[a[1] if len(a) > 1 else k.get('b')][0]
        return tup(hands[h], fingers[n])
    it.hooks['lulua.writer.Writer.getHandFinger'] = hf
    it.hooks['lulua.keyboard.PhysicalKeyboard.getRow'] = lambda i, a, k: Const(cur[a[1] if len(a) > 1 else k.get('btn')][1])
    cx = sym(it, 'cx', 'carpalx.Carpalx')
    rows = list(itertools.product(range(5), repeat=3))
    n = 0
    seen, bad = set(), {}
    ri = 0
    for fs in itertools.product(range(10), repeat=3):
        for pat in PATTERNS:
            if any(pat[x] == pat[y] and fs[x] != fs[y] for x in range(3) for y in range(3)):
                continue
            ok = [r for r in rows if all(pat[x] != pat[y] or r[x] == r[y] for x in range(3) for y in range(3))]
            for rs in (ok if thorough() else [ok[(ri * m + m) % len(ok)] for m in (1, 7, 13, 29, 53)]):
                judge(ck, it, f, cx, cur, order, fs, pat, rs, seen, bad)
                n += 1
            ri += 1

        if len(bad) > 2:
            break
    ck.count('triads', n)
    ck.count('row triples', len(seen))
    ck.used(it)
    for r in ['every triad is classified'] + [f'the {x} category follows the rules' for x in NAMES]:
        ck.expect(r not in bad, r, where, f'{n} triads', bad.get(r, ''))


def judge(ck, it, f, cx, cur, order, fs, pat, rs, seen, bad):
    cur.clear()
    keys = [World.key(f'K{p}') for p in pat]
    for k, fi, r in zip(keys, fs, rs):
        cur[k] = (order[fi], r)
    same = len(set(pat)) < 3
    want = (hand([order[x][0] for x in fs]), row(rs), finger(fs, same))
    ps = it.analyse(lambda: it.call(f, [cx, tup(*keys)], {}))
    seen.add(rs)
    what = f'{[order[x] for x in fs]} rows {rs}{" repeated key" if same else ""}'
    if len(ps) != 1 or ps[0].outcome == 'budget':
        raise Lost(f'{what} is not decided by its constants')
    p = ps[0]
    if p.outcome == 'raise':
        bad.setdefault('every triad is classified', f'{what}: {p.value.exc}')
        return
    xs = it.concrete(p.value)
    if xs is None or len(xs) != 3 or not all(isconst(x) for x in xs):
        raise Lost(f'category {p.value!r}'[:100])
    for nm, got, w in zip(NAMES, xs, want):
        if got.v != w:
            bad.setdefault(f'the {nm} category follows the rules', f'{what}: {got.v} instead of {w}')
