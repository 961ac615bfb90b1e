import itertools

from checks.typing_common import *
from sa.evalt import Ev, Undefined, loopsof
import checks.c01 as c01

EXPLANATION = ('Abstract interpretation of Writer.chooseCombination gives its result as a term over the offered combinations, '
               'the hand of each key and the combination typed before; the term is evaluated for every list of up to three '
               'combinations over the finite abstraction (0..2 modifiers and one key, each on the left or right hand; no '
               'previous combination or any of these) and compared with the lexicographic order (number of keys, balance of '
               'hands, balance with previous combination, position).  In Writer.type, on every path that yields a typed '
               'combination that very combination is remembered, and skipping changes nothing.')
ASSUMPTIONS = ['getHandFinger(k)[0] is the hand of the key (Direction.LEFT or RIGHT)', 'combinations have at most 255 keys']

G = 'lulua.writer.Writer.getHandFinger'


class Key:
    def __init__(self, hand, name):
        self.hand, self.name = hand, name

    def __repr__(self):
        return self.name


class Comb:
    def __init__(self, mod, but):
        self.modifier, self.buttons = mod, but

    def __repr__(self):
        return '+'.join(map(repr, self.modifier + self.buttons))


class Wr:
    def __init__(self, last):
        self.lastCombination = last


def run(ck):
    ck.part('remembered combination', remembered, ck)
    ck.part('choice', choice, ck)


def choice(ck):
    it = interp(opaque={G}, pure={G})
    f = method(it, 'writer.Writer', 'chooseCombination')
    if f is None:
        raise Gone('lulua.writer.Writer.chooseCombination')
    w, combs = sym(it, 'self', 'writer.Writer'), Sym('combs', 'list')
    ps = it.analyse(lambda: it.call(f, [w, combs], {}))
    ck.used(it)
    ck.count('paths', len(ps))
    L = enum(it, 'LEFT')
    R = enum(it, 'RIGHT')
    rule = 'the combination with the fewest keys, best balance, best continuation, first offered is chosen'
    where = f'lulua/writer.py:{f.node.lineno}'
    for p in ps:
        if p.outcome == 'return' and combs in p.state.cont:
            e = next((e for e in p.trace if getattr(e, 'obj', None) == combs), None)
            ck.violated('choosing leaves the alternatives as the layout offers them', at(e) if e is not None else where, 'the list of alternatives, which belongs to the layout, is changed')
    # finite abstraction
    ml, ml2, mr = Key(L, 'modL'), Key(L, 'modL2'), Key(R, 'modR')
    bl, br = Key(L, 'l'), Key(R, 'r')
    mods = [(), (ml,), (mr,), (ml, mr), (ml, ml2)]
    univ = [Comb(m, (b,)) for m in mods for b in (bl, br)]
    score = {L: 1, R: -1}

    def spec(cs, prev):
        def cost(c):
            bal = abs(sum(score[k.hand] for k in c.modifier + c.buttons))
            if prev is None:
                pb = 1
            else:
                pb = abs(sum(score[k.hand] for k in (prev.modifier or prev.buttons) + c.buttons))
            return (len(c.modifier) + len(c.buttons), bal, pb)
        return min(cs, key=cost)

    cases = []
    for prev in [None] + univ:
        for a in univ:
            cases.append(([a], prev))
            for b in univ:
                cases.append(([a, b], prev))
        for tr in itertools.product(univ[::3], repeat=3):
            cases.append((list(tr), prev))
    wide = [Comb(tuple([ml] * i + [mr] * j), (b,)) for i in range(4) for j in range(4) if i + j >= 2 for b in (bl, br)]
    cases += [([a, b], prev) for prev in wide for a in univ[:4] for b in univ[:4] if a is not b]
    cases += [([a, b], prev) for prev in (None, univ[0], univ[3], wide[-1]) for a in wide for b in wide if len(a.modifier) == len(b.modifier)]
    try:
        n = bypaths(ck, ps, cases, w, combs, spec, rule, where)
    except Lost as x:
        n = bylists(ck, cases, spec, rule, where, x)
    if n is None:
        return
    ck.count('abstract cases', n)
    ck.holds(rule, where, f'{n} abstract cases, {len(ps)} paths')


def bylists(ck, cases, spec, rule, where, why):
    """the result for arbitrary lists is no closed term: propagate lists of known length and hands"""
    it = interp(start=True)
    cc, wc = cls(it, 'layout.ButtonCombination'), cls(it, 'writer.Writer')
    hands = {}

    def hand(i, a, k):
        x = a[1] if len(a) > 1 else k.get('button')
        if x not in hands:
            raise Lost(f'hand of {x!r}')
        return App('tuple', hands[x], App('finger', x))
    it.hooks[G] = hand
    f = method(it, 'writer.Writer', 'chooseCombination')

    def key(k, j):
        e = Enum('lulua.keyboard.LetterButton', f'{k.name}{j or ""}', f'key {k.name}{j}')
        hands[e] = k.hand
        return e

    def make(c):
        # keys of a combination differ
        ks = [key(k, c.modifier[:j].count(k)) for j, k in enumerate(c.modifier)]
        return it.call(ClassV(cc), [App('frozenset', *ks), App('frozenset', *[key(k, 0) for k in c.buttons])], {})
    step = max(1, len(cases) // (6000 if ck.thorough else 700))
    n = 0
    for cs, prev in cases[::step]:
        made = {}

        def go():
            objs = {}
            for c in cs + ([prev] if prev is not None else []):
                if id(c) not in objs:
                    objs[id(c)] = make(c)
            xs = [objs[id(c)] for c in cs]
            made['x'] = xs
            w = it.new(Obj('inst', cls=wc, attrs={'lastCombination': NONE if prev is None else objs[id(prev)], 'layout': Sym('layout')}))
            made['l'] = it.new(Obj('list', segs=tuple(seg1(x) for x in xs)))
            return it.call(f, [w, made['l']], {})
        ps = it.analyse(go)
        if len(ps) != 1 or ps[0].outcome not in ('return', 'raise'):
            raise why
        p = ps[0]
        got = None
        if p.outcome == 'return':
            if p.value not in made['x']:
                raise why
            got = cs[made['x'].index(p.value)]
            if tuple(p.state.get(made['l'].id).segs) != tuple(seg1(x) for x in made['x']):
                ck.violated('choosing leaves the alternatives as the layout offers them', where, f'offered {cs}: the list, which belongs to the layout, is changed')
                return None
        want = spec(cs, prev)
        n += 1
        if got is not want and repr(got) != repr(want):
            ck.violated(rule, where, f'offered {cs} after {prev}: picks {got}, not {want}')
            return None
    ck.used(it)
    return n


def bypaths(ck, ps, cases, w, combs, spec, rule, where):
    n = 0
    loops = [loopsof(p.trace) for p in ps]

    def attr(o, n):
        if isinstance(o, (Comb, Wr)) and n in ('modifier', 'buttons', 'lastCombination'):
            return (getattr(o, n, None),)

    def call(q, args):
        if q == G:
            return ((args[1].hand, None),)
    for cs, prev in cases:
        env = {w: Wr(prev), combs: cs}
        got = []
        for p, lo in zip(ps, loops):
            e = Ev(env, attr=attr, call=call, loops=lo, iterate=lambda v: v.modifier + v.buttons if isinstance(v, Comb) else None,
                   length=lambda v: len(v.modifier) + len(v.buttons) if isinstance(v, Comb) else None,
                   truthy=lambda v: True if isinstance(v, Comb) else None)
            if not e.holds(p.facts):
                continue
            if p.outcome == 'raise':
                got.append(None)
                continue
            try:
                got.append(e.ev(p.value))
            except Undefined:
                got.append(None)
        if len(got) != 1:
            raise Lost(f'{len(got)} paths for {cs} after {prev}')
        want = spec(cs, prev)
        n += 1
        if got[0] is not want:
            ck.violated(rule, where, f'offered {cs} after {prev}: picks {got[0]}, not {want}')
            return None
    return n


def enum(it, name):
    c = cls(it, 'layout.Direction')
    if c is None:
        raise Gone('lulua.layout.Direction')
    f = it.modattr('lulua.layout', name)
    return f


def remembered(ck):
    ty = Typing(ck)
    rule = 'the combination typed last is the one remembered'
    sl = ('sattr', ty.self, 'lastCombination')
    for p, loop in zip(ty.paths, ty.loops):
        carried = loop.slots.get(sl)
        for lp in loop.paths:
            evs = ty.events(lp.trace)
            typed = [e for e in evs if e[0] == 'typed']
            sk = [e for e in evs if e[0] == 'skipped']
            if lp.outcome != 'next' or not (typed or sk):
                continue
            y = (typed or sk)[-1]
            if carried is None:
                ck.violated(rule, at(y[1]), 'no path remembers a combination')
                continue
            init, mu = carried
            new = lp.updates.get(sl, mu)
            if typed:
                ck.expect(True if new == typed[-1][3] else (None if contains(new, lambda x: isapp(x, 'unknown') or isapp(x, 'after')) else False),
                          rule, at(y[1]), f'{new!r}', f'typed {typed[-1][3]!r}, remembers {new!r}')
                if comb_chosen(lp, typed[-1][3]) is False:
                    ck.violated('the combination typed is the chosen one', at(y[1]), f'types {typed[-1][3]!r}')
            else:
                ck.expect(True if new == mu or new == init else False, 'skipping does not change what is remembered', at(y[1]), f'{new!r}',
                          f'after a skip remembers {new!r}')
        # nothing else than typing resets it
        for e in c01.pretrace(p, loop):
            if e.kind == 'setattr' and e.obj == ty.self and e.name == 'lastCombination':
                ck.violated(rule, at(e), f'typing starts by remembering {e.value!r}')
        break
    fresh(ck)


def comb_chosen(lp, comb):
    if any(e.kind == 'ocall' and e.qual == CHOOSE and e.result == comb for e in lp.trace):
        return True
    if isapp(comb, 'getitem') and isapp(comb.args[0], 'attr') and comb.args[0].args[1] == 'value':
        return False
    return None


def fresh(ck):
    it = interp()
    c = cls(it, 'writer.Writer')
    ps = it.analyse(lambda: it.call(ClassV(c), [Sym('layout')], {}))
    ck.used(it)
    for p in ps:
        if p.outcome == 'raise':
            continue
        v = p.state.get(p.value.id).attrs.get('lastCombination')
        ck.expect(v == NONE if v is not None else None, 'a new typist remembers no combination', 'lulua/writer.py', repr(v), f'{v!r}')
