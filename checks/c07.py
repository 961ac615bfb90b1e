"""C07: runs of one hand and one finger."""
from checks.sm import *

EXPLANATION = ('RunlenStats.process is summarised per abstract state and event class; the product with the run-length automaton is explored '
               'first with concrete run lengths, then to a fixpoint with symbolic run lengths (the attributes that track them are found in '
               'the first pass). Each transition must record exactly the run that ended, under the hand or finger that typed it.')
ASSUMPTIONS = ['hands and fingers of keys come from Writer.getHandFinger (checked by C20)']

RULE = 'a change of hand or finger records exactly the run that ended'


def run(ck):
    ck.part('runs', runs, ck)


def fingers(it):
    fm = it.modattr('lulua.writer', 'defaultFingermap')
    out = {}
    o = it.base.get(fm.id) if isinstance(fm, Ref) else None
    if o is None:
        raise Lost('finger table')
    for s in o.segs:
        kv = s.args[0]
        if isapp(s, 'one') and isapp(kv, 'tuple') and isconst(kv.args[0]) and isapp(kv.args[1], 'tuple'):
            out[kv.args[0].v] = kv.args[1].args
    return out


def runs(ck):
    it, w = harness(ck)
    m = Machine(ck, it, 'stats.RunlenStats', w)
    ev = Events(it)
    fm = fingers(it)
    L, R = it.modattr('lulua.layout', 'LEFT'), it.modattr('lulua.layout', 'RIGHT')
    pick = {}
    for k, (h, f) in sorted(fm.items()):
        if f.name in ('LITTLE', 'RING', 'INDEX', 'THUMB'):
            pick.setdefault((h.name, f.name), []).append(k)
    keys = [v[0] for v in pick.values()] + [v[1] for v in pick.values() if len(v) > 1][:2]
    alpha = [(k, ev.comb(k), k) for k in keys]
    # a modifier of the other hand does not take part
    other = {L: 'Er_shift', R: 'El_shift'}
    alpha += [(other[fm[k][0]] + '+' + k, ev.comb(k, (other[fm[k][0]],)), k) for k in keys[:1] + keys[-1:] if fm[k][0] in other]
    alpha += [('skip ' + repr(c), ev.skip(c), None) for c in SKIPPED]
    alpha.append(('skip', ev.skip(), None))

    def spec(q, k):
        hand, nh, fing, nf = q
        if k is None:
            return (None, Const(0), None, Const(0)), {}
        h, f = fm[k]
        d = {}
        if hand is None:
            nh = Const(1)
        elif hand == h:
            nh = add(nh, Const(1))
        else:
            d[('perHandRunlenDist', hand, nh)] = 1
            nh = Const(1)
        hf = ('tuple', h, f)
        if fing is None:
            nf = Const(1)
        elif fing == hf:
            nf = add(nf, Const(1))
        else:
            d[('fingerRunlenDist', fing, nf)] = 1
            nf = Const(1)
        return (h, nh, hf, nf), d
    q0 = (None, Const(0), None, Const(0))
    small = [a for a in alpha if a[0] in keys[:1] + keys[2:3] + keys[4:5] + keys[-1:]] + alpha[-1:]
    seen = explore(ck, m, q0, small, spec, RULE, depth=4)
    if any(o['verdict'] == 'violated' for o in ck.obs):
        return
    # attributes that track the run lengths
    cand = {1: None, 3: None}
    for i in cand:
        for s, q in seen:
            have = {k for k, v in s if v == q[i]}
            cand[i] = have if cand[i] is None else cand[i] & have
    if not all(cand.values()):
        ck.undecided('run lengths of any size', m.where, 'no attribute tracks the run length; bounded to runs of 4 keys')
        return
    N = {1: Sym('nh', 'int'), 3: Sym('nf', 'int')}

    def widen(s, q):
        s, q = dict(s), list(q)
        for i, attrs in cand.items():
            if isconst(q[i]) and q[i].v == 0:
                continue
            if all(s.get(a) == q[i] for a in attrs):
                for a in attrs:
                    s[a] = N[i]
                q[i] = N[i]
        return tuple(sorted(s.items())), tuple(q)

    def assume(node):
        return [App('not', lt0(padd(topoly(x), topoly(Const(1)), -1))) for x in N.values()]
    try:
        kinds = set()

        def some(node):
            k = node[1][0]
            return not (k in kinds or kinds.add(k))
        rest = [k for k in keynames() if k in fm]
        more = [(k, ev.comb(k), k) for k in rest if k not in keys] + [('Dl_caps+' + k, ev.comb(k, ('Dl_caps',)), k) for k in rest]
        explore(ck, m, q0, alpha, spec, RULE + ', for runs of any length', widen=widen, limit=400, unknowns=tuple(N.values()),
                assume=lambda node: [x for x in assume(node)], extra=more, extrafrom=some, extrathen=alpha[:3])
    finally:
        ck.used(it)
    rejects(ck, m)
