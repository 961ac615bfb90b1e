from checks.typing_common import *
from checks.layout_common import construct, effects, ge
from sa.zones import feasible
import checks.c01 as c01

EXPLANATION = ('Abstract interpretation of Writer.type and KeyboardLayout: on every path of the typing loop the lookup is the '
               'longest-prefix query on the whole buffered text, the buffer has been filled up to the longest string of the '
               'layout (or the stream ended) before it, the combination is chosen from the value of that very lookup, and a '
               'character is skipped only on paths where the lookup found nothing; the constructor of KeyboardLayout keeps '
               'bufferLen an upper bound of the length of every string it inserts.')
ASSUMPTIONS = ['CharTrie.longest_prefix returns the longest stored key that is a prefix of its argument (pygtrie documentation)',
               'fd.read(n) returns n characters unless the stream ends (text streams)',
               'the finger table covers every key that can be typed (property C20), so choosing a combination does not fail']


def lookups(trace):
    return [e for e in trace if e.kind == 'mcall' and e.name in ('longest_prefix', 'shortest_prefix', 'prefixes', 'get', 'has_key')
            and isapp(e.recv, 'attr') and e.recv.args[1] == 't']


def run(ck):
    ty = Typing(ck)
    for p, loop in zip(ty.paths, ty.loops):
        slots = [c for c in c01.textslot(ty, loop) if any(occurs(x, c[2]) for lp in loop.paths for e in ty.events(lp.trace)
                                                          if e[0] in ('typed', 'skipped') for x in e[2:])]
        if len(slots) != 1:
            raise Lost(f'{len(slots)} text buffers')
        sl, init, mu = slots[0]
        for lp in loop.paths:
            ck.part('iteration', iteration, ck, ty, lp, sl, mu)
        break
    ck.part('lookahead covers every string', bound, ck)


def iteration(ck, ty, lp, sl, mu):
    evs = ty.events(lp.trace)
    ys = [e for e in evs if e[0] in ('typed', 'skipped')]
    if not ys:
        return
    w = at(ys[0][1])
    facts = dict((a, v) for a, v in lp.facts)
    lks = lookups(lp.trace)
    P = Pieces(ty.prefixof)
    try:
        whole = P.norm(mu, *c01.readpieces(ty, P, evs))
    except Lost as e:
        return ck.undecided('the whole buffered text is looked up', w, e)
    emp = knownempty(lp.facts)
    whole = [x for x in whole if x[1] not in emp]
    for y in ys:
        if y[0] == 'typed':
            text, comb = y[2], y[3]
            m = None
            if isapp(text, 'attr') and text.args[1] == 'key':
                m = text.args[0]
            elif isapp(text, 'getitem') and text.args[1] == Const(0):
                m = text.args[0]
            if not (isapp(m, 'mcall') and isapp(m.args[0], 'attr') and m.args[0].args[1] == 't'):
                ck.undecided('the string typed is the longest match', w, f'typed {text!r}')
                continue
            if m.args[1] != 'longest_prefix':
                ck.expect(False if m.args[1] in ('shortest_prefix', 'prefixes') else None, 'the string typed is the longest match', w, '', f'typed {text!r}')
                continue
            ck.holds('the string typed is the longest match', w, text)
            before = len(P.changed)
            got = [x for x in P.norm(m.args[2][0]) if x[1] not in emp]
            ok = got == whole
            ck.expect(True if ok else (False if len(P.changed) > before or c01.understood(ty, got, mu) else None),
                      'the whole buffered text is looked up', w, showpieces(got), f'looked up {showpieces(got)} of {showpieces(whole)}')
            # combination
            val = {App('attr', m, 'value'), App('getitem', m, Const(1))}
            oc = [e for e in lp.trace if e.kind == 'ocall' and e.qual == CHOOSE and e.result == comb]
            if oc:
                arg = oc[0].args[1]
                ck.expect(True if arg in val else (None if not mentions(arg, val) else False), 'the combination is chosen from the ones offered for the match', w,
                          comb, f'chosen from {arg!r}')
            else:
                offered = any(isapp(comb, 'getitem') and comb.args[0] == v for v in val) or \
                    any(isapp(comb, 'elem') and comb.args[0] == v for v in val)
                ck.expect(True if offered else None, 'the combination is chosen from the ones offered for the match', w, comb, f'combination {comb!r}')
        else:
            # skipped: the lookup must have failed
            why = None
            if not lks:
                # no lookup on this path
                why = False
                ck.violated('a character is skipped only if nothing matches', w, f'skipped without a lookup when {c01.short(lp.facts)}')
                continue
            for e in lks:
                r = e.result
                none = [App('attr', r, 'key'), App('getitem', r, Const(0))]
                for n in none:
                    if facts.get(eq(NONE, n)) is True or facts.get(App('truth', n)) is False:
                        why = True
                if facts.get(App('truth', r)) is False or facts.get(eq(NONE, r)) is True:
                    why = True
                for a, v in lp.facts:
                    if isapp(a, 'raises') and v and a.args[0] == r:
                        why = True
            for a, v in lp.facts:
                if isapp(a, 'raises') and v and isapp(a.args[0], 'call') and a.args[0].args[0] == CHOOSE:
                    why = True
            if why is None:
                known = all(e.name == 'longest_prefix' for e in lks)
                why = False if known and all(factok(ty, a, lks) for a, _ in lp.facts) else None
            ck.expect(why, 'a character is skipped only if nothing matches', w, c01.short(lp.facts), f'skipped when {c01.short(lp.facts)}')
    filled(ck, ty, lp, mu, evs, w, P)


def mentions(t, vals):
    return any(v == x for x in subterms(t) for v in vals)


def factok(ty, a, lks):
    """a fact the analysis fully understands"""
    for x in subterms(a):
        if isapp(x, 'unknown') or isapp(x, 'after'):
            return False
    return True


def filled(ck, ty, lp, mu, evs, w, P):
    """before the lookup the buffer holds bufferLen characters or the stream ended"""
    rule = 'the buffer is filled up to the longest string before the lookup'
    bl = App('attr', App('attr', ty.self, 'layout'), 'bufferLen')
    B = Sym('bufferLen', 'int')
    L = Sym('len(buffer)', 'int')
    m = {bl: B, App('len', mu): L}
    for inner in P.afters:
        m[App('len', inner)] = L
    reads = [e[1] for e in evs if e[0] == 'read']
    emp = knownempty(lp.facts)
    facts = [(subst(a, m), v) for a, v in lp.facts if isapp(a, 'lt0') or isapp(a, 'eq0')]
    if any(r.result in emp for r in reads):
        return ck.holds(rule, w, 'the stream has ended')
    if any(not r.args for r in reads):
        return ck.holds(rule, w, 'reads everything')
    if P.afters and not reads:
        # left the filling loop normally
        v = feasible(facts + [(lt(L, B), True)], [(B, 1, None), (L, 0, None)])
        return ck.expect(False if v else True, rule, w, 'loop fills up', 'the filling loop may stop early')
    if not reads:
        v = feasible(facts + [(lt(L, B), True)], [(B, 1, None), (L, 0, None)])
        if not v:
            return ck.holds(rule, w, 'already long enough')
        return ck.violated(rule, w, f'looked up with less than bufferLen characters without reading, when {c01.short(lp.facts)}')
    if len(reads) > 1:
        return ck.undecided(rule, w, f'{len(reads)} reads')
    size = subst(reads[0].args[0], m)
    cands = [size]
    if isapp(size, 'maxof'):
        cands = [x for x in size.args if isinstance(x, T)]
    for s in cands:
        # s >= B - L ?
        d = padd(topoly(s), topoly(sub(B, L)), -1)
        if not d or list(d) == [()] and d[()] >= 0:
            return ck.holds(rule, w, f'reads {size!r}')
        # s - (B - L) = c*B + k*L + const, B >= 1, L >= 0
        if set(d) <= {(), (B,), (L,)} and d.get((B,), 0) >= 0 and d.get((L,), 0) >= 0 and d.get((B,), 0) + d.get((), 0) >= 0:
            return ck.holds(rule, w, f'reads {size!r}')
    # a counterexample among small buffer sizes?
    from sa.evalt import Ev
    plain = [(a, v) for a, v in facts if all(x in ((), (B,), (L,)) for x in topoly(a.args[0]))]
    for b in range(1, 7):
        for l in range(0, b + 1):
            e = Ev({B: b, L: l})
            if e.holds(plain) and 0 <= e.ev(size) < b - l:
                return ck.violated(rule, w, f'reads only {size!r} characters, e.g. {e.ev(size)} when {b - l} are missing')
    ck.undecided(rule, w, f'reads {size!r}')


def bound(ck):
    it, ps = construct(ck)
    rule = 'lookahead covers every string'
    n = 0
    for p in ps:
        if p.outcome == 'raise':
            continue
        self = p.value
        sl = ('attr', self.id, 'bufferLen')
        for e, ctx, facts, lp in effects(p.trace):
            if e.kind not in ('setdefault', 'setitem') or not (isapp(e.obj, 'call') and 'CharTrie' in str(e.obj.args[0])):
                continue
            if not ctx:
                continue
            n += 1
            # innermost enclosing loop that carries bufferLen
            loops = [(l, q) for l, q in ctx if sl in l.slots]
            if not loops:
                fin = p.state.get(self.id).attrs.get('bufferLen')
                ck.expect(False if fin is not None and isconst(fin) else None, rule, at(e), '', f'bufferLen = {fin!r}')
                continue
            l, q = loops[-1]
            init, mu = l.slots[sl]
            u = q.updates.get(sl, mu)
            r = ge(u, App('len', e.key), tuple(facts))
            ck.expect(r, rule, at(e), f'bufferLen becomes {u!r}', f'bufferLen becomes {u!r} when {e.key!r} is inserted')
        for l, q in allloops(p.trace):
            if sl in l.slots:
                init, mu = l.slots[sl]
                u = q.updates.get(sl, mu)
                r = ge(u, mu, tuple(q.facts))
                ck.expect(r, 'lookahead never shrinks', f'{l.mod.replace(".", "/")}.py:{l.line}', f'{u!r}', f'bufferLen may become {u!r}')
    if not n:
        raise Lost('no insertion into the trie found')


def allloops(trace):
    for e in trace:
        if e.kind == 'loop':
            for lp in e.loop.paths:
                yield e.loop, lp
                yield from allloops(lp.trace)
