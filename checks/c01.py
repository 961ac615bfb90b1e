from checks.typing_common import *
from sa.zones import feasible

EXPLANATION = ('Abstract interpretation of Writer.type (everything it calls inlined, chooseCombination opaque): for every '
               'path through one iteration of its loop, for all buffer contents and read results, the pieces of text '
               'yielded plus the text kept equal the text kept before plus the text read, in order; every path that '
               'leaves the loop has nothing left and has seen an empty read of non-zero size.')
ASSUMPTIONS = ['fd.read(n) with n > 0 returns the empty string only at the end of the stream (io semantics)',
               'CharTrie.longest_prefix(x).key is a prefix of x or None (pygtrie documentation)',
               'KeyboardLayout.bufferLen >= 1 (established by rule "lookahead is never zero")']


def textslot(ty, loop):
    """the loop-carried variables holding unread text"""
    out = []
    for sl, (init, mu) in loop.slots.items():
        if isapp(mu, 'mu') and (typ(init) == 'str' or isapp(init, 'mcall')):
            out.append((sl, init, mu))
    return out


def run(ck):
    ty = Typing(ck)
    for p, loop in zip(ty.paths, ty.loops):
        slots = textslot(ty, loop)
        cand = []
        for sl, init, mu in slots:
            # a text buffer is a slot that flows into what is yielded
            if any(occurs(x, mu) for lp in loop.paths for e in ty.events(lp.trace) if e[0] in ('typed', 'skipped') for x in e[2:]):
                cand.append((sl, init, mu))
        names = {sl[2] for sl, _, _ in cand if len(sl) > 2}
        bufs = [c for c in cand]
        if len(bufs) != 1:
            raise Lost(f'{len(bufs)} text buffers: {names}')
        sl, init, mu = bufs[0]
        pre = [e for e in ty.events(pretrace(p, loop))]
        P = Pieces(ty.prefixof)
        want0 = P.norm(*[e[1].result for e in pre if e[0] == 'read'])
        ck.expect(True if P.norm(init) == want0 else (None if any(e[0] != 'read' for e in pre) else False),
                  'typing starts with exactly the text read so far', where(p, loop), f'buffer starts as {init!r}')
        for lp in loop.paths:
            if lp.outcome == 'next':
                conserve(ck, ty, lp, sl, mu)
            elif lp.outcome == 'raise':
                exc = lp.value
                if not getattr(exc, 'implicit', False) and not any(e.kind == 'assertfail' for e in lp.trace):
                    ck.violated('typing does not stop with an error', lastline(lp.trace), f'raises {exc.exc} when {short(lp.facts)}')
            else:
                pass
        leave(ck, ty, p, loop, sl, mu)
    ck.part('lookahead is never zero', lookahead, ck)


def pretrace(p, loop):
    out = []
    for e in p.trace:
        if e.kind == 'loop' and e.loop is loop:
            return out
        out.append(e)
    return out


def where(p, loop):
    return f'{loop.mod.replace(".", "/")}.py:{loop.line}' if getattr(loop, 'mod', None) else ''


def lastline(trace):
    for e in reversed(trace):
        if e.mod:
            return at(e)
    return ''


def short(facts):
    return ' & '.join(('' if v else 'not ') + repr(a) for a, v in facts)[:300]


def readpieces(ty, P, evs):
    """expected pieces: the reads of this iteration, in order"""
    exp = []
    for e in evs:
        if e[0] == 'read':
            exp.append(e[1].result)
        elif e[0] == 'inner':
            exp += inner(ty, P, e[1].loop)
    return exp


def inner(ty, P, l):
    """a nested loop that only appends what it reads to a buffer"""
    for sl, (init, mu) in l.slots.items():
        if not isapp(mu, 'mu'):
            continue
        ok = True
        for lp in l.paths:
            evs = ty.events(lp.trace)
            if any(e[0] != 'read' for e in evs):
                ok = False
            emp = knownempty(lp.facts)
            reads = [e[1].result for e in evs if e[0] == 'read' and e[1].result not in emp]
            if [x for x in P.norm(lp.updates.get(sl, mu)) if x[1] not in emp] != P.norm(mu, *reads):
                ok = False
        if ok and any(ty.events(lp.trace) for lp in l.paths):
            r = Sym(f'reads of {l.id}', 'str')
            P.afters[mu] = concat(init, r)
            ty.innerreads.add(r)
            return [r]
    raise Lost(f'inner reading loop {l.id}')


def conserve(ck, ty, lp, sl, mu):
    evs = ty.events(lp.trace)
    rule = 'text typed, skipped and kept is the text kept before plus the text read'
    w = lastline(lp.trace)
    ys = [e for e in evs if e[0] in ('typed', 'skipped')]
    if ys:
        w = at(ys[0][1])
    if any(e[0] == 'odd' for e in evs):
        return ck.undecided(rule, w, [e[1] for e in evs if e[0] == 'odd'][:2])
    P = Pieces(ty.prefixof)
    nxt = lp.updates.get(sl, mu)
    exp = P.norm(mu, *readpieces(ty, P, evs))
    got = P.norm(*[e[2] for e in evs if e[0] in ('typed', 'skipped')], nxt)
    emp = knownempty(lp.facts)
    strip = lambda ps: [x for x in ps if not (x[0] == 'atom' and x[1] in emp)]
    got, exp = strip(got), strip(exp)
    if P.changed:
        return ck.violated(rule, w, f'text is changed by {P.changed[0]!r}')
    if got == exp:
        return ck.holds(rule, w, f'{showpieces(got)} when {short(lp.facts)}')
    if understood(ty, got, mu):
        return ck.violated(rule, w, f'after the step: {showpieces(got)}; before and read: {showpieces(exp)}')
    ck.undecided(rule, w, f'after the step: {showpieces(got)}; before and read: {showpieces(exp)}')


def understood(ty, ps, mu):
    def okatom(t):
        return t == mu or isconst(t) or t in ty.innerreads or (isapp(t, 'mcall') and t.args[0] == ty.fd) or (isapp(t, 'concat') and all(okatom(x) for x in t.args))

    def bound(t):
        if t is None or isconst(t):
            return True
        return all(isapp(m, 'len') or isapp(m, 'attr') for mono in topoly(t) for m in mono)
    for p in ps:
        if p[0] == 'atom' and not okatom(p[1]):
            return False
        if p[0] == 'part' and not (okatom(p[1]) and bound(p[2]) and bound(p[3])):
            return False
    return True


def leave(ck, ty, p, loop, sl, mu):
    rule = 'typing ends only at the end of the stream with nothing left'
    tr, l = lastiter(p, loop)
    if tr is None:
        raise Lost('loop exit not found')
    evs = ty.events(tr)
    if p.outcome == 'raise':
        return
    if any(e[0] == 'odd' for e in evs):
        return ck.undecided(rule, where(p, loop), [e for e in evs if e[0] == 'odd'][:2])
    emp = knownempty(p.facts)
    mus = {mu}
    P = Pieces(ty.prefixof)
    exp = P.norm(mu, *readpieces(ty, P, evs))
    got = P.norm(*[e[2] for e in evs if e[0] in ('typed', 'skipped')])
    for m, v in P.afters.items():
        if m in emp:
            emp |= set(v.args) if isapp(v, 'concat') else {v}
            mus.add(m)
    reads = [e[1] for e in evs if e[0] == 'read']
    bl = Sym('bufferLen', 'int')
    m = {App('attr', App('attr', ty.self, 'layout'), 'bufferLen'): bl}
    m.update({App('len', x): ZERO for x in emp})
    if not feasible([(subst(a, m), v) for a, v in p.facts if isapp(a, 'lt0') or isapp(a, 'eq0')], [(bl, 1, None)]):
        return
    strip = lambda ps: [x for x in ps if not (x[0] == 'atom' and x[1] in emp)]
    got, exp = strip(got), strip(exp)
    w = lastline(tr) or where(p, loop)
    if P.changed:
        return ck.violated(rule, w, f'text is changed by {P.changed[0]!r}')
    if got != exp:
        if understood(ty, got + exp, mu):
            return ck.violated(rule, w, f'left over when leaving: {showpieces(exp)}; typed then: {showpieces(got)}; when {short(p.facts)}')
        return ck.undecided(rule, w, f'{showpieces(got)} / {showpieces(exp)}')
    # end of stream has been seen
    ends = [r for r in reads if r.result in emp]
    if not ends:
        if any(not r.args or r.args[0] == Const(-1) for r in reads) or alreadyall(ty, p, loop):
            return ck.holds(rule, w, 'everything had been read')
        return ck.violated(rule, w, f'leaves without having seen an empty read when {short(p.facts)}')
    r = ends[-1]
    size = r.args[0] if r.args else None
    if size is not None:
        size = subst(size, {App('len', m): ZERO for m in mus if m in emp})
    v = positive(ty, size)
    ck.expect(v, rule, w, f'empty read of size {size!r}, buffer empty', f'the read that decides the end may have size {size!r}')


def alreadyall(ty, p, loop):
    return any(ty.isread(e) and (not e.args or e.args[0] in (NONE, Const(-1))) for e in pretrace(p, loop))


def positive(ty, size):
    """size != 0 for every bufferLen >= 1"""
    if size is None or size == NONE:
        return True
    bl = App('attr', App('attr', ty.self, 'layout'), 'bufferLen')
    p = topoly(size)
    if set(p) <= {(), (bl,)}:
        k, c = p.get((bl,), 0), p.get((), 0)
        if k == 0:
            return c != 0
        z = -c / k
        return not (z.denominator == 1 and z >= 1)
    if isapp(size, 'maxof'):
        if any(isconst(x) and x.v >= 1 for x in size.args if isinstance(x, T)):
            return True
    return None


def lookahead(ck):
    it = interp()
    c = cls(it, 'layout.KeyboardLayout')
    if c is None:
        raise Gone('lulua.layout.KeyboardLayout')
    layers = Sym('layers', 'list')
    ps = it.analyse(lambda: it.call(ClassV(c), [Sym('name', 'str'), layers, Sym('keyboard')], {}))
    ck.used(it)
    n = 0
    for p in ps:
        if p.outcome == 'raise':
            continue
        v = p.state.get(p.value.id).attrs.get('bufferLen')
        n += 1
        r = atleast1(v)
        ck.expect(r, 'lookahead is never zero', 'lulua/layout.py', f'bufferLen = {v!r}'[:300],
                  f'bufferLen may be 0: a layout without text would end typing at once ({v!r})'[:400])
    if not n:
        raise Lost('constructor')


def atleast1(v):
    if v is None:
        return None
    if isconst(v):
        return v.v >= 1
    if isapp(v, 'maxof'):
        rs = [atleast1(x) for x in v.args if isinstance(x, T)]
        return True if True in rs else (False if all(r is False for r in rs) else None)
    if isapp(v, 'best'):
        return None
    if isapp(v, 'after'):
        init, steps = v.args[3], v.args[4]
        r = atleast1(init)
        if r is False:
            return False
        return r
    if isapp(v, 'len'):
        return False
    return None
