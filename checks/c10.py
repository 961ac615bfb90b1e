"""C10: every text is typed and counted exactly once."""
from checks.worker_common import *
from sa.text import knownempty

EXPLANATION = ('writeWorker is summarised over arbitrarily many items, texts and events. On every path of the text loop: one fresh Writer of '
               'the layout, one fresh collector of every kind for it, the normalised text typed once, every event handed once to every '
               'collector, every collector merged once into the combined result; no path of any of the loops may leave early. apply() is '
               'compared with function composition, makeCombined with the list of collectors.')
ASSUMPTIONS = ['queues deliver items in order', 'collectors and Writer do what C01-C09 say']


def run(ck):
    ck.part('worker', worker, ck)
    ck.part('apply', chaining, ck)
    ck.part('makeCombined', combined, ck)


def worker(ck):
    it, cs, qs = harness()
    inq = qs[0]
    f, ps = runworker(it, qs, False)
    ck.used(it)
    ck.count('paths', len(ps))
    inits = {f'{c.lookup("__init__")[1].qual}.__init__' for c in cs}
    for p in ps:
        if p.outcome == 'raise':
            raise Lost(f'raises {p.value.exc}')
        evs = list(walk(p.trace))
        applies = [(e, s) for e, s in evs if e.kind == 'ocall' and e.qual == 'lulua.text.apply']
        if not applies:
            raise Lost('apply is not called')
        gets = {e.result for e, s in evs if e.kind == 'mcall' and e.recv == inq and e.name.startswith('get')}
        for e, s in applies:
            ok = e.args[0] == Sym('funcs') and any(isapp(e.args[1], 'listof') and e.args[1].args == (g,) or
                                                   e.args[1] in (App('listof', App('one', g)), App('tuple', g), App('seq', App('one', g))) for g in gets)
            ck.expect(ok or None, 'the filters are applied to the received item', f'lulua/text.py:{e.line}', '', repr(e.args))
            if s:
                itemloop(ck, s[0][0], e, gets)
        srcs = {e.result for e, s in applies}
        loops = [(e.loop, s) for e, s in evs if e.kind == 'loop' and e.loop.src in srcs]
        if not loops:
            raise Lost('no loop over the texts')
        for l, s in loops:
            for lp in l.paths:
                textpath(ck, it, cs, inits, l, lp)


def itemloop(ck, l, ap, gets):
    rule = 'every item received is processed until the end marker'
    where = f'lulua/text.py:{l.line}'
    for lp in l.paths:
        mine = [e for e in lp.trace if e.kind == 'mcall' and e.result in gets]
        ended = any(v is True and isapp(a, 'eq') and NONE in a.args and (set(a.args) & gets) or
                    v is True and isapp(a, 'is') and NONE in a.args and (set(a.args) & gets) for a, v in lp.facts)
        maybe = any(v is False and isapp(a, 'truth') and a.args[0] in gets for a, v in lp.facts)
        done = any(e.kind == 'ocall' and e.qual == 'lulua.text.apply' for e in lp.trace)
        if len(mine) > 1:
            ck.violated(rule, where, 'an item is taken from the queue and dropped')
        if lp.outcome == 'next':
            ck.expect(done or (False if mine else None), rule, where, 'item processed', f'item not processed when {lp.facts}')
        elif lp.outcome in ('break', 'return', 'else'):
            ck.expect(True if ended and not done else (False if done else None), rule, where, 'stops at the end marker', f'stops when {lp.facts}')
        # an empty item is not the end: stdin lines are never empty
        del maybe


def events(tr):
    return list(walk(tr))


def textpath(ck, it, cs, inits, l, lp):
    where = f'lulua/text.py:{l.line}'
    cond = f' when {lp.facts}' if lp.facts else ''
    if lp.outcome in ('break', 'return'):
        ck.violated('every text of an item is typed', where, f'leaves the texts unread{cond}')
        return
    if lp.outcome == 'raise':
        raise Lost('raises')
    if lp.outcome == 'else':
        return
    evs = events(lp.trace)
    types = [(e, s) for e, s in evs if e.kind == 'ocall' and e.qual == 'lulua.writer.Writer.type']
    text = l.binder
    if not types:
        empt = knownempty(lp.facts)
        if any(isnorm(ck, it, x, text)[0] or x == text for x in empt):
            ck.holds('every text of an item is typed', where, 'nothing to type')
            return
        ck.expect(False if lp.facts else None, 'every text of an item is typed', where, '', f'text not typed{cond}')
        return
    ck.expect(len(types) == 1 and not types[0][1], 'every text of an item is typed', where, 'once', f'typed {len(types)} times{cond}')
    te = types[0][0]
    w, stream = te.raw[0], te.args[1]
    news = {e.result: e for e, s in evs if e.kind == 'new'}
    nw = news.get(w)
    ck.expect(True if nw is not None and nw.args and nw.args[0] == Sym('layout') else (None if nw is not None else (False if isinstance(w, Ref) else None)),
              'every text is typed by a fresh writer of the layout', where, '', f'writer {w!r}')
    # text
    if isapp(stream, 'call') and stream.args[0] in ('io.StringIO', '_io.StringIO') and len(stream.args[1]) == 1 or \
            isapp(stream, 'new') and 'StringIO' in repr(stream):
        body = stream.args[1][0] if isapp(stream, 'call') else stream.args[-1]
    else:
        raise Lost(f'stream {stream!r}'[:200])
    ok, why = isnorm(ck, it, body, text, lp.facts)
    ck.expect(ok, 'the text typed is the normalised text', where, 'characters mapped, line ends unified', why)
    # collectors
    mine = {}
    for c in cs:
        ns = [e for e in news.values() if e.cls is c]
        ok = len(ns) == 1 and ns[0].args[:1] == (w,)
        ck.expect(True if ok else (False if not ns or len(ns) == 1 and ns[0].args and isinstance(ns[0].args[0], Ref) else None),
                  'every text has a fresh collector of every kind', where, c.name, f'{c.name}: {[e.args for e in ns]}{cond}')
        if len(ns) == 1:
            mine[ns[0].result] = c
    src = te.result
    for o, c in mine.items():
        m, own = c.lookup('process')
        q = f'{own.qual}.process'
        pe = [(e, s) for e, s in evs if e.kind == 'ocall' and e.qual == q and e.raw[0] == o]
        lps = []
        for e, s in pe:
            inner = [x for x in s if x[0].src == src]
            if len(s) != 1 or not inner:
                raise Lost(f'process called in {s}'[:100])
            if not any(x is inner[0][0] for x in lps):
                lps.append(inner[0][0])
        if not pe:
            ck.violated('every event goes to every collector once', where, f'{c.name} sees no event{cond}')
            continue
        ck.expect(len(lps) == 1, 'every event goes to every collector once', where, c.name, f'{c.name} sees the events {len(lps)} times')
        for lo in lps:
            for x in lo.paths:
                es = [e for e in x.trace if e.kind == 'ocall' and e.qual == q and e.raw[0] == o]
                wh = f'lulua/text.py:{lo.line}'
                if x.outcome in ('break', 'return'):
                    ck.violated('every event goes to every collector once', wh, f'stops early when {x.facts}')
                elif x.outcome == 'next':
                    want = App('getitem', lo.binder, Const(1))
                    good = [e for e in es if e.args[1] == want]
                    ck.expect(True if len(es) == len(good) == 1 else (False if len(es) != 1 else None), 'every event goes to every collector once', wh, c.name,
                              f'{c.name} gets {[e.args[1:] for e in es]}' + (f' when {x.facts}' if x.facts else ''))
        # merged
        ups = [(i, e, s) for i, (e, s) in enumerate(evs) if e.kind in ('mcall', 'ocall') and
               (getattr(e, 'name', '') == 'update' or getattr(e, 'qual', '').endswith('.update')) and
               o in ((e.args[1:] if e.kind == 'ocall' else e.args))]
        last = max([i for i, (e, s) in enumerate(evs) if e.kind == 'ocall' and e.qual == q and e.raw[0] == o])
        good = []
        for i, e, s in ups:
            recv = e.recv if e.kind == 'mcall' else e.raw[0]
            if not s and i > last and isapp(recv, 'getitem') and recv.args[1] == name(c) and 'makeCombined' in repr(recv.args[0]):
                good.append(e)
        ck.expect(True if len(ups) == len(good) == 1 else (None if len(ups) == 1 and good != ups and ups[0][2] and not any(x[0].src == src for x in ups[0][2]) else False),
                  'every collector is merged once into its combined result', where, c.name,
                  f'{c.name}: {[(e.recv if e.kind == "mcall" else e.raw[0]) for i, e, s in ups]}{cond}')


def scaled(t):
    """large numbers stand for small ones in the same order, so that texts longer than them are short"""
    big = sorted({x.v for y in t for x in subterms(y) if isconst(x) and type(x.v) is int and x.v > 200})
    m = {Const(v): Const(40 + 20 * i) for i, v in enumerate(big)}
    if not m:
        return lambda x: x

    def coef(x):
        # bounds within comparisons
        p = topoly(x.args[0])
        return App(x.op, frompoly({k: next((c.v * (1 if v > 0 else -1) for w, c in m.items() if w.v == abs(v) or abs(abs(v) - w.v) <= 1), v) if not k else v for k, v in p.items()}))

    def f(x):
        if isapp(x, 'lt0') or isapp(x, 'eq0'):
            try:
                return coef(x)
            except Exception:
                return x
        return m.get(x, x)
    return lambda x: rebuild(x, f)


def isnorm(ck, it, body, text, facts=()):
    """is the term the normalisation of text, for texts made of witness characters?"""
    cm = it.modattr('lulua.text', 'charMap')
    m = Ev(objs=dict(it.base)).ev(cm)
    wit = ['', 'ab', 'a\r\nb', '\r\n\r\n', '\r', '\n\r', '\r\r\n', 'x\ry', '\n', ' \t '] + list(m) + [''.join(m), 'ab'.join(m), '\r\n'.join(m)]
    facts = [(a, v) for a, v in facts if occurs(a, text)]
    # what the code looks for, alone, repeated and in between
    strs = {x.v for t in [body] + [a for a, _ in facts] for x in subterms(t) if isconst(x) and isinstance(x.v, str) and 0 < len(x.v) < 20}
    for c in sorted(strs | {'\n', '\t', ' ', 'a'}):
        wit += [c, c * 2, c * 3, f'a{c}b', f'{c}b', f'a{c}', c * 50, f'a{c * 2}b{c}', f'{c}\r\n{c}']
    wit += ['abcdefghij' * 7, 'xyz\r\n' * 30]
    sc = scaled([body] + [a for a, _ in facts])
    body, facts = sc(body), [(sc(a), v) for a, v in facts]
    n, lost = 0, None
    for t in wit:
        e = Ev(env={text: t}, objs=dict(it.base), mcall=None)
        try:
            if not e.holds(facts):
                continue
            got = e.ev(body)
        except Lost as e:
            lost = lost or str(e)
            continue
        except Undefined:
            got = 'undefined'
        n += 1
        want = ''.join(m.get(c, c) for c in t).replace('\r\n', '\n')
        if got != want:
            return False, f'{t!r} is typed as {got!r}, normalised it is {want!r}'
    if lost:
        return None, lost
    if not n:
        return None, f'no text takes this path: {facts}'[:200]
    return True, ''


def chaining(ck):
    it = interp()
    it.recursive_ok = {'lulua.text.apply': 6}
    f = it.modattr('lulua.text', 'apply')
    if f is None:
        raise Gone('lulua.text.apply')
    where = f'lulua/text.py:{f.node.lineno}'
    for lazy, nm in latebound(f.node):
        ck.violated('filters are chained in the order given, over all results', f'lulua/text.py:{lazy.lineno}',
                    f'the lazy expression looks up {nm!r} when it is consumed, after the loop has rebound it')
    a, b, c = Sym('a'), Sym('b'), Sym('c')
    for n in (0, 1, 2, 3):
        fs = (a, b, c)[:n]
        ps = it.analyse(lambda: it.call(f, [it.new(Obj('list', segs=tuple(seg1(x) for x in fs))), it.new(Obj('list', segs=(seg1(Sym('x')), seg1(Sym('y')))))], {}))
        ck.used(it)
        for p in ps:
            if p.outcome != 'return':
                raise Lost(f'{p.outcome} {p.value!r}')
            got = Outcome(it, p)
            want = ['x', 'y']
            for g in fs:
                want = [f'{g!r}({x})[{i}]' for x in want for i in (0, 1)]
            try:
                have = got.items(p.value)
            except Undefined:
                have = None
            ck.expect(have == want, 'filters are chained in the order given, over all results', where, f'{n} filters', f'{n} filters give {have}')


EAGER = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sum', 'min', 'max', 'any', 'all', 'sorted', 'deque', 'join', 'extend', 'update', 'len'}


def latebound(fn):
    """lazy expressions in a loop that refer to its target outside their first source and outlive the iteration"""
    out = []
    for loop in ast.walk(fn):
        if not isinstance(loop, ast.For):
            continue
        targets = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        eager = set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')
                if nm in EAGER:
                    eager.update(map(id, n.args))
            if isinstance(n, ast.YieldFrom):
                eager.add(id(n.value))
            if isinstance(n, ast.For):
                eager.add(id(n.iter))
        for n in ast.walk(loop):
            if not isinstance(n, ast.GeneratorExp) or id(n) in eager:
                continue
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            parts = [n.elt] + [g.iter for g in n.generators[1:]] + [c for g in n.generators for c in g.ifs]
            for q in parts:
                for x in ast.walk(q):
                    if isinstance(x, ast.Name) and x.id in targets - own:
                        out.append((n, x.id))
    return out[:1]


class Outcome(Ev):
    """a filter gives two results, named after it and its input"""

    def __init__(self, it, p):
        objs = dict(it.base)
        objs.update(p.state.heap)
        super().__init__(env={Sym('x'): 'x', Sym('y'): 'y'}, objs=objs, call=None)

    def items(self, v):
        if isinstance(v, T):
            v = self.ev(v)
        return super().items(v)

    def o_call(self, t):
        f = t.args[0]
        if isinstance(f, Sym):
            x = self.ev(t.args[1][0])
            return [f'{f!r}({x})[{i}]' for i in (0, 1)]
        return super().o_call(t)


def combined(ck):
    it = interp()
    cs = collectors(it)
    f = it.modattr('lulua.stats', 'makeCombined')
    if f is None:
        raise Gone('lulua.stats.makeCombined')
    inits = set()
    for c in cs:
        g, o = c.lookup('__init__')
        inits.add(f'{o.qual}.__init__')
    it = hookdomain(interp(opaque=inits))
    cs = collectors(it)
    f = it.modattr('lulua.stats', 'makeCombined')
    where = f'lulua/stats.py:{f.node.lineno}'
    for p in it.analyse(lambda: it.call(f, [sym(it, 'keyboard', 'keyboard.PhysicalKeyboard')], {})):
        if p.outcome != 'return' or not isinstance(p.value, Ref):
            raise Lost(f'{p.outcome} {p.value!r}')
        d = {}
        for s in p.state.get(p.value.id).segs:
            if not isapp(s, 'one'):
                raise Lost(repr(s))
            k, v = s.args[0].args
            d[k] = v
        for c in cs:
            v = d.get(name(c))
            o = p.state.get(v.id) if isinstance(v, Ref) else None
            ck.expect(True if o is not None and o.cls is c else (None if v is not None and o is None else False),
                      'the combined result has a fresh collector of every kind under its name', where, c.name, f'{name(c)!r} -> {v!r}')
        ck.expect(len(set(d.values())) == len(d) == len(cs), 'the combined result has one entry per collector', where, '', repr(d))
    ck.used(it)
