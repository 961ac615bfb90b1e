"""Collectors as state machines.

A collector's process() is summarised once per abstract pre-state and event
class: path conditions, counter increments and post-state, as terms.  The
product with a specification automaton is explored to a fixpoint: every
reachable pair of (abstract collector state, specification state) is a node,
every event class an edge, and on every edge the increments must agree.
Contents of counters are never fixed (they stay symbolic), so the result holds
for any history of counts.
"""
import os
import yaml
from sa.kit import *
from sa.report import Lost, Gone
from sa.terms import *


class Canon:
    """heap values in a form that survives the state they live in"""

    def __init__(self, it, st):
        self.it, self.st = it, st

    def of(self, v):
        if isinstance(v, Ref):
            if v.id in self.it.base and v.id not in self.st.heap:
                return v
            o = self.st.get(v.id)
            if o.kind == 'inst':
                return ('inst', o.cls, tuple(sorted((k, self.of(x)) for k, x in o.attrs.items())))
            return ('obj', o.kind, tuple(self.seg(s) for s in o.segs), o.default, o.maxlen)
        if isapp(v, 'tuple') or isapp(v, 'frozenset'):
            return (v.op,) + tuple(self.of(x) for x in v.args)
        if isapp(v, 'tupleof') or isapp(v, 'seq') or isapp(v, 'listof'):
            return (v.op,) + tuple(self.seg(x) for x in v.args)
        if isinstance(v, T) and not isinstance(v, App):
            return v
        if isinstance(v, App):
            if any(isinstance(x, Ref) and not (x.id in self.it.base and x.id not in self.st.heap) for x in subterms(v)):
                raise Lost(f'object inside {v.op}')
        return v

    def seg(self, s):
        if s.op == 'one' and not isapp(s.args[0], 'kv'):
            return ('one', self.of(s.args[0]))
        if s.op == 'one':
            return ('kv', self.of(s.args[0].args[0]), self.of(s.args[0].args[1]))
        if s.op == 'kv':
            return ('kv', self.of(s.args[0]), self.of(s.args[1]))
        if any(isinstance(x, Ref) for x in subterms(s)):
            raise Lost('object inside a segment')
        return s


def mapc(c, f):
    """rebuild a canonical value with f applied to its terms"""
    if isinstance(c, T):
        return f(c)
    if isinstance(c, tuple):
        return tuple(mapc(x, f) for x in c)
    return c


def thaw(it, c):
    if isinstance(c, T):
        return c
    if c[0] == 'inst':
        return it.new(Obj('inst', cls=c[1], attrs={k: thaw(it, v) for k, v in c[2]}))
    if c[0] == 'obj':
        return it.new(Obj(c[1], segs=tuple(thawseg(it, s) for s in c[2]), default=c[3], maxlen=c[4]))
    if c[0] in ('tuple', 'frozenset'):
        return App(c[0], *[thaw(it, x) for x in c[1:]])
    if c[0] in ('tupleof', 'seq', 'listof'):
        return App(c[0], *[thawseg(it, x) for x in c[1:]])
    raise Lost(f'{c[0]}')


def thawseg(it, s):
    if isinstance(s, T):
        return s
    if s[0] == 'one':
        return seg1(thaw(it, s[1]))
    if s[0] == 'kv':
        return App('one', App('kv', thaw(it, s[1]), thaw(it, s[2])))
    raise Lost('segment')


def iscounter(c):
    """an empty dictionary, or one whose values all are"""
    if not (isinstance(c, tuple) and c[0] == 'obj' and c[1] == 'dict'):
        return False
    for s in c[2]:
        kv = s[1:] if isinstance(s, tuple) and s[0] == 'kv' else s[1][1:] if isinstance(s, tuple) and s[0] == 'one' and isinstance(s[1], tuple) else ()
        if len(kv) != 2 or not iscounter(kv[1]):
            return False
    return True


def fuzzy(c):
    """does a value contain something the analysis does not understand?"""
    if isinstance(c, T):
        return any(isinstance(x, App) and x.op in ('unknown', 'after', 'mu', 'unbound') for x in subterms(c))
    if isinstance(c, dict):
        return any(fuzzy(x) or fuzzy(y) for x, y in c.items())
    if isinstance(c, (tuple, list)):
        return any(fuzzy(x) for x in c)
    return False


class Step:
    pass


class Machine:
    """one collector class"""

    def __init__(self, ck, it, clsname, writer):
        self.ck, self.it = ck, it
        self.cls = cls(it, clsname)
        if self.cls is None:
            raise Gone('lulua.' + clsname)
        self.f, _ = self.cls.lookup('process')
        if self.f is None:
            raise Gone(f'lulua.{clsname}.process')
        self.where = f'lulua/stats.py:{self.f.node.lineno}'
        ps = it.analyse(lambda: it.call(ClassV(self.cls), [writer], {}))
        ps = [p for p in ps if p.outcome != 'raise']
        if len(ps) != 1:
            raise Lost(f'{len(ps)} ways to create {clsname}')
        c = Canon(it, ps[0].state).of(ps[0].value)
        self.init = dict(c[2])
        self.counters = sorted(k for k, v in self.init.items() if iscounter(v))
        self.state0 = tuple((k, v) for k, v in c[2] if k not in self.counters)
        self.csym = {k: Sym(k, 'dict') for k in self.counters}

    def step(self, state, mkevent, assume=()):
        """summaries of process() for one abstract state and event"""
        it = self.it

        def run():
            attrs = {k: thaw(it, v) for k, v in state}
            attrs.update(self.csym)
            obj = it.new(Obj('inst', cls=self.cls, attrs=attrs))
            for a in assume:
                it.assume(a)
            e = mkevent()
            it.st.trace.clear()
            it.call(self.f, [obj, e], {})
            return App('tuple', obj, e)
        out = []
        for p in it.analyse(run):
            if p.outcome == 'budget':
                raise Lost('too many paths')
            s = Step()
            s.path, s.facts, s.outcome = p, p.facts, p.outcome
            s.exc = p.value.exc if p.outcome == 'raise' else None
            if p.outcome != 'raise':
                cn = Canon(it, p.state)
                obj, e = p.value.args
                o = p.state.get(obj.id)
                s.event = cn.of(e)
                s.state = tuple(sorted((k, cn.of(v)) for k, v in o.attrs.items() if k not in self.counters))
                for k in self.counters:
                    if o.attrs.get(k) != self.csym[k]:
                        raise Lost(f'counter {k} replaced')
                s.deltas = self.deltas(p, cn)
            out.append(s)
        return out

    def deltas(self, p, cn):
        """increments of counters: {(counter, key, ...): amount}"""
        out = {}

        def has(x, c):
            for a, v in p.facts:
                if a == App('in', x, c):
                    return v
                if not v and isapp(a, 'in') and a.args[0] == x and isapp(a.args[1], 'seq') and a.args[1].args and a.args[1].args[0] == App('rest', c):
                    return False    # nor among those added meanwhile
            return None
        roots = set(self.csym.values())
        for base, segs in p.state.cont.items():
            path = []
            t = base
            while isapp(t, 'getitem'):
                path.insert(0, t.args[1])
                t = t.args[0]
            if t not in roots:
                continue
            for s in segs:
                if isapp(s, 'rest') and s.args[0] == base:
                    continue
                if isapp(s, 'one') and isapp(s.args[0], 'kv'):
                    s = s.args[0]
                if not isapp(s, 'kv'):
                    raise Lost(f'counter content {s!r}')
                k, v = s.args[:2]
                old = App('getitem', base, k)
                # a read after other increments: increments add up whether or not the keys are the same
                later = {x: App('getitem', base, x.args[1]) for x in subterms(v) if isapp(x, 'getitem') and isapp(x.args[0], 'seq')
                         and x.args[0].args and x.args[0].args[0] == App('rest', base)}
                if later and isinstance(v, T):
                    v = subst(v, later)
                if isinstance(v, Ref) or isapp(v, 'getitem') and v == old:
                    continue
                d = topoly(add(v, neg(old)))
                if not all(isinstance(x, (int, float, Fraction)) for x in d.values()) or any(m for m in d):
                    # a key known to be absent counts from zero
                    if has(k, base) is False or isconst(v):
                        d = topoly(v)
                        if has(k, base) is not False:
                            out[(t.name,) + tuple(cn.of(x) for x in path + [k])] = f'set to {v!r}'
                            continue
                    if any(m for m in d):
                        raise Lost(f'counter set to {v!r}')
                n = d.get((), 0)
                if n:
                    key = (t.name,) + tuple(cn.of(x) for x in path + [k])
                    out[key] = out.get(key, 0) + n
        # effects that bypass the content summary
        for e in p.trace:
            if e.kind == 'loop':
                raise Lost('loop over unknown items')
        return out


def key(name):
    """a physical key, known by its name"""
    return Enum('lulua.keyboard.Button', name, 'key ' + name)


class Events:
    """abstract events: a skipped character or a combination of named keys"""

    def __init__(self, it):
        self.it = it
        self.bc, self.sk = cls(it, 'layout.ButtonCombination'), cls(it, 'writer.SkipEvent')
        if self.bc is None or self.sk is None:
            raise Gone('ButtonCombination, SkipEvent')

    def comb(self, button, mods=()):
        return lambda: self.it.call(ClassV(self.bc), [App('frozenset', *[key(m) for m in mods]), App('frozenset', key(button))], {})

    def skip(self, char='x'):
        return lambda: self.it.call(ClassV(self.sk), [Const(char)], {})

    def canon(self, mk):
        ps = [p for p in self.it.analyse(mk) if p.outcome != 'raise']
        if len(ps) != 1:
            raise Lost('event')
        return Canon(self.it, ps[0].state).of(ps[0].value)


def harness(ck, **hooks):
    it = interp()
    find = lambda i, a, k: key(a[1].v) if isconst(a[1]) else NotImplemented
    it.hooks['lulua.keyboard.PhysicalKeyboard.find'] = find
    it.hooks['lulua.keyboard.PhysicalKeyboard.__getitem__'] = find
    it.hooks.update({k: v for k, v in hooks.items()})
    return it, sym(it, 'w', 'writer.Writer')


def showc(c):
    if isinstance(c, tuple) and c and c[0] == 'inst':
        d = dict(c[2])
        if 'buttons' in d:
            return '+'.join(showc(x) for x in d['modifier'][1:] + d['buttons'][1:])
        return c[1].name
    if isinstance(c, tuple):
        return '(' + ', '.join(showc(x) for x in c if x not in ('tuple', 'tupleof', 'one')) + ')'
    if isinstance(c, Enum):
        return str(c.name)
    return str(c)


def explore(ck, m, spec0, alphabet, spec, rule, widen=None, limit=4000, depth=None, assume=None, deltaeq=None, unknowns=(), extra=(), extrafrom=None, extrathen=None):
    """product fixpoint.  alphabet: [(label, mkevent, spec input)]; spec(state, input) -> (state, {delta}).
    extra: further events, tried from a few of the product states only (extrafrom chooses them); what they lead to is followed for one
    more event (extrathen, or the whole alphabet)"""
    norm = widen or (lambda s, q: (s, q))
    start = norm(m.state0, spec0)
    seen = {start: ()}
    work = [start]
    n = 0
    bad = set()

    def edge(node, hist, ev):
        """successors of a node by an event; deviations are noted"""
        nonlocal n
        label, mk, inp = ev
        q, want = spec(node[1], inp)
        n += 1
        for s in m.step(node[0], mk, assume(node) if assume else ()):
            asm = [x.args[0] if isapp(x, "not") else x for x in assume(node)] if assume else []
            free = [(a, v) for a, v in s.facts if not counterfact(a, m) and a not in asm]
            if free and not feasible(free, unknowns):
                continue
            if s.outcome == 'raise':
                bad.add((label, f'after {" ".join(hist) or "nothing"}: {label} raises {s.exc}'))
                continue
            if (s.deltas != want) if deltaeq is None else not deltaeq(s.deltas, want):
                if fuzzy(s.deltas) or fuzzy(node[0]):
                    raise Lost(f'counts {s.deltas}')
                bad.add((label, f'after {" ".join(hist) or "nothing"}: {label} counts '
                         f'{ {showc(k): v for k, v in s.deltas.items()} }, not { {showc(k): v for k, v in want.items()} }'))
                continue
            yield norm(s.state, q)
    while work:
        node = work.pop(0)
        hist = seen[node]
        if depth is not None and len(hist) >= depth:
            continue
        for ev in alphabet:
            for nxt in edge(node, hist, ev):
                if nxt not in seen:
                    if len(seen) > limit:
                        raise Lost('no fixpoint')
                    seen[nxt] = hist + (ev[0],)
                    work.append(nxt)
        if len(bad) > 3:
            break
    if extra and not bad:
        more = {}
        for node in [x for x in seen if extrafrom is None or extrafrom(x)]:
            for ev in extra:
                for nxt in edge(node, seen[node], ev):
                    if nxt not in seen and nxt not in more:
                        more[nxt] = seen[node] + (ev[0],)
            if len(bad) > 3:
                break
        for node, hist in more.items():
            if len(bad) > 3:
                break
            for ev in extrathen or alphabet:
                for _ in edge(node, hist, ev):
                    pass
    ck.count('product states', len(seen))
    ck.count('transitions', n)
    for _, b in sorted(bad)[:4]:
        ck.violated(rule, m.where, b)
    if not bad:
        ck.holds(rule, m.where, f'{len(seen)} product states, {n} transitions')
    return seen


SKIPPED = ['x', '\u2003', ' ', '\u00a0', '\n', '\r', '\t', '\0', '\u0627', '\u0654', '\u0640', '1', '\u0661', '.', '\u060c', '-', '_', '(', ')', '\u00ab', '\u00bb',
           '+', '$', '^', '\u00a9', '\u00e4', 'A', '\u01c5', '\u02b0', '\u0903', '\u20dd', '\u2160', '\u00b2', '\u2028', '\u2029', '\ufeff', '\u200d', '\u200c',
           '\ue000', '\ufffd', '\u0378', '\U0001f600', '\U00020000']


def keynames():
    with open(os.path.join(ROOT, 'lulua/data/keyboards/ibmpc105.yaml')) as fd:
        d = yaml.safe_load(fd)
    return [b['name'] for row in d['rows'] for side in row for b in side]


def feasible(facts, unknowns):
    """some size of the abstracted quantities satisfies the facts?"""
    from sa.evalt import Ev
    import itertools
    if not unknowns:
        raise Lost(f'depends on {facts[0][0]!r}')
    for ns in itertools.product(range(1, 70 if len(unknowns) > 1 else 2000), repeat=len(unknowns)):
        if Ev(dict(zip(unknowns, ns))).holds(facts):
            return True
    return False


def counterfact(a, m):
    return isapp(a, 'in') and any(x in m.csym.values() for x in subterms(a)) or isapp(a, 'raises') and any(x in m.csym.values() for x in subterms(a))


def rejects(ck, m):
    """anything that is neither kind of event is refused"""
    steps = m.step(m.state0, lambda: NONE) + m.step(m.state0, lambda: Const('x'))
    ok = all(s.outcome == 'raise' for s in steps)
    ck.expect(ok, 'anything that is not an event is rejected', m.where, '', 'accepts something that is not an event')
