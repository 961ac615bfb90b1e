"""Valuation of summary terms over a finite abstract domain.

The analyser turns code into terms and path conditions.  Where a property
ranges over a small finite abstraction (hands, rows, fingers, orderings), the
obligation is decided by evaluating the *terms* for every element of that
abstraction and comparing with the specification.  The program itself is never
run.  A term outside the vocabulary raises Lost.
"""
from .terms import *
from .report import Lost


class Undefined(Exception):
    """The term has no value here (failing lookup, empty minimum, ...)."""

    def __init__(self, what='', exc=None):
        super().__init__(what)
        self.exc = exc


PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'ValueError': 'Exception', 'StopIteration': 'Exception'}


PURESTR = {'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'rsplit', 'isspace', 'isalpha', 'isdigit',
           'isalnum', 'isupper', 'islower', 'replace', 'find', 'rfind', 'index', 'rindex', 'splitlines', 'count', 'removeprefix', 'removesuffix', 'partition', 'rpartition',
           'casefold', 'title', 'capitalize', 'isprintable', 'isascii', 'istitle', 'swapcase', 'isidentifier', 'isnumeric', 'isdecimal'}


class Rec:
    """an abstract record: instance or named tuple"""

    def __init__(self, cls, **d):
        self.cls, self.d, self.lost, self.seq = cls, d, {}, None

    def __repr__(self):
        return f'{self.cls}({self.d})'

    def __eq__(self, o):
        return isinstance(o, Rec) and self.cls == o.cls and self.d == o.d

    def __hash__(self):
        return hash((self.cls, repr(self.d)))


class Ev:
    def __init__(self, env=None, attr=None, call=None, mcall=None, loops=None, enum=None, iterate=None, length=None, truthy=None,
                 contains=None, isinst=None, objs=None):
        self.objs = objs or {}
        self.env = dict(env or {})
        self.attrf, self.callf, self.mcallf = attr, call, mcall
        self.loops = loops or {}
        self.iterf, self.lenf, self.truef, self.inf, self.instf = iterate, length, truthy, contains, isinst
        self.depth = {}

    # -- domain hooks
    def items(self, v):
        if self.iterf:
            r = self.iterf(v)
            if r is not None:
                return list(r)
        if isinstance(v, (list, tuple, set, frozenset, dict, str)):
            return list(v)
        raise Lost(f'iterates over {v!r}')

    def tr(self, v):
        if self.truef:
            r = self.truef(v)
            if r is not None:
                return r
        return bool(v)

    def holds(self, facts):
        # the order of facts is arbitrary: one that has no value does not matter where another one is false
        undef = None
        for a, want in facts:
            try:
                if bool(self.ev(a)) != bool(want):
                    return False
            except Undefined as e:
                undef = e
        if undef is not None:
            raise undef
        return True

    def pick(self, paths):
        """the path whose facts hold"""
        hit = [p for p in paths if self.holds(p.facts)]
        return hit

    def ev(self, t):
        if isinstance(t, Const):
            return t.v
        if t in self.env:
            return self.env[t]
        if isinstance(t, Enum):
            return t
        if isinstance(t, Sym):
            raise Lost(f'free variable {t!r}')
        if isinstance(t, App):
            f = getattr(self, 'o_' + t.op, None)
            if f is None:
                raise Lost(f'term {t.op}')
            return f(t)
        if isinstance(t, Ref):
            return self.obj(t)
        if isinstance(t, (Ext, ClassV, FuncV, ModV)):
            return t
        raise Lost(f'value {t!r}')

    def obj(self, t):
        o = self.objs.get(t.id)
        if o is None:
            raise Lost(f'object {t!r}')
        if o.kind in ('list', 'gen'):
            return self.segs(o.segs)
        if o.kind == 'set':
            return frozenset(self.segs(o.segs))
        if o.kind == 'dict':
            d = {}
            for s in o.segs:
                for kv in self.seg(s):
                    d[kv[0]] = kv[1]
            return d
        if o.kind == 'inst':
            r = Rec(o.cls.name)
            for k, v in o.attrs.items():
                try:
                    r.d[k] = self.ev(v)
                except Lost as e:
                    r.lost[k] = e
            return r
        raise Lost(f'object of kind {o.kind}')

    def o_nt(self, t):
        info = t.args[0].info
        r = Rec(info.name)
        fs = getattr(info, 'fields', None) or [str(i) for i in range(len(t.args) - 1)]
        for k, v in zip(fs, t.args[1:]):
            r.d[k] = self.ev(v)
        r.seq = [r.d[k] for k in fs]
        return r

    def o_fsetof(self, t):
        return frozenset(self.segs(t.args))

    def o_tupleof(self, t):
        return tuple(self.segs(t.args))

    def o_concat(self, t):
        xs = [self.ev(x) for x in t.args]
        if all(isinstance(x, str) for x in xs):
            return ''.join(xs)
        raise Lost('concat')

    def o_strmeth(self, t):
        name, s, args = t.args[:3]
        s = self.ev(s)
        args = [self.ev(x) for x in args]
        if isinstance(s, str) and name in PURESTR and all(isinstance(x, (str, int, tuple, type(None))) for x in args):
            return getattr(s, name)(*args)
        if isinstance(s, str) and name == 'translate' and len(args) == 1 and isinstance(args[0], dict):
            return s.translate(args[0])
        raise Lost(f'str.{name}')

    o_strtest = o_strsplit = o_strmeth

    def o_strindex(self, t):
        try:
            return self.o_strmeth(t)
        except ValueError:
            raise Undefined('not found', 'ValueError')

    def o_raises(self, t):
        c = t.args[1]
        c = c.name if isinstance(c, Ext) else c
        try:
            self.ev(t.args[0])
        except Undefined as u:
            e = u.exc
            if e is None or c not in PARENTS and c != 'Exception':
                raise Lost(f'raises {c!r}')
            while e is not None:
                if e == c:
                    return True
                e = PARENTS.get(e)
        return False

    def o_firstof(self, t):
        v = self.segs(t.args)
        if not v:
            raise Undefined('empty', 'StopIteration')
        return v[0]

    def o_seqindex(self, t):
        o, a = self.ev(t.args[1]), [self.ev(x) for x in t.args[2]]
        if not isinstance(o, (list, tuple)) or len(a) != 1:
            raise Lost('seqindex')
        hit = [i for i, x in enumerate(o) if self.same(x, a[0])]
        if t.args[0] == 'count':
            return len(hit)
        if t.args[0] != 'index':
            raise Lost('seqindex')
        if not hit:
            raise Undefined('not found', 'ValueError')
        return hit[0]

    def num(self, v):
        if isinstance(v, Enum):
            return v.value
        if isinstance(v, (int, float, Fraction)):
            return v
        raise Lost(f'not a number: {v!r}')

    def same(self, a, b):
        if isinstance(a, Enum) and not isinstance(b, Enum):
            a = a.value
        if isinstance(b, Enum) and not isinstance(a, Enum):
            b = b.value
        return a == b

    def o_poly(self, t):
        s = 0
        for mono, c in t.args:
            p = c
            for m in mono:
                p = p * self.num(self.ev(m))
            s += p
        return s

    def o_inv(self, t):
        v = self.num(self.ev(t.args[0]))
        if v == 0:
            raise Undefined('division by zero', 'ZeroDivisionError')
        return Fraction(1) / Fraction(v) if not isinstance(v, float) else 1 / v

    def o_lt0(self, t):
        return self.num(self.ev(t.args[0])) < 0

    def o_eq0(self, t):
        return self.num(self.ev(t.args[0])) == 0

    def o_lt(self, t):
        return self.key(self.ev(t.args[0])) < self.key(self.ev(t.args[1]))

    def o_eq(self, t):
        return self.same(self.ev(t.args[0]), self.ev(t.args[1]))

    def o_is(self, t):
        return self.same(self.ev(t.args[0]), self.ev(t.args[1]))

    def o_not(self, t):
        return not self.tr(self.ev(t.args[0]))

    def o_truth(self, t):
        return self.tr(self.ev(t.args[0]))

    def o_bool(self, t):
        return self.tr(self.ev(t.args[0]))

    def o_in(self, t):
        x, c = self.ev(t.args[0]), self.ev(t.args[1])
        if self.inf:
            r = self.inf(x, c)
            if r is not None:
                return r
        if isinstance(c, dict):
            return x in c
        return any(self.same(x, y) for y in self.items(c))

    def o_setof(self, t):
        return frozenset(self.ev(x) for x in t.args)

    def o_seq(self, t):
        return self.segs(t.args)

    def o_isinstance(self, t):
        if self.instf:
            r = self.instf(self.ev(t.args[0]), t.args[1])
            if r is not None:
                return r
        raise Lost('isinstance')

    def o_attr(self, t):
        o = self.ev(t.args[0])
        if isinstance(o, Rec):
            if t.args[1] in o.d:
                return o.d[t.args[1]]
            if t.args[1] in o.lost:
                raise o.lost[t.args[1]]
        if self.attrf:
            r = self.attrf(o, t.args[1])
            if r is not None:
                return r[0]
        if isinstance(o, Enum):
            if t.args[1] == 'value':
                return o.value
            if t.args[1] == 'name':
                return o.name
        raise Lost(f'attribute {t.args[1]} of {o!r}')

    def o_getitem(self, t):
        o, k = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(o, Rec) and o.seq is not None:
            o = o.seq
        if isinstance(o, dict):
            for x, v in o.items():
                if self.same(x, k):
                    return v
            raise Undefined(f'key {k!r}', 'KeyError')
        if isinstance(o, (list, tuple, str)):
            k = self.num(k)
            try:
                return o[k]
            except IndexError:
                raise Undefined('index', 'IndexError')
        if self.attrf:
            r = self.attrf(o, ('item', k))
            if r is not None:
                return r[0]
        raise Lost(f'item of {o!r}')

    def o_slice(self, t):
        o, lo, hi, st = (self.ev(x) for x in t.args)
        if isinstance(o, (list, tuple, str)):
            return o[lo:hi:st]
        raise Lost('slice')

    def o_tuple(self, t):
        return tuple(self.ev(x) for x in t.args)

    def o_frozenset(self, t):
        out = []
        for x in t.args:
            if isapp(x, 'one') or isapp(x, 'star') or isapp(x, 'rest'):
                out += self.seg(x)
            else:
                out.append(self.ev(x))
        return frozenset(out)

    def o_len(self, t):
        v = self.ev(t.args[0])
        if self.lenf:
            r = self.lenf(v)
            if r is not None:
                return r
        if isinstance(v, (list, tuple, str, dict, set, frozenset)):
            return len(v)
        raise Lost(f'len of {v!r}')

    def o_abs(self, t):
        return abs(self.num(self.ev(t.args[0])))

    def o_round(self, t):
        v = self.num(self.ev(t.args[0]))
        n = self.ev(t.args[1]) if len(t.args) > 1 else None
        return round(v) if n is None else Fraction(round(v, int(n)))

    def o_int(self, t):
        return int(self.num(self.ev(t.args[0])))

    def o_maxof(self, t):
        return max((self.ev(x) for x in t.args), key=self.key)

    def o_minof(self, t):
        return min((self.ev(x) for x in t.args), key=self.key)

    def o_bitor(self, t):
        r = 0
        for x in t.args:
            r |= int(self.num(self.ev(x)))
        return r

    def o_bitand(self, t):
        r = -1
        for x in t.args:
            r &= int(self.num(self.ev(x)))
        return r

    def o_floordiv(self, t):
        a, b = (self.num(self.ev(x)) for x in t.args)
        if b == 0:
            raise Undefined('division by zero', 'ZeroDivisionError')
        return a // b

    def o_mod(self, t):
        a, b = (self.num(self.ev(x)) for x in t.args)
        if b == 0:
            raise Undefined('division by zero', 'ZeroDivisionError')
        return a % b

    def o_pow(self, t):
        a, b = (self.num(self.ev(x)) for x in t.args)
        return a ** b

    def o_lshift(self, t):
        a, b = (self.num(self.ev(x)) for x in t.args)
        return a << b

    def key(self, v):
        if isinstance(v, Enum):
            return v.value
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        return v

    # -- iteration
    def over(self, src, f):
        k = self.depth.get(src, 0)
        if isapp(src, 'enumerate') or isapp(src, 'while'):
            raise Lost(f'loop over {src.op}')
        items = self.items(self.ev(src))
        b, ix = App('elem', src, k), App('idx', src, k)
        save = {x: self.env.get(x, self) for x in (b, ix)}
        self.depth[src] = k + 1
        try:
            for i, x in enumerate(items):
                self.env[b] = x
                self.env[ix] = i
                f(x)
        finally:
            self.depth[src] = k
            for y, v in save.items():
                if v is self:
                    self.env.pop(y, None)
                else:
                    self.env[y] = v

    def alts(self, alts):
        return [a for a in alts if self.holds(a.args[0])]

    def o_sum(self, t):
        src, alts = t.args
        tot = [0]

        def f(_):
            for a in self.alts(alts):
                tot[0] += self.num(self.ev(a.args[1]))
        self.over(src, f)
        return tot[0]

    def seg(self, s):
        if s.op == 'one':
            return [self.ev(s.args[0])]
        if s.op == 'rest':
            return self.items(self.ev(s.args[0]))
        if s.op == 'star':
            out = []

            def f(_):
                for a in self.alts(s.args[1]):
                    for x in a.args[1]:
                        out.extend(self.seg(x))
            self.over(s.args[0], f)
            return out
        if s.op == 'segs':
            return self.segs(s.args[0])
        raise Lost(f'segment {s.op}')

    def o_join(self, t):
        sep = self.ev(t.args[0]) if isinstance(t.args[0], T) else t.args[0]
        xs = t.args[1]
        if isinstance(xs, tuple):
            xs = self.segs(xs)
        elif isapp(xs) and xs.op in ('star', 'rest', 'one', 'segs'):
            xs = self.seg(xs)
        else:
            xs = self.items(self.ev(xs))
        if not all(isinstance(x, str) for x in xs):
            raise Undefined('join of something else than text')
        return sep.join(xs)

    def segs(self, ss):
        out = []
        for s in ss:
            out += self.seg(s)
        return out

    def o_star(self, t):
        return self.seg(t)

    def o_segs(self, t):
        return self.segs(t.args[0])

    def o_seqof(self, t):
        return self.segs(t.args)

    def o_listof(self, t):
        return self.segs(t.args)

    def o_list(self, t):
        return [self.ev(x) for x in t.args]

    def o_dictof(self, t):
        d = {}
        for s in t.args:
            for kv in self.seg(s):
                d[kv[0]] = kv[1]
        return d

    def o_kv(self, t):
        return (self.ev(t.args[0]), self.ev(t.args[1]))

    def o_keyed(self, t):
        return ('keyed', self.ev(t.args[0]), self.ev(t.args[1]))

    def o_best(self, t):
        how, ss, dflt = t.args
        xs = self.segs(ss)
        if not xs:
            if isapp(dflt, 'dflt'):
                return self.ev(dflt.args[0])
            raise Undefined('empty ' + how)
        f = min if how == 'min' else max
        return f(xs, key=lambda x: self.key(x[1]))[2]

    def o_any(self, t):
        return self.quant(t, any)

    def o_all(self, t):
        return self.quant(t, all)

    def quant(self, t, f):
        c = t.args[0]
        if isapp(c, 'star'):
            return f(self.tr(x) for x in self.seg(c))
        raise Lost('quantifier')

    def o_call(self, t):
        if self.callf:
            r = self.callf(t.args[0], [self.ev(x) for x in t.args[1]])
            if r is not None:
                return r[0]
        raise Lost(f'call of {t.args[0]}')

    def o_mcall(self, t):
        if self.mcallf:
            r = self.mcallf(self.ev(t.args[0]), t.args[1], [self.ev(x) for x in t.args[2]])
            if r is not None:
                return r[0]
        raise Lost(f'method {t.args[1]}')

    def o_after(self, t):
        """value of a variable after a for loop: iterate its summary"""
        lid, nm = t.args[0], t.args[1]
        l = self.loops.get(lid)
        if l is None:
            raise Lost(f'loop {lid}')
        vals = self.runloop(l)
        for sl, v in vals.items():
            if sl.args[1] == nm:
                return v
        raise Lost(f'variable {nm}')

    def runloop(self, l):
        cur = {}
        slots = {}
        for sl, (init, mu) in l.slots.items():
            if not isapp(mu, 'mu'):
                raise Lost('container carried around a loop')
            try:
                cur[mu] = self.ev(init)
            except Lost:
                cur[mu] = Undefined
            slots[sl] = mu
        save = {m: self.env.get(m, self) for m in cur}
        stop = [False]

        def f(_):
            if stop[0]:
                return
            for m, v in cur.items():
                if v is Undefined:
                    self.env.pop(m, None)
                else:
                    self.env[m] = v
            hit = self.pick(l.paths)
            hit = [p for p in hit if p.outcome != 'else']
            if len(hit) != 1:
                raise Lost(f'{len(hit)} paths through loop {l.id}')
            p = hit[0]
            if p.outcome not in ('next', 'break'):
                raise Lost(f'loop {l.id} ends by {p.outcome}')
            new = {}
            for sl, m in slots.items():
                if sl in p.updates:
                    try:
                        new[m] = self.ev(p.updates[sl])
                    except Lost:
                        new[m] = Undefined
            cur.update(new)
            if p.outcome == 'break':
                stop[0] = True
        try:
            self.over(l.src, f)
        finally:
            for m, v in save.items():
                if v is self:
                    self.env.pop(m, None)
                else:
                    self.env[m] = v
        return cur


def loopsof(trace, out=None):
    out = {} if out is None else out
    for e in trace:
        if e.kind == 'loop':
            out[e.loop.id] = e.loop
            for lp in e.loop.paths:
                loopsof(lp.trace, out)
    return out
