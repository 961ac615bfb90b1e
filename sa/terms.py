"""
Abstract values of the analyser.

Values are immutable, hash-consed-by-equality terms in a normal form chosen so
that common behaviour-preserving rewrites (temporaries, reordered commutative
arithmetic, comparison flips, comprehension vs. loop) give the same term.
Nothing of the analysed program is ever executed: a term denotes the set of all
concrete values the expression can have.
"""
from fractions import Fraction


class T:
    __slots__ = ('_h', '_k')

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self._h == o._h and self._k == o._k)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return repr(self) < repr(o)


class Const(T):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self._k = (type(v).__name__, v)
        self._h = hash(self._k)

    def __repr__(self):
        return repr(self.v)


class Enum(T):
    """ member of an enum class of the package """
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value
        # two names of one value are the same member (aliases)
        self._k = (cls, value)
        self._h = hash(self._k)

    def __repr__(self):
        return f'{self.cls.split(".")[-1]}.{self.name}'


class Sym(T):
    __slots__ = ('name', 'typ', 'cls')

    def __init__(self, name, typ=None, cls=None):
        self.name, self.typ, self.cls = name, typ, cls
        self._k = ('sym', name)
        self._h = hash(self._k)

    def __repr__(self):
        return self.name


class App(T):
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._k = (op, args)
        self._h = hash(self._k)

    def __repr__(self):
        return show(self)


class Ref(T):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i
        self._k = ('ref', i)
        self._h = hash(self._k)

    def __repr__(self):
        return f'#{self.id}'


class Ext(T):
    """ something outside the package: builtin or library object, by dotted name """
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self._k = ('ext', name)
        self._h = hash(self._k)

    def __repr__(self):
        return self.name


class ModV(T):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name
        self._k = ('mod', name)
        self._h = hash(self._k)

    def __repr__(self):
        return f'<module {self.name}>'


class ClassV(T):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info
        self._k = ('class', info.qual, id(info))
        self._h = hash(('class', info.qual))

    def __repr__(self):
        return self.info.name


class FuncV(T):
    """ function or lambda with its defining frame """
    __slots__ = ('node', 'mod', 'frame', 'qual', 'cls', 'defaults', 'kind', 'kwdefaults')

    def __init__(self, node, mod, frame, qual, cls=None, defaults=(), kwdefaults=(), kind=''):
        self.node, self.mod, self.frame, self.qual = node, mod, frame, qual
        self.cls, self.defaults, self.kwdefaults, self.kind = cls, tuple(defaults), tuple(kwdefaults), kind
        self._k = ('func', id(node), frame, self.defaults)
        self._h = hash(('func', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), qual, frame, self.defaults))

    def __repr__(self):
        return f'<fn {self.qual}>'


class Bound(T):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_
        self._k = ('bound', func, self_)
        self._h = hash(self._k)

    def __repr__(self):
        return f'{self.self!r}.{getattr(self.func, "qual", self.func)}'


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
ELL = Const(Ellipsis)


def isconst(t):
    return isinstance(t, Const)


def isapp(t, op=None):
    return isinstance(t, App) and (op is None or t.op == op)


def show(t, depth=0):
    if depth > 14:
        return '…'
    if not isinstance(t, App):
        return repr(t)
    d = depth + 1
    a = t.args
    s = lambda x: show(x, d) if isinstance(x, T) else repr(x)
    op = t.op
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'getitem':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'slice':
        lo, hi, st = a[1:]
        f = lambda x: '' if x == NONE else s(x)
        return f'{s(a[0])}[{f(lo)}:{f(hi)}]' if st == NONE else f'{s(a[0])}[{f(lo)}:{f(hi)}:{f(st)}]'
    if op == 'tuple':
        return '(' + ', '.join(map(s, a)) + (',)' if len(a) == 1 else ')')
    if op == 'poly':
        parts = []
        for mono, c in a:
            m = '*'.join(s(x) for x in mono)
            parts.append(f'{c}' if not mono else (m if c == 1 else f'{c}*{m}'))
        return '(' + ' + '.join(parts) + ')'
    if op == 'lt0':
        return f'{s(a[0])} < 0'
    if op == 'eq0':
        return f'{s(a[0])} == 0'
    if op == 'eq':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'not':
        return f'not ({s(a[0])})'
    if op == 'elem':
        return f'each({s(a[0])})'
    if op == 'idx':
        return f'index({s(a[0])})'
    if op == 'mu':
        return f'prev[{a[1]}]'
    if op == 'call':
        return f'{a[0]}(' + ', '.join(map(s, a[1])) + ')'
    if op == 'mcall':
        return f'{s(a[0])}.{a[1]}(' + ', '.join(map(s, a[2])) + ')'
    if op == 'inst':
        return f'{a[0]}(' + ', '.join(f'{k}={s(v)}' for k, v in a[1]) + ')'
    if op == 'concat':
        return '~'.join(map(s, a))
    if op == 'one':
        return s(a[0])
    if op == 'star':
        return f'{{{", ".join(map(s, a[1]))} for each {s(a[0])}}}'
    if op == 'alt':
        f = ' & '.join(('' if p else 'not ') + s(x) for x, p in a[0])
        body = s(a[1]) if isinstance(a[1], T) else ', '.join(map(s, a[1]))
        return f'[{body}]' + (f' if {f}' if f else '')
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(show(x, d))
        elif isinstance(x, tuple):
            out.append('(' + ', '.join(s(y) if isinstance(y, (T,)) else repr(y) for y in x) + ')')
        else:
            out.append(repr(x))
    return f'{op}(' + ', '.join(out) + ')'


# ---------------------------------------------------------------- traversal

def children(t):
    if isinstance(t, App):
        stack = list(t.args)
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                stack.extend(x)
    elif isinstance(t, Bound):
        yield t.func
        yield t.self


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def occurs(t, x):
    return any(y == x for y in subterms(t))


def rebuild(t, f):
    """ bottom-up map f over the App structure (keeps normal form of poly) """
    def go(x):
        if isinstance(x, App):
            if x.op == 'poly':
                acc = {}
                for mono, c in x.args:
                    p = {(): Fraction(c)}
                    for m in mono:
                        p = pmul(p, topoly(go(m)))
                    acc = padd(acc, p)
                return f(frompoly(acc))
            args = tuple(go(y) if isinstance(y, T) else (tup(y) if isinstance(y, tuple) else y) for y in x.args)
            if x.op == 'getitem':
                return f(App('getitem', *args))
            return f(App(x.op, *args))
        return f(x)

    def tup(y):
        return tuple(go(z) if isinstance(z, T) else (tup(z) if isinstance(z, tuple) else z) for z in y)
    return go(t)


def subst(t, m):
    return rebuild(t, lambda x: m.get(x, x))


# ---------------------------------------------------------------- types

NUMOPS = {'poly', 'len', 'idx', 'abs', 'floordiv', 'mod', 'pow', 'inv', 'bitor', 'bitand', 'bitxor', 'int',
          'float', 'sum', 'round', 'ord', 'maxof', 'minof', 'rshift', 'lshift', 'count', 'hash', 'divmod'}
INTOPS = {'len', 'idx', 'floordiv', 'bitor', 'bitand', 'bitxor', 'int', 'ord', 'count', 'hash'}
STROPS = {'concat', 'str', 'fmt', 'join', 'repr', 'chr', 'pct', 'strmeth'}


def typ(t):
    if isinstance(t, Const):
        return {'NoneType': 'none'}.get(type(t.v).__name__, type(t.v).__name__)
    if isinstance(t, Enum):
        return 'int' if isinstance(t.value, int) else None
    if isinstance(t, Sym):
        return t.typ
    if isinstance(t, App):
        op = t.op
        if op == 'poly':
            ints = True
            for mono, c in t.args:
                if isinstance(c, float) or Fraction(c).denominator != 1:
                    ints = False
                for m in mono:
                    if typ(m) != 'int':
                        ints = False
            return 'int' if ints else 'num'
        if op in INTOPS:
            return 'int'
        if op in ('abs', 'maxof', 'minof'):
            return 'int' if all(typ(x) == 'int' for x in t.args if isinstance(x, T)) else 'num'
        if op in NUMOPS:
            return 'num'
        if op in STROPS:
            return 'str'
        if op in ('lt0', 'eq0', 'eq', 'not', 'in', 'truth', 'isinstance', 'all', 'hasattr', 'is', 'callable'):
            return 'bool'
        if op in ('tuple', 'frozenset', 'list', 'dict', 'set'):
            return op
        if op == 'mu':
            return t.args[2]
        if op == 'slice':
            return typ(t.args[0])
        if op == 'after':
            return t.args[2] if isinstance(t.args[2], str) else None
        if op in ('getitem', 'elem'):
            x = t.args[0]
            if typ(x) == 'str':
                return 'str'
            if typ(x) == 'bytes' and op == 'getitem':
                return 'int'
            e = elemtype.get(x)
            if e:
                return e
            if isapp(x, 'range'):
                return 'int'
        if op == 'attr' and t.args[1] in ('name', 'serializedName'):
            return None
    return None


# optional: element types of symbolic containers, set by the checks
elemtype = {}


def isnum(t):
    return typ(t) in ('int', 'float', 'num', 'bool')


# ---------------------------------------------------------------- arithmetic

def _num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return v


def topoly(t):
    """ dict: monomial (sorted tuple of terms) -> coefficient """
    if isinstance(t, Const) and isinstance(t.v, (int, float)):
        v = t.v
        c = Fraction(v) if isinstance(v, (int, bool)) else Fraction(repr(v)) if v == v and v not in (float('inf'), float('-inf')) else None
        if c is None:
            return {(t,): Fraction(1)}
        return {(): c} if c else {}
    if isinstance(t, Enum) and isinstance(t.value, int):
        return {(): Fraction(t.value)} if t.value else {}
    if isapp(t, 'poly'):
        return {m: Fraction(c) if not isinstance(c, Fraction) else c for m, c in t.args}
    return {(t,): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c * k
        if c == 0:
            r.pop(m, None)
        else:
            r[m] = c
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            c = r.get(m, 0) + c1 * c2
            if c == 0:
                r.pop(m, None)
            else:
                r[m] = c
    return r


def fromfrac(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


def frompoly(p):
    if not p:
        return Const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            c = fromfrac(c)
            return Const(c if isinstance(c, int) else float(c))
        if c == 1 and len(m) == 1:
            return m[0]
    return App('poly', *sorted(((m, fromfrac(c)) for m, c in p.items()), key=lambda x: repr(x[0])))


def add(a, b):
    ta, tb = typ(a), typ(b)
    if ta == 'str' or tb == 'str':
        return concat(a, b)
    if ta == 'bytes' or tb == 'bytes':
        if isconst(a) and isconst(b):
            return Const(a.v + b.v)
        return concat(a, b, empty=b'')
    if ta in ('list', 'tuple') or tb in ('list', 'tuple'):
        if isapp(a, 'tuple') and isapp(b, 'tuple'):
            return App('tuple', *a.args, *b.args)
        return App('seqadd', a, b)
    if isconst(a) and isconst(b):
        try:
            return Const(a.v + b.v)
        except Exception:
            return App('add', a, b)
    return frompoly(padd(topoly(a), topoly(b)))


def sub(a, b):
    return frompoly(padd(topoly(a), topoly(b), -1))


def neg(a):
    return sub(Const(0), a)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if typ(x) in ('str', 'bytes', 'list', 'tuple'):
            if isconst(a) and isconst(b):
                return Const(a.v * b.v)
            return App('repeat', x, y)
    return frompoly(pmul(topoly(a), topoly(b)))


def div(a, b):
    if isconst(b) and isinstance(b.v, (int, float)) and b.v:
        return frompoly({m: c / (Fraction(b.v) if isinstance(b.v, int) else Fraction(repr(b.v))) for m, c in topoly(a).items()})
    return frompoly(pmul(topoly(a), {(App('inv', b),): Fraction(1)}))


def concat(*xs, empty=''):
    out = []
    for x in xs:
        parts = x.args if isapp(x, 'concat') else (x,)
        for p in parts:
            if isconst(p) and p.v == empty and isinstance(p.v, (str, bytes)):
                continue
            if out and isconst(p) and isconst(out[-1]) and type(p.v) is type(out[-1].v):
                out[-1] = Const(out[-1].v + p.v)
            else:
                out.append(p)
    if not out:
        return Const(empty)
    if len(out) == 1:
        return out[0]
    return App('concat', *out)


# ---------------------------------------------------------------- booleans

def lt(a, b):
    """ a < b as a normalised atom (or Const) """
    if isconst(a) and isconst(b):
        try:
            return Const(bool(a.v < b.v))
        except Exception:
            return App('lt', a, b)
    if isapp(a, 'tuple') or isapp(b, 'tuple'):
        return App('lt', a, b)
    return lt0(padd(topoly(a), topoly(b), -1))


def _scale(p, signed):
    """ normalise by the absolute value (or value) of the first coefficient """
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda x: repr(x[0]))
    if not items:
        return p
    c = items[0][1]
    c = abs(c) if signed else c
    return {m: k / c for m, k in p.items()}


def lt0(p):
    if not p:
        return FALSE
    if list(p) == [()]:
        return Const(p[()] < 0)
    p = _scale(p, True)
    t = frompoly(p)
    if typ(t) == 'int':
        # integers: p < 0 <=> p <= -1; keep the constant integral
        pass
    return App('lt0', t)


def eq(a, b):
    if a == b:
        if isconst(a) and isinstance(a.v, float) and a.v != a.v:
            return FALSE
        return TRUE
    if isinstance(a, Enum) and isinstance(b, Enum):
        return Const(a.value == b.value) if a.cls == b.cls else Const(a.value == b.value)
    if isconst(a) and isconst(b):
        return Const(a.v == b.v)
    for x, y in ((a, b), (b, a)):
        if isconst(x) and isinstance(y, Enum):
            return Const(x.v == y.value)
        if isconst(x) and x.v is None and isinstance(y, (FuncV, ClassV, ModV, Ref, Bound, Enum)):
            return FALSE
        if isconst(x) and isapp(y, 'tuple') and not isinstance(x.v, tuple):
            return FALSE
    if isapp(a, 'tuple') and isapp(b, 'tuple'):
        if len(a.args) != len(b.args):
            return FALSE
    if isapp(a, 'frozenset') and isapp(b, 'frozenset') and all(isinstance(x, (Const, Enum)) for x in a.args + b.args):
        return Const(set(a.args) == set(b.args))
    ta, tb = typ(a), typ(b)
    if isnum(a) and isnum(b):
        p = _scale(padd(topoly(a), topoly(b), -1), False)
        if not p:
            return TRUE
        if list(p) == [()]:
            return FALSE
        return App('eq0', frompoly(p))
    if ta and tb and ta != tb and {ta, tb} <= {'str', 'bytes', 'none', 'int', 'bool', 'list', 'tuple', 'dict'} \
            and {ta, tb} != {'int', 'bool'}:
        return FALSE
    # emptiness tests are truthiness tests
    for x, y in ((a, b), (b, a)):
        if isconst(x) and x.v in ('', b'') and isinstance(x.v, (str, bytes)) and typ(y) in ('str', 'bytes'):
            return notb(App('truth', y))
    a, b = sorted((a, b))
    return App('eq', a, b)


def notb(t):
    if isconst(t):
        return Const(not t.v)
    if isapp(t, 'not'):
        return t.args[0]
    return App('not', t)


def truth(t):
    """ boolean atom for bool(t) """
    if isconst(t):
        return Const(bool(t.v))
    if isinstance(t, Enum):
        return Const(bool(t.value)) if isinstance(t.value, int) else TRUE
    if isinstance(t, (FuncV, ClassV, ModV, Bound)):
        return TRUE
    ty = typ(t)
    if ty == 'bool':
        return t
    if isapp(t, 'tuple') or isapp(t, 'frozenset') and all(not isapp(x, 'star') and not isapp(x, 'rest') for x in t.args):
        return Const(bool(t.args))
    if isapp(t, 'concat') and any(isconst(x) and isinstance(x.v, (str, bytes)) and x.v for x in t.args):
        return TRUE
    if isapp(t, 'len'):
        return truth(t.args[0]) if not isinstance(t.args[0], Ref) else App('truth', t.args[0])
    if ty in ('int', 'num', 'float'):
        return notb(eq(t, Const(0)))
    return App('truth', t)
