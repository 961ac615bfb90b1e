"""
Abstract interpreter for the Python subset /repo is written in.

It never executes the analysed program.  Every expression is mapped to a term
(terms.py) denoting its value for *all* inputs; branches on undetermined
conditions partition the trace (both sides are analysed); loops over unknown
sequences are analysed once, from a state in which everything the body can
change has been replaced by an unknown, until the set of changed locations is
stable.  Package functions are analysed in the context of their call sites
(inlined), library functions by the models in models.py or as unknown results.
There is no solver: conditions are compared syntactically in normal form, and
integer comparisons through difference bounds (zones.py).
"""
import ast
import os

from .terms import *
from . import zones, desugar
from .report import Lost

MAXPATHS = 3000
MAXDEPTH = 40
MAXUNROLL = 2000


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    """ the analysed program raises """

    def __init__(self, exc, args=(), implicit=False):
        # exc: Ext / ClassV / term
        self.exc, self.eargs, self.implicit = exc, args, implicit
        self.term = None


def seg1(v):
    return App('one', v)


def segrest(t):
    return App('rest', t)


class Obj:
    """ immutable record of one heap object """
    __slots__ = ('kind', 'cls', 'attrs', 'segs', 'default', 'parent', 'maxlen')

    def __init__(self, kind, cls=None, attrs=None, segs=(), default=None, parent=None, maxlen=None):
        self.kind, self.cls, self.attrs, self.segs, self.default, self.parent = kind, cls, attrs, tuple(segs), default, parent
        self.maxlen = maxlen

    def with_(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.segs, self.default, self.parent, self.maxlen)
        for k, v in kw.items():
            setattr(o, k, tuple(v) if k == 'segs' else v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.segs == o.segs and self.attrs == o.attrs)


class ClassInfo:
    def __init__(self, name, qual, mod, node):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.bases = []          # terms
        self.attrs = {}          # name -> term
        self.kind = 'class'      # class | enum | namedtuple
        self.members = []        # enum
        self.fields = []         # namedtuple
        self.defaults = ()
        self.attrtypes = {}

    def mro(self):
        out, seen = [], set()
        def go(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            for b in c.bases:
                if isinstance(b, ClassV):
                    go(b.info)
        go(self)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def extbases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def subclassof(self, other):
        return any(c is other for c in self.mro())


class Event:
    __slots__ = ('kind', 'line', 'd', 'mod')

    def __init__(self, kind, mod, line, **d):
        self.kind, self.line, self.d, self.mod = kind, line, d, mod

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f'{self.kind}@{self.mod}:{self.line}(' + ', '.join(f'{k}={v!r}' for k, v in self.d.items()) + ')'


class LoopSummary:
    def __init__(self, lid, src, binder, line, mod):
        self.id, self.src, self.binder, self.line, self.mod = lid, src, binder, line, mod
        self.slots = {}      # slot -> (init, mu)
        self.paths = []      # LoopPath
        self.after = {}      # slot -> value after exhaustion

    def __repr__(self):
        return f'loop[{self.id}] over {self.src!r} ({len(self.paths)} paths)'


class LoopPath:
    def __init__(self, facts, trace, outcome, value, updates, prefix):
        self.facts, self.trace, self.outcome, self.value, self.updates, self.prefix = facts, trace, outcome, value, updates, prefix

    def __repr__(self):
        return f'<{self.outcome} {self.facts} {self.trace} {self.updates}>'


class Level:
    def __init__(self, prefix, loopid=None, binders=(), first=0):
        self.prefix, self.pos = prefix, 0
        self.first = first
        self.log = []
        self.facts = {}
        self.order = []
        self.loopid, self.binders = loopid, set(binders)


class Path:
    def __init__(self, facts, trace, outcome, value, state, notes):
        self.facts, self.trace, self.outcome, self.value, self.state, self.notes = facts, trace, outcome, value, state, notes

    def __repr__(self):
        return f'<Path {self.outcome} {self.value!r} facts={self.facts} trace={self.trace}>'


class Base(dict):
    """ objects of module initialisation; objects made inside a loop body are seen as at the end of their iteration """

    def __init__(self, objs):
        super().__init__()
        self.objs = objs

    def __missing__(self, i):
        return self.objs[i]


class State:
    __slots__ = ('base', 'heap', 'sattr', 'cont', 'ver', 'trace', 'counts', 'leak')

    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.sattr = {}
        self.cont = {}
        self.ver = {}
        self.trace = []
        self.counts = {}
        self.leak = {}

    def clone(self):
        s = State(self.base)
        s.heap = dict(self.heap)
        s.sattr = dict(self.sattr)
        s.cont = dict(self.cont)
        s.ver = dict(self.ver)
        s.trace = list(self.trace)
        s.counts = dict(self.counts)
        s.leak = dict(self.leak)
        return s

    def get(self, i):
        o = self.heap.get(i)
        return o if o is not None else self.base[i]

    def set(self, i, o):
        self.heap[i] = o


UNBOUND = App('unbound')


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.frame = None
        self.state = 'new'


class Repo:
    """ parsed sources of the package; one per analysed tree """

    def __init__(self, root):
        self.root = root
        self.mods = {}
        pk = os.path.join(root, 'lulua')
        for fn in sorted(os.listdir(pk)):
            if fn.endswith('.py') and not fn.startswith('test_') and fn != 'conftest.py':
                p = os.path.join(pk, fn)
                src = open(p, encoding='utf-8').read()
                name = 'lulua' if fn == '__init__.py' else 'lulua.' + fn[:-3]
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.mods[name] = Module(name, p, desugar.parse(src, p), src)


from .models import Models, LISTMUT  # noqa: E402


class Interp(Models):
    def __init__(self, repo, opaque=(), pure=(), inline_unique=True, start=False):
        self.repo = repo
        self.objs = {}          # objects allocated in loops: contents at the end of their iteration
        self.base = Base(self.objs)
        self.nref = 0
        self.st = State(self.base)
        self.levels = []
        self.callstack = []
        self.handlers = []      # active exception handler class lists
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.classes = {}       # qual -> ClassInfo
        self.methods = {}       # name -> [(ClassInfo, FuncV)]
        self.clsof = {}         # term -> ClassInfo   (side table of known classes)
        self.notes = []
        self.loopn = 0
        self.activesrc = {}
        self.curmod = None
        self.line = 0
        self.genstack = []
        self.inline_unique = inline_unique
        self.loophome = {}      # loop -> loop around it
        self.hooks = {}         # qual -> callable(interp, args, kwargs) -> term
        self.steps = 0
        self.maxsteps = 400000
        self.functions = set()  # quals analysed
        self.depthlimit = MAXDEPTH
        self.loading = True
        self.nopath = True
        for m in repo.mods:
            self.load(m)
        if not start:       # start: the state of a process that has only imported the modules
            self.havocglobals()
        self.loading = False

    def havocglobals(self):
        """ Class and module variables that functions write to have no known value. """
        for m in self.repo.mods.values():
            for fn in ast.walk(m.tree):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                local = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
                for a in (fn.args.vararg, fn.args.kwarg):
                    if a:
                        local.add(a.arg)
                body = fn.body if isinstance(fn.body, list) else [fn.body]
                glob = set()
                for n in ast.walk(fn):
                    if isinstance(n, ast.Global):
                        glob.update(n.names)
                for n in ast.walk(fn):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in glob:
                        local.add(n.id)
                for n in ast.walk(fn):
                    t = None
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                        t = n
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        t = n.value
                        while isinstance(t, ast.Subscript):
                            t = t.value
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        t = n
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LISTMUT:
                        t = n.func.value
                        while isinstance(t, ast.Subscript):
                            t = t.value
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id not in local:
                        c = self.force(self.get(m.frame).attrs.get(t.value.id, NONE))
                        if isinstance(c, ClassV):
                            for k in c.info.mro():
                                if t.attr in k.attrs and not isinstance(k.attrs[t.attr], FuncV):
                                    k.attrs[t.attr] = Sym(f'{k.qual}.{t.attr}')
                                    break
                    elif isinstance(t, ast.Name) and t.id not in local:
                        v = self.get(m.frame).attrs.get(t.id)
                        if isinstance(v, Ref) or isconst(v):
                            self.setlocal(m.frame, t.id, Sym(f'{m.name}.{t.id}'))

    # ------------------------------------------------------------ utilities

    def note(self, why):
        self.notes.append(f'{self.curmod}:{self.line}: {why}')

    def unknown(self, why):
        self.note(why)
        n = self.count('unknown')
        return App('unknown', why, self.tag(n))

    def count(self, k):
        n = self.st.counts.get(k, 0)
        self.st.counts[k] = n + 1
        return n

    def tag(self, n):
        lid = self.levels[-1].loopid if self.levels else None
        return App('tag', lid or '', n)

    def new(self, obj):
        self.nref += 1
        i = self.nref
        if self.loading:
            self.base[i] = obj
        else:
            self.st.set(i, obj)
        return Ref(i)

    def get(self, r):
        return self.st.get(r.id)

    def set(self, r, o):
        if self.loading:
            self.base[r.id] = o
        else:
            self.st.set(r.id, o)

    def mklist(self, segs, kind='list'):
        return self.new(Obj(kind, segs=segs))

    def ev(self, kind, **d):
        if not self.loading:
            self.st.trace.append(Event(kind, self.curmod, self.line, **d))

    # ------------------------------------------------------------ decisions

    def levelof(self, t):
        """ index of the outermost level at which term t is fixed """
        lids, terms = set(), set()
        newest = 0
        for x in subterms(t):
            if isinstance(x, Ref):
                # an object made within a level differs from pass to pass
                if x.id > newest and x.id not in self.base:
                    newest = x.id
            elif isinstance(x, App):
                if x.op in ('mu', 'tag', 'iterof'):
                    lids.add(x.args[0])
                elif x.op == 'after':
                    lids.add(self.loophome.get(x.args[0]))
                terms.add(x)
        active = {l.loopid for l in self.levels}
        for x in list(lids):
            while x is not None and x not in active:
                x = self.loophome.get(x)
            lids.add(x)
        lids.discard(None)
        for i in range(len(self.levels) - 1, 0, -1):
            l = self.levels[i]
            if newest > l.first or l.loopid in lids or (l.binders & terms):
                return i
        return 0

    def known(self, atom):
        for l in reversed(self.levels):
            if atom in l.facts:
                return l.facts[atom]
        return None

    def allfacts(self):
        out = []
        for l in self.levels:
            out.extend(l.order)
        return out

    def implied(self, atom):
        """ cheap syntactic implication from the recorded facts """
        k = self.known(atom)
        if k is not None:
            return k
        if not isinstance(atom, App):
            return None
        op = atom.op
        if op in ('lt0', 'eq0'):
            z = zones.implied(atom, self.allfacts(), self.assumed_bounds)
            if z is not None:
                return z
        if op == 'eq':
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (Const, Enum)):
                    for f, v in self.allfacts():
                        if isapp(f, 'eq') and v and x in f.args:
                            o = f.args[1] if f.args[0] == x else f.args[0]
                            if isinstance(o, (Const, Enum)):
                                return o == y
                        if isapp(f, 'truth') and f.args[0] == x:
                            if v and isconst(y) and not y.v:
                                return False
                            if not v and isconst(y) and y.v:
                                return False
                    if y == NONE:
                        for f, v in self.allfacts():
                            if v and isapp(f, 'isinstance') and f.args[0] == x:
                                return False
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                if self.nonnull(x):
                    return False
        if op == 'truth':
            x = atom.args[0]
            for f, v in self.allfacts():
                if isapp(f, 'eq') and v and x in f.args:
                    o = f.args[1] if f.args[0] == x else f.args[0]
                    if isconst(o):
                        return bool(o.v)
                    if isinstance(o, Enum):
                        return truth(o) == TRUE
                if v and isapp(f, 'isinstance') and f.args[0] == x and isinstance(f.args[1], ClassV):
                    if not f.args[1].info.lookup('__len__')[0] and not f.args[1].info.lookup('__bool__')[0]:
                        return True
        if op == 'isinstance':
            x, c = atom.args
            for f, v in self.allfacts():
                if isapp(f, 'isinstance') and f.args[0] == x and isinstance(f.args[1], ClassV) and isinstance(c, ClassV):
                    fi, ci = f.args[1].info, c.info
                    if v and fi.subclassof(ci):
                        return True
                    if v and not ci.subclassof(fi) and not fi.subclassof(ci):
                        return False
                    if not v and ci.subclassof(fi):
                        return False
                elif isapp(f, 'eq') and v and x in f.args and NONE in f.args:
                    return False
        return None

    assumed_bounds = ()

    def nonnull(self, x):
        return x in self.clsof or isapp(x, 'tuple') or isapp(x, 'nt') or typ(x) in ('int', 'num', 'str', 'bool', 'list', 'tuple', 'dict')

    def fact(self, atom, val, level=None):
        i = self.levelof(atom) if level is None else level
        l = self.levels[i]
        l.facts[atom] = val
        l.order.append((atom, val))
        if val and isapp(atom, 'isinstance') and isinstance(atom.args[1], ClassV):
            pass

    def decide(self, atom):
        """ atom: boolean term; returns bool, partitioning the trace """
        if isconst(atom):
            return bool(atom.v)
        if isapp(atom, 'not'):
            return not self.decide(atom.args[0])
        k = self.implied(atom)
        if k is not None:
            return k
        if self.loading or not self.levels:
            self.note(f'undetermined condition at module level: {atom!r}')
            return True
        i = self.levelof(atom)
        c = self.choose_at(i, 2, atom)
        val = c == 0
        self.fact(atom, val, i)
        return val

    def choose_at(self, i, n, label):
        l = self.levels[i]
        if l.pos < len(l.prefix):
            c = l.prefix[l.pos]
        else:
            c = 0
        l.pos += 1
        l.log.append((c, n, label))
        return c

    def choose(self, n, label):
        if n == 1:
            return 0
        return self.choose_at(len(self.levels) - 1, n, label)

    def assume(self, atom, val=True):
        if isapp(atom, 'not'):
            return self.assume(atom.args[0], not val)
        if isconst(atom):
            if bool(atom.v) != val:
                raise Infeasible()
            return
        k = self.implied(atom)
        if k is not None:
            if k != val:
                raise Infeasible()
            return
        self.fact(atom, val)

    def explore(self, run, loopid=None, binders=(), prefixes=None):
        """ all trace partitions of run(); run is called on a fresh state each time """
        st0 = self.st
        out = []
        prefix = []
        n = 0
        while True:
            n += 1
            if n > MAXPATHS:
                raise Budget(f'more than {MAXPATHS} partitions')
            level = Level(prefix, loopid, binders, self.nref)
            self.levels.append(level)
            depth = len(self.levels)
            saved = (list(self.callstack), list(self.handlers), list(self.genstack), self.curmod, self.line, dict(self.activesrc))
            self.st = st0.clone()
            try:
                r = run()
                out.append((r, level, self.st, [c for c, _, _ in level.log]))
            except Infeasible:
                pass
            finally:
                del self.levels[depth - 1:]
                self.callstack, self.handlers, self.genstack, self.curmod, self.line, self.activesrc = saved
                self.st = st0
            log = level.log
            while log and log[-1][0] >= log[-1][1] - 1:
                log.pop()
            if not log:
                break
            prefix = [c for c, _, _ in log[:-1]] + [log[-1][0] + 1]
        return out

    # ------------------------------------------------------------ entry

    def analyse(self, run):
        """ run: () -> value.  Returns list of Path """
        paths = []
        self.notes = []
        self.levels = []
        self.st = State(self.base)
        self.loopn = 0

        def body():
            self.notes_start = len(self.notes)
            self.loopn = 0
            self.steps = 0
            try:
                v = run()
                return ('return', v, self.notes[self.notes_start:])
            except Raised as e:
                return ('raise', e, self.notes[self.notes_start:])
        try:
            res = self.explore(body)
        except Budget as e:
            p = Path([], [], 'budget', NONE, None, [str(e)])
            return [p]
        for (outcome, v, notes), level, st, prefix in res:
            for i, o in st.heap.items():
                if o.kind != 'frame':
                    self.objs[i] = o
            paths.append(Path(list(level.order), st.trace, outcome, v, st, notes))
        return paths

    # ------------------------------------------------------------ modules

    def load(self, name):
        m = self.repo.mods.get(name)
        if m is None or m.state == 'done':
            return m
        if m.frame is not None:
            if getattr(m, 'owner', None) is self:
                return m
        m.owner = self
        m.state = 'loading'
        fr = self.new(Obj('frame', attrs={}))
        m.frame = fr
        self.setlocal(fr, '__name__', Const(name))
        self.setlocal(fr, '__package__', Const('lulua'))
        self.setlocal(fr, '__file__', Const('lulua/' + os.path.basename(m.path)))
        saved = (self.curmod, self.line)
        self.curmod = name
        try:
            for s in m.tree.body:
                try:
                    self.stmt(s, fr)
                except Raised as e:
                    self.note(f'module statement raises {e.exc!r}')
        finally:
            self.curmod, self.line = saved
        m.state = 'new'
        return m

    def modattr(self, mod, name):
        m = self.repo.mods.get(mod)
        if m is None:
            return None
        if getattr(m, 'owner', None) is not self:
            self.load(mod)
        return self.get(m.frame).attrs.get(name)

    # ------------------------------------------------------------ variables

    def setlocal(self, fr, name, v):
        o = self.get(fr)
        a = dict(o.attrs)
        a[name] = v
        self.set(fr, o.with_(attrs=a))

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            o = self.get(f)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, tuple) and v and v[0] == 'nonlocal':
                    f = o.parent
                    continue
                if v != UNBOUND:
                    return v
                return self.unknown(f'{name} may be unbound')
            f = o.parent
        m = self.repo.mods.get(self.curmod)
        b = self.builtin(name)
        if b is not None:
            return b
        return self.unknown(f'unresolved name {name}')

    def assign_name(self, fr, name, v):
        o = self.get(fr)
        mark = o.attrs.get(name)
        if isinstance(mark, tuple) and mark[0] == 'global':
            m = self.repo.mods[self.curmod]
            self.setlocal(m.frame, name, v)
            return
        if isinstance(mark, tuple) and mark[0] == 'nonlocal':
            f = o.parent
            while f is not None and name not in self.get(f).attrs:
                f = self.get(f).parent
            if f is not None:
                self.setlocal(f, name, v)
                return
        self.setlocal(fr, name, v)

    # ------------------------------------------------------------ statements

    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exhausted')
        self.line = getattr(s, 'lineno', self.line)
        f = getattr(self, 's_' + type(s).__name__, None)
        if f is None:
            raise Lost(f'statement {type(s).__name__} not modelled, line {self.line}')
        return f(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        if fr == self.repo.mods[self.curmod].frame:
            return
        for n in s.names:
            o = self.get(fr)
            a = dict(o.attrs)
            a[n] = ('nonlocal', n)
            self.set(fr, o.with_(attrs=a))
            # globals are found through the parent chain; assignment goes to the module
            a[n] = ('nonlocal', n)

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            o = self.get(fr)
            a = dict(o.attrs)
            a[n] = ('nonlocal', n)
            self.set(fr, o.with_(attrs=a))

    def s_Return(self, s, fr):
        raise ReturnSig(self.expr(s.value, fr) if s.value else NONE)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.expr(s.value, fr)
            self.assign(s.target, v, fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            self.assign_name(fr, t.id, self.augop(s.op, old, self.expr(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.augop(s.op, old, self.expr(s.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            k = self.slice(t.slice, fr)
            old = self.getitem(o, k)
            v = self.augop(s.op, old, self.expr(s.value, fr))
            self.setitem(o, k, v)
        else:
            self.note('augmented assignment target not modelled')

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, Ref) and self.get(a).kind == 'list':
            self.extend(a, b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and self.get(a).kind in ('set', 'dict'):
            self.method(a, 'update', [b], {})
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setlocal(fr, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, fr)
                k = self.slice(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, fr)
                self.ev('delattr', obj=o, name=t.attr)

    runmin = False          # treat 'if x < m: m = x' as m = min(m, x)

    def runningmin(self, s, fr):
        """ if x < m: m = x  (also  if m is None or x < m) without a case distinction, where both are unknown numbers """
        if s.orelse or len(s.body) != 1 or not isinstance(s.body[0], ast.Assign) or len(s.body[0].targets) != 1:
            return False
        tgt, val, test = s.body[0].targets[0], s.body[0].value, s.test
        if not isinstance(tgt, ast.Name) or not isinstance(val, ast.Name):
            return False
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and len(test.values) == 2:
            if not isinstance(test.values[0], ast.Compare):
                return False
            a = self.truthy(self.expr(test.values[0], fr))
            if not isconst(a) or a.v:
                return False
            test = test.values[1]
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return False
        l, r, op = test.left, test.comparators[0], test.ops[0]
        if not isinstance(l, ast.Name) or not isinstance(r, ast.Name) or {l.id, r.id} != {tgt.id, val.id}:
            return False
        if not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return False
        less = isinstance(op, (ast.Lt, ast.LtE)) == (l.id == val.id)
        m, x = self.expr(tgt, fr), self.expr(val, fr)
        if not all(isinstance(v, App) and v.op not in ('tuple', 'inst', 'nt') for v in (m, x)):
            return False
        self.assign(tgt, self.call(Ext('min' if less else 'max'), [m, x], {}), fr)
        return True

    desugar = False         # x.extend(e for ..) and d.update((k, v) for ..) as loops

    def s_Expr(self, s, fr):
        c = s.value
        if self.desugar and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('extend', 'update') and \
                len(c.args) == 1 and not c.keywords and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)):
            g, pair = c.args[0], c.func.attr == 'update'
            if not pair or isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                rec = self.expr(c.func.value, fr)
                if not pair:
                    self.comp(g, fr, lambda o, cf: self.call(self.getattr(rec, 'append'), [self.expr(g.elt, cf)], {}), 'list')
                else:
                    self.comp(g, fr, lambda o, cf: self.setitem(rec, self.expr(g.elt.elts[0], cf), self.expr(g.elt.elts[1], cf)), 'list')
                return
        self.expr(c, fr)

    def s_If(self, s, fr):
        if self.runmin and self.runningmin(s, fr):
            return
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        line = self.line
        try:
            v = self.expr(s.test, fr, assertion=True)
        except Raised:
            raise
        a = self.truthy(v)
        if isconst(a):
            if not a.v:
                self.ev('assertfail')
                raise Raised(Ext('AssertionError'))
            return
        k = self.implied(a if not isapp(a, 'not') else a.args[0])
        if k is not None:
            if isapp(a, 'not'):
                k = not k
            if not k:
                self.ev('assertfail')
                raise Raised(Ext('AssertionError'))
            return
        self.ev('assert', cond=a)
        self.assume(a)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, 'curexc', None)
            if cur:
                raise cur[-1]
            raise Raised(Ext('Exception'))
        v = self.expr(s.exc, fr)
        raise self.mkraise(v)

    def mkraise(self, v):
        if isinstance(v, ClassV) or isinstance(v, Ext):
            e = Raised(v)
        elif isapp(v, 'excinst'):
            e = Raised(v.args[0], v.args[1])
        elif isinstance(v, Ref) and self.get(v).kind == 'inst':
            e = Raised(ClassV(self.get(v).cls))
        else:
            e = Raised(App('dynexc', v))
        e.term = v
        return e

    def s_Import(self, s, fr):
        for a in s.names:
            name = a.name
            if a.asname:
                self.setlocal(fr, a.asname, ModV(name) if name in self.repo.mods else Ext(name))
            else:
                top = name.split('.')[0]
                self.setlocal(fr, top, ModV(top) if top in self.repo.mods else Ext(top))

    def s_ImportFrom(self, s, fr):
        mod = s.module or ''
        if s.level:
            base = self.curmod.split('.')
            pk = base[:1]
            mod = '.'.join(pk + ([mod] if mod else []))
        if mod in self.repo.mods:
            m = self.repo.mods[mod]
            if getattr(m, 'owner', None) is not self:
                self.load(mod)
            for a in s.names:
                if a.name == '*':
                    exported = self.get(m.frame).attrs
                    al = exported.get('__all__')
                    for k, v in exported.items():
                        if not k.startswith('_'):
                            self.setlocal(fr, k, v)
                else:
                    v = self.get(m.frame).attrs.get(a.name)
                    if v is None:
                        if mod + '.' + a.name in self.repo.mods:
                            v = ModV(mod + '.' + a.name)
                        else:
                            # circular import: resolve lazily
                            v = App('lazy', mod, a.name)
                    self.setlocal(fr, a.asname or a.name, v)
        else:
            for a in s.names:
                if a.name == '*':
                    self.note(f'star import from {mod}')
                    continue
                self.setlocal(fr, a.asname or a.name, Ext(self.canonext(mod + '.' + a.name)))

    def s_FunctionDef(self, s, fr):
        v = self.mkfunc(s, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.assign_name(fr, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property', 'abstractmethod'):
            if isinstance(v, FuncV):
                kind = v.kind if d.id == 'abstractmethod' else d.id
                return FuncV(v.node, v.mod, v.frame, v.qual, v.cls, v.defaults, v.kwdefaults, kind)
        if isinstance(d, ast.Attribute) and d.attr == 'setter' and isinstance(v, FuncV):
            return v
        dv = self.expr(d, fr)
        if isinstance(dv, Ext):
            if dv.name in ('enum.unique', 'functools.wraps', 'abc.abstractmethod', 'typing.no_type_check'):
                return v
            if dv.name in ('functools.lru_cache', 'functools.cache', 'functools.total_ordering', 'dataclasses.dataclass'):
                self.note(f'decorator {dv.name}')
                return v
        return self.call(dv, [v], {})

    def mkfunc(self, node, fr, name):
        a = node.args
        defaults = tuple(self.expr(d, fr) for d in a.defaults)
        kwd = tuple((k.arg, self.expr(d, fr)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        cls = getattr(self, 'curclass', None)
        q = f'{self.curmod}.{name}' if not cls else f'{cls.qual}.{name}'
        o = self.get(fr)
        if o.parent is not None and not cls:
            q = f'{self.callstack[-1] if self.callstack else self.curmod}.{name}'
        return FuncV(node, self.curmod, fr, q, cls, defaults, kwd)

    def s_ClassDef(self, s, fr):
        info = ClassInfo(s.name, f'{self.curmod}.{s.name}', self.curmod, s)
        for b in s.bases:
            info.bases.append(self.expr(b, fr))
        if self.isenum(info):
            info.kind = 'enum'
        self.classes[info.qual] = info
        cf = self.new(Obj('frame', attrs={}, parent=fr))
        saved = getattr(self, 'curclass', None)
        self.curclass = info
        try:
            for st in s.body:
                # method bodies see the module, not the class scope
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    v = self.mkfunc(st, fr, st.name)
                    for d in reversed(st.decorator_list):
                        v = self.decorate(d, v, fr)
                    self.setlocal(cf, st.name, v)
                else:
                    self.curclass = None
                    self.stmt(st, cf)
                    self.curclass = info
        finally:
            self.curclass = saved
        info.attrs = {k: v for k, v in self.get(cf).attrs.items()}
        if info.kind == 'enum':
            self.finishenum(info)
        for k, v in info.attrs.items():
            if isinstance(v, FuncV):
                self.methods.setdefault(k, []).append((info, v))
        self.attrtypes(info, fr)
        v = ClassV(info)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.assign_name(fr, s.name, v)

    def attrtypes(self, info, fr):
        init = info.attrs.get('__init__')
        if not isinstance(init, FuncV):
            return
        ann = {}
        for a in init.node.args.args + init.node.args.kwonlyargs:
            if a.annotation is not None:
                ann[a.arg] = a.annotation
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ann:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        info.attrtypes[t.attr] = ann[n.value.id]

    def annclass(self, ann, fr):
        """ class named by an annotation, if it is a plain class of the package """
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Name):
            f = fr
            while f is not None:
                o = self.get(f)
                if ann.id in o.attrs:
                    v = self.force(o.attrs[ann.id])
                    return v.info if isinstance(v, ClassV) else None
                f = o.parent
        return None

    def force(self, v):
        if isapp(v, 'lazy'):
            m, n = v.args
            r = self.modattr(m, n)
            if r is None:
                return self.unknown(f'{m} has no {n}')
            return self.force(r)
        return v

    # with / try

    def s_With(self, s, fr, i=0):
        if i == len(s.items):
            self.block(s.body, fr)
            return
        it = s.items[i]
        c = self.expr(it.context_expr, fr)
        enter = self.findmethod(c, '__enter__')
        v = self.call(enter, [], {}) if enter is not None else c
        self.ev('with', ctx=c)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        exitm = self.findmethod(c, '__exit__')
        swallow = False
        if exitm is not None:
            self.handlers.append([Ext('BaseException')])
        try:
            try:
                self.s_With(s, fr, i + 1)
            finally:
                if exitm is not None:
                    self.handlers.pop()
        except Raised as e:
            if exitm is not None:
                r = self.call(exitm, [App('exctype', self.excterm(e)), self.excterm(e), App('exctb')], {})
                if self.decide(self.truthy(r)):
                    self.ev('swallow', exc=e.exc)
                    return
            self.ev('exit', ctx=c)
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            if exitm is not None:
                self.call(exitm, [NONE, NONE, NONE], {})
            self.ev('exit', ctx=c)
            raise
        if exitm is not None:
            self.call(exitm, [NONE, NONE, NONE], {})
        self.ev('exit', ctx=c)

    def excterm(self, e):
        if e.term is not None:
            return e.term
        e.term = App('excval', e.exc if isinstance(e.exc, T) else Const(str(e.exc)), self.tag(self.count('exc')))
        return e.term

    def handlerclasses(self, h, fr):
        if h.type is None:
            return [Ext('BaseException')]
        v = self.expr(h.type, fr)
        if isapp(v, 'tuple'):
            return list(v.args)
        return [v]

    def s_Try(self, s, fr):
        classes = [(h, self.handlerclasses(h, fr)) for h in s.handlers]
        flat = [c for _, cs in classes for c in cs]

        def inner():
            self.handlers.append(flat)
            try:
                self.block(s.body, fr)
            except Raised as e:
                if len(self.handlers) and self.handlers[-1] is flat:
                    self.handlers.pop()
                for h, cs in classes:
                    m = self.excmatch(e.exc, cs)
                    if m is None:
                        # may match: partition
                        m = self.decide(App('excmatch', e.exc if isinstance(e.exc, T) else Const(str(e.exc)), tuple(cs)))
                    if m:
                        self.ev('handled', exc=e.exc, by=tuple(cs))
                        if h.name:
                            self.assign_name(fr, h.name, self.excterm(e))
                        if not hasattr(self, 'curexc'):
                            self.curexc = []
                        self.curexc.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.curexc.pop()
                        return
                raise
            finally:
                if self.handlers and self.handlers[-1] is flat:
                    self.handlers.pop()
            self.block(s.orelse, fr)

        if not s.finalbody:
            return inner()
        try:
            inner()
        except (Raised, ReturnSig, BreakSig, ContinueSig) as e:
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    EXC = {
        'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
        'LookupError': ('Exception',), 'ValueError': ('Exception',), 'TypeError': ('Exception',),
        'AssertionError': ('Exception',), 'StopIteration': ('Exception',), 'EOFError': ('Exception',),
        'FileNotFoundError': ('OSError', 'Exception'), 'OSError': ('Exception',), 'NotImplementedError': ('RuntimeError', 'Exception'),
        'RuntimeError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'ArithmeticError': ('Exception',),
        'AttributeError': ('Exception',), 'UnicodeDecodeError': ('ValueError', 'Exception'), 'Exception': (),
        'KeyboardInterrupt': (), 'SystemExit': (), 'queue.Empty': ('Exception',), 'yaml.reader.ReaderError': ('Exception',),
        'UnicodeError': ('ValueError', 'Exception'), 'argparse.ArgumentTypeError': ('Exception',),
    }

    def excmatch(self, exc, classes):
        """ True / False / None (unknown) """
        unknown = False
        for c in classes:
            if c == Ext('BaseException'):
                return True
            if isinstance(exc, Ext):
                if c == exc:
                    return True
                ups = self.EXC.get(exc.name)
                if isinstance(c, Ext):
                    if ups is None:
                        if c.name in ('Exception',):
                            return True
                        if c.name not in self.EXC:
                            unknown = True
                    elif c.name in ups:
                        return True
                continue
            if isinstance(exc, ClassV):
                if isinstance(c, ClassV) and exc.info.subclassof(c.info):
                    return True
                if isinstance(c, Ext) and any(b == c or c.name in self.EXC.get(b.name, ()) for b in exc.info.extbases()):
                    return True
                continue
            if isapp(exc, 'anyexc'):
                # any exception of the given classes
                if exc.args[0] == c:
                    return True
                if c == Ext('Exception') and exc.args[0].name not in ('KeyboardInterrupt', 'SystemExit'):
                    return True
                continue
            if c == Ext('Exception'):
                return True
            unknown = True
        return None if unknown else False

    overruns = []
    concretewhile = False   # run rounds of while loops whose condition is constant
    unrollwhile = 0         # small scope: only executions with at most so many rounds of a while loop
    raisefilter = None
    raisespecific = False   # what the filter suppresses still matters to handlers of specific exceptions
    raiseall = False        # partition also where no handler would notice

    def mayraise(self, term, excs=None):
        """ partition on an operation raising, if an active handler would notice """
        if self.loading or not (self.handlers or self.raiseall) or not self.levels:
            return
        broad = True
        if self.raisefilter is not None and not self.raisefilter(term):
            if not self.raisespecific or excs is None:
                return
            broad = False
        cands = []
        for hs in self.handlers:
            for c in hs:
                if c not in cands and (broad or c not in (Ext('Exception'), Ext('BaseException'))):
                    cands.append(c)
        if self.raiseall and Ext('Exception') not in cands and excs is None:
            cands.append(Ext('Exception'))
        for c in cands:
            e = None
            if excs is None:
                e = c if isinstance(c, Ext) else None
                if c == Ext('BaseException') or c == Ext('Exception'):
                    e = Ext('Exception')
                if c == Ext('AssertionError'):
                    continue
            else:
                for x in excs:
                    if self.excmatch(Ext(x), [c]):
                        e = Ext(x)
                        break
            if e is None:
                continue
            if self.decide(App('raises', term, e)):
                r = Raised(e, implicit=True)
                r.term = App('excof', term, e)
                self.ev('raised', by=term, exc=e)
                raise r
            if excs is not None:
                break

    # ------------------------------------------------------------ loops

    def s_For(self, s, fr):
        c = s.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and len(c.args) == 2 and not c.keywords and not s.orelse \
                and self.expr(c.func, fr) == Ext('iter'):
            # for x in iter(f, end): while True: x = f(); if x == end: break
            fn = self.expr(c.args[0], fr)
            end = self.expr(c.args[1], fr)

            def step(_):
                v = self.call(fn, [], {})
                if self.decide(self.truthy(self.compare(ast.Eq(), v, end))):
                    raise BreakSig()
                self.assign(s.target, v, fr)
                self.block(s.body, fr)
            try:
                self.loop(None, None, step, kind='while')
            except BreakSig:
                pass
            return
        it = self.expr(s.iter, fr)

        def body(v):
            self.assign(s.target, v, fr)
            self.block(s.body, fr)
        try:
            self.iterate(it, body)
        except BreakSig:
            return
        self.block(s.orelse, fr)

    def s_While(self, s, fr):
        # try to unroll concretely (constant conditions only)
        n = 0
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            pass

        def body(_):
            if not self.cond(s.test, fr):
                raise BreakSigElse()
            self.block(s.body, fr)
        if self.loading:
            while self.cond(s.test, fr):
                n += 1
                if n > MAXUNROLL:
                    self.note('loop not unrolled')
                    return
                try:
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            return
        if self.concretewhile and not isinstance(s.test, ast.Constant) and not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance'))
                                          for x in ast.walk(s.test)):
            # rounds whose condition is a constant
            while n < MAXUNROLL:
                t = self.truthy(self.expr(s.test, fr))
                if not isconst(t):
                    break
                if not t.v:
                    self.block(s.orelse, fr)
                    return
                n += 1
                try:
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            n = 0
        if self.unrollwhile:
            while self.cond(s.test, fr):
                n += 1
                if n > self.unrollwhile:
                    self.overruns.append(s.lineno)
                    raise Infeasible()
                try:
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            self.block(s.orelse, fr)
            return
        try:
            self.loop(None, None, body, kind='while')
        except BreakSigElse:
            self.block(s.orelse, fr)
        except BreakSig:
            return

    def iterate(self, it, body):
        """ run body(value) for every element of it; StopIteration semantics via BreakSig """
        it = self.force(it)
        parts = self.segments(it)
        for seg in parts:
            self.iterseg(seg, body)

    def iterseg(self, seg, body, outer=()):
        if seg.op == 'one':
            try:
                body(seg.args[0])
            except ContinueSig:
                pass
            return
        if seg.op == 'rest':
            src = seg.args[0]
            src, binder, val = self.binder(src)

            def step(_):
                if self.raisefilter is not None:
                    self.mayraise(App('next', src))
                body(val())
            self.loop(src, binder, step)
            return
        if seg.op == 'star':
            src, alts = seg.args
            if isapp(src, 'while'):
                # elements produced by an unbounded loop
                e = App('elem', App('seq', seg), self.nest(App('seq', seg)))
                self.loop(App('seq', seg), e, lambda _: body(e))
                return
            b2 = self.renest(src)

            def run(_):
                i = self.choose(len(alts), App('altof', src))
                facts, segs = alts[i].args
                ren = self.renamer(src, b2)
                for a, v in facts:
                    self.assume(ren(a), v)
                for sg in segs:
                    self.iterseg(ren(sg), body)
            # results of calls made by the loop that produced the elements differ from element to element
            active = {l.loopid for l in self.levels}
            own = {x for x in subterms(seg) if isapp(x, 'tag') and x.args[0] and x.args[0] not in active}
            self.loop(src, b2, run, own=own)
            return
        raise AssertionError(seg)

    def nest(self, src):
        return self.activesrc.get(src, 0)

    def elem(self, src, k=None):
        k = self.nest(src) if k is None else k
        return App('elem', src, k)

    def renest(self, src):
        return App('elem', self.unorder(src), self.nest(self.unorder(src)))

    def renamer(self, src, b):
        """ rename the binder under which a star segment was recorded """
        u = self.unorder(src)
        k = b.args[1]
        if k == 0:
            return lambda t: t
        return lambda t: rebuild(t, lambda x: App(x.op, u, x.args[1] + k) if isinstance(x, App) and x.op in ('elem', 'idx') and x.args[0] == u else x)

    def unorder(self, src):
        while isapp(src) and src.op in ('sorted', 'reversed'):
            src = src.args[0]
        return src

    def loop(self, src, binder, body, kind='for', own=()):
        """ analyse a loop of unknown length """
        if self.loading:
            self.note('loop over unknown sequence at module level')
            return
        self.loopn += 1
        lid = f'L{self.loopn}'
        self.loophome[lid] = self.levels[-1].loopid if self.levels else None
        loopstart = self.loopn
        if kind == 'while':
            src = App('while', lid)
            binder = App('elem', src, 0)
        u = self.unorder(src)
        level_binders = {binder, App('idx', u, binder.args[1])} if isapp(binder, 'elem') else {binder}
        level_binders.update(own)
        if isapp(u, 'zip'):
            for x in u.args:
                level_binders.add(self.elem(x))
                level_binders.add(App('idx', x, self.nest(x)))
        summ = LoopSummary(lid, src, binder, self.line, self.curmod)
        pre = self.st.clone()
        slots = {}
        srcs = [u] + (list(u.args) if isapp(u, 'zip') else [])

        def push():
            for x in srcs:
                self.activesrc[x] = self.activesrc.get(x, 0) + 1

        def pop():
            for x in srcs:
                self.activesrc[x] -= 1

        for rnd in range(8):
            self.st = pre.clone()
            self.st.trace = []
            for sl, (init, mu) in slots.items():
                self.writeslot(sl, mu)
            start = self.st.clone()

            def run():
                self.loopn = loopstart
                push()
                try:
                    body(None)
                    return ('next', None)
                except ContinueSig:
                    return ('next', None)
                except BreakSigElse:
                    return ('else', None)
                except BreakSig:
                    return ('break', None)
                except ReturnSig as e:
                    return ('return', e.v)
                except Raised as e:
                    return ('raise', e)
                finally:
                    pop()
            nn = len(self.notes)
            res = self.explore(run, lid, level_binders)
            changed = {}
            for (outcome, v), level, st, prefix in res:
                if outcome != 'next':
                    continue
                for sl, val in self.diffslots(start, st).items():
                    changed.setdefault(sl, []).append(val)
            new = [sl for sl in changed if sl not in slots]
            retype = []
            for sl, vals in changed.items():
                if sl in slots:
                    init, mu = slots[sl]
                    if isapp(mu, 'mu') and mu.args[2] and any(self.slottype(x) != mu.args[2] and not self.subtype(self.slottype(x), mu.args[2]) for x in vals):
                        retype.append(sl)
            if not new and not retype:
                break
            for sl in new:
                init = self.readslot(pre, sl)
                mus = self.muvalue(lid, sl, init)
                slots[sl] = (init, mus)
            for sl in retype:
                init, mu = slots[sl]
                t = None
                if mu.args[2] == 'int' and all(self.subtype(self.slottype(x), 'num') for x in changed[sl]):
                    t = 'num'
                slots[sl] = (init, App('mu', mu.args[0], mu.args[1], t))
        else:
            self.note('loop state did not stabilise')
        # summary
        summ.slots = dict(slots)
        for (outcome, v), level, st, prefix in res:
            upd = self.diffslots(start, st)
            for i, o in st.heap.items():
                if i not in pre.heap:
                    self.objs[i] = o
            summ.paths.append(LoopPath(list(level.order), st.trace, outcome, v, upd, prefix))
        self.st = pre
        self.loopn = loopstart
        nexts = [p for p in summ.paths if p.outcome == 'next']
        exits = [p for p in summ.paths if p.outcome in ('break', 'return', 'raise', 'else')]
        options = []
        if kind == 'for':
            options.append('exhausted')
        options.extend(exits)
        if kind == 'for' and not nexts and exits:
            pass
        self.ev('loop', loop=summ)
        if not options:
            # endless loop
            self.ev('endless', loop=summ)
            raise Infeasible() if False else ReturnSig(App('diverges', lid))
        c = self.choose(len(options), App('exitof', lid)) if len(options) > 1 else 0
        opt = options[c]
        summ.exit = opt if opt == 'exhausted' else opt.outcome
        self.ev('loopexit', loop=summ, how=opt)
        if opt == 'exhausted':
            for sl, (init, mu) in slots.items():
                val = self.aftervalue(summ, sl, init, mu, nexts)
                summ.after[sl] = val
                self.writeslot(sl, val)
            return
        # last iteration: replay that partition at this level
        for sl, (init, mu) in slots.items():
            self.writeslot(sl, mu)
        self.st.trace.append(Event('lastiter', self.curmod, self.line, loop=summ))
        lvl = Level(opt.prefix, lid, level_binders, self.nref)
        self.levels.append(lvl)
        d = len(self.levels)
        push()
        sig = None
        try:
            body(None)
        except (BreakSig, BreakSigElse, ReturnSig, Raised) as e:
            sig = e
        except ContinueSig:
            pass
        finally:
            pop()
            facts = list(lvl.order)
            del self.levels[d - 1:]
        for a, v in facts:
            self.levels[-1].facts.setdefault(a, v)
            self.levels[-1].order.append((a, v))
        for x in srcs:
            self.activesrc[x] = self.activesrc.get(x, 0) + 1   # its binder stays meaningful
        if sig is not None:
            raise sig

    # slots: ('var', frame id, name) ('obj', id) ('attr', id, name) ('sattr', term, name) ('cont', term) ('ver', term)

    def diffslots(self, a, b):
        out = {}
        for i, o in b.heap.items():
            p = a.heap.get(i)
            if p is None:
                p = a.base.get(i)
                if p is None:
                    continue    # allocated in the body
            if p is o:
                continue
            if o.kind in ('frame', 'inst'):
                for k, v in o.attrs.items():
                    if isinstance(v, tuple):
                        continue
                    if p.attrs.get(k) != v:
                        out[('var' if o.kind == 'frame' else 'attr', i, k)] = v
            elif o.segs != p.segs:
                out[('obj', i)] = App('segs', o.segs)
        for k, v in b.sattr.items():
            if a.sattr.get(k) != v:
                out[('sattr',) + k] = v
        for k, v in b.cont.items():
            if a.cont.get(k) != v:
                out[('cont', k)] = App('segs', v)
        for k, v in b.ver.items():
            if a.ver.get(k) != v:
                out[('ver', k)] = v
        return out

    def readslot(self, st, sl):
        k = sl[0]
        if k in ('var', 'attr'):
            return st.get(sl[1]).attrs.get(sl[2], UNBOUND)
        if k == 'obj':
            return App('segs', st.get(sl[1]).segs)
        if k == 'sattr':
            return st.sattr.get(sl[1:], App('attr', sl[1], sl[2]))
        if k == 'cont':
            v = st.cont.get(sl[1])
            return App('segs', v if v is not None else (segrest(sl[1]),))
        if k == 'ver':
            return st.ver.get(sl[1], Const(0))

    def writeslot(self, sl, v):
        k = sl[0]
        if k in ('var', 'attr'):
            o = self.st.get(sl[1])
            a = dict(o.attrs)
            a[sl[2]] = v
            self.st.set(sl[1], o.with_(attrs=a))
        elif k == 'obj':
            o = self.st.get(sl[1])
            self.st.set(sl[1], o.with_(segs=v.args[0]))
        elif k == 'sattr':
            self.st.sattr[sl[1:]] = v
        elif k == 'cont':
            self.st.cont[sl[1]] = v.args[0]
        elif k == 'ver':
            self.st.ver[sl[1]] = v

    def slotname(self, sl):
        k = sl[0]
        if k == 'var':
            return sl[2]
        if k == 'attr':
            return f'#{sl[1]}.{sl[2]}'
        if k == 'obj':
            return f'#{sl[1]}'
        if k == 'sattr':
            return f'{sl[1]!r}.{sl[2]}'
        if k == 'cont':
            return f'{sl[1]!r}[]'
        return f'ver {sl[1]!r}'

    def slottype(self, v):
        t = typ(v)
        if t in ('int', 'num', 'str', 'float', 'bool', 'bytes'):
            return {'float': 'num'}.get(t, t)
        return None

    def subtype(self, a, b):
        return a == b or (a in ('int', 'bool') and b in ('num', 'int'))

    def muvalue(self, lid, sl, init):
        nm = self.slotname(sl)
        if sl[0] in ('obj', 'cont'):
            return App('segs', (segrest(App('mu', lid, nm, 'list')),))
        t = self.slottype(init)
        if t == 'bool':
            t = None
        m = App('mu', lid, nm, t)
        if init in self.clsof:
            self.clsof[m] = self.clsof[init]
        return m

    def aftervalue(self, summ, sl, init, mu, nexts):
        src = summ.src
        step = []
        for p in nexts:
            step.append((tuple(p.facts), p.updates.get(sl, mu)))
        nm = self.slotname(sl)
        if sl[0] in ('obj', 'cont'):
            m = mu.args[0][0]
            alts = []
            ok = True
            for facts, v in step:
                segs = v.args[0]
                if segs and segs[0] == m and not any(occurs(x, m.args[0]) for x in segs[1:]):
                    alts.append((facts, segs[1:]))
                else:
                    ok = False
            if ok:
                return App('segs', init.args[0] + self.mkstar(src, summ.binder, alts))
            self_contained = all(not occurs(v, m.args[0]) for _, v in step)
            return App('segs', (segrest(App('after', summ.id, nm, None, init, tuple(App('step', f, v) for f, v in step))),))
        # numeric accumulation
        if isapp(mu, 'mu') and mu.args[2] in ('int', 'num'):
            deltas, ok = [], True
            for facts, v in step:
                d = sub(v, mu)
                if occurs(d, mu):
                    ok = False
                    break
                deltas.append((facts, d))
            if ok and not any(self.hasmu(d, summ.id) or any(self.hasmu(a, summ.id) for a, _ in f) for f, d in deltas):
                return add(init, self.mksum(src, summ.binder, deltas))
        # string accumulation
        if isapp(mu, 'mu') and mu.args[2] == 'str':
            alts, ok = [], True
            for facts, v in step:
                if v == mu:
                    alts.append((facts, ()))
                elif isapp(v, 'concat') and v.args[0] == mu and not any(occurs(x, mu) for x in v.args[1:]):
                    alts.append((facts, (seg1(concat(*v.args[1:])),)))
                else:
                    ok = False
            if ok:
                return concat(init, App('join', Const(''), self.mkstar(src, summ.binder, alts)))
        vals = {v for _, v in step}
        r = App('after', summ.id, nm, mu.args[2] if isapp(mu, 'mu') else None, init, tuple(App('step', f, v) for f, v in step))
        if vals and all(v in self.clsof for v in vals) and len({id(self.clsof[v]) for v in vals}) == 1 and init in self.clsof:
            self.clsof[r] = self.clsof[init]
        return r

    def hasmu(self, t, lid):
        return contains(t, lambda x: isinstance(x, App) and x.op in ('mu', 'tag') and x.args[0] == lid)

    def mkstar(self, src, binder, alts):
        """ normal form of a comprehension/append loop result, as a tuple of segments """
        alts = [(tuple(f), tuple(s)) for f, s in alts]
        alts = self.mergealts(alts)
        if all(not s for _, s in alts):
            return ()
        if len(alts) == 1 and not alts[0][0] and alts[0][1] == (seg1(binder),):
            return (segrest(src),)
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and isapp(src, 'range') and False:
            pass
        return (App('star', src, tuple(App('alt', f, s) for f, s in alts)),)

    def mksum(self, src, binder, deltas):
        deltas = self.mergealts(deltas)
        if all(d == Const(0) for _, d in deltas):
            return Const(0)
        if len(deltas) == 1 and not deltas[0][0] and not occurs(deltas[0][1], binder) and not contains(deltas[0][1], lambda x: isapp(x, 'idx')):
            return mul(deltas[0][1], App('len', self.unorder(src)))
        return App('sum', self.unorder(src), tuple(App('alt', tuple(f), d) for f, d in deltas))

    def mergealts(self, alts):
        """ drop distinctions that do not matter: same value under f and not f """
        alts = [(tuple(f), v) for f, v in alts]
        changed = True
        while changed:
            changed = False
            for i in range(len(alts)):
                for j in range(i + 1, len(alts)):
                    fi, vi = alts[i]
                    fj, vj = alts[j]
                    if vi != vj:
                        continue
                    si, sj = set(fi), set(fj)
                    d = si ^ sj
                    if len(si) == len(sj) and len(d) == 2:
                        (a, x), (b, y) = d
                        if a == b and x != y:
                            alts[i] = (tuple(f for f in fi if f[0] != a), vi)
                            del alts[j]
                            changed = True
                            break
                if changed:
                    break
        # alternatives are unordered: canonical order
        if len(alts) > 1:
            alts = sorted(((tuple(sorted(f, key=repr)), v) for f, v in alts), key=repr)
        return alts

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                self.slice_assign(o, self.slice(t.slice, fr), v)
            else:
                self.setitem(o, self.expr(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.note(f'assignment target {type(t).__name__}')

    def unpack(self, elts, v, fr):
        n = len(elts)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.force(v)
        items = self.concrete(v)
        if items is not None:
            if stars:
                i = stars[0]
                if len(items) < n - 1:
                    raise Raised(Ext('ValueError'))
                rest = len(items) - (n - 1)
                vals = items[:i] + [self.mklist([seg1(x) for x in items[i:i + rest]])] + items[i + rest:]
            else:
                if len(items) != n:
                    raise Raised(Ext('ValueError'))
                vals = items
        else:
            if stars:
                self.mayraise(App('unpack', self.freeze(v), n), ['ValueError'])
                i = stars[0]
                vals = []
                for j in range(n):
                    if j < i:
                        vals.append(self.getitem(v, Const(j)))
                    elif j == i:
                        vals.append(self.mklist([segrest(App('slice', self.freeze(v), Const(i), NONE if i == n - 1 else Const(i - n + 1), NONE))]))
                    else:
                        vals.append(self.getitem(v, Const(j - n)))
            else:
                if any('ValueError' == getattr(c, 'name', '') for h in self.handlers for c in h):
                    self.mayraise(App('unpack', self.freeze(v), n), ['ValueError'])
                vals = [self.unpackitem(v, j) for j in range(n)]
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def unpackitem(self, v, j):
        ci = self.classof(v)
        if ci is not None and ci.kind == 'namedtuple' and j < len(ci.fields):
            return self.getattr(v, ci.fields[j])
        return self.getitem(v, Const(j))

    # ------------------------------------------------------------ expressions

    def expr(self, e, fr, assertion=False):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exhausted')
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            return self.unknown(f'expression {type(e).__name__}')
        return self.force(f(e, fr))

    def cond(self, e, fr):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x, fr) for x in e.values)
            return any(self.cond(x, fr) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        return self.decide(self.truthy(self.expr(e, fr)))

    def truthy(self, v):
        """ boolean term for bool(v), looking into heap objects """
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind in ('list', 'set', 'dict', 'gen'):
                if o.kind == 'gen':
                    return TRUE
                if any(s.op == 'one' for s in o.segs):
                    return TRUE
                if not o.segs:
                    return FALSE
                if len(o.segs) == 1 and o.segs[0].op == 'rest':
                    return self.truthy(o.segs[0].args[0])
                return App('truth', App('seq', *o.segs))
            if o.kind == 'inst':
                for m in ('__bool__', '__len__'):
                    f, _ = o.cls.lookup(m)
                    if f is not None:
                        return truth(self.call(Bound(f, v), [], {}))
                return TRUE
            return TRUE
        if v in self.st.cont:
            segs = self.st.cont[v]
            if any(s.op == 'one' for s in segs):
                return TRUE
            if not segs:
                return FALSE
            if len(segs) == 1 and segs[0].op == 'rest':
                return truth(segs[0].args[0])
            return App('truth', App('seq', *segs))
        if isapp(v, 'not') or typ(v) == 'bool':
            return v
        ci = self.classof(v)
        if ci is not None and ci.kind == 'class':
            if v in self.clsof or isinstance(v, Sym):
                for m in ('__bool__', '__len__'):
                    f, _ = ci.lookup(m)
                    if f is not None:
                        return truth(self.call(Bound(f, v), [], {}))
                return TRUE
        return truth(v)

    def e_Constant(self, e, fr):
        return Const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Tuple(self, e, fr):
        return self.mktuple(e.elts, fr)

    def mktuple(self, elts, fr):
        segs = self.elts(elts, fr)
        if all(s.op == 'one' for s in segs):
            return App('tuple', *[s.args[0] for s in segs])
        return App('tupleof', *segs)

    def elts(self, elts, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.segments(self.expr(x.value, fr)))
            else:
                segs.append(seg1(self.expr(x, fr)))
        return segs

    def e_List(self, e, fr):
        return self.mklist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mklist(self.nodup(self.elts(e.elts, fr)), 'set')

    def e_Dict(self, e, fr):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                segs.extend(self.dictsegs(self.expr(v, fr)))
            else:
                kk = self.expr(k, fr)
                segs.append(seg1(App('tuple', kk, self.expr(v, fr))))
        return self.mkdict(segs)

    def mkdict(self, segs, default=None):
        r = self.new(Obj('dict', segs=(), default=default))
        for s in segs:
            if s.op == 'one':
                k, v = s.args[0].args
                self.dictput(r, k, v)
            else:
                o = self.get(r)
                self.set(r, o.with_(segs=o.segs + (s,)))
        return r

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                v = self.expr(x.value, fr)
                spec = ''
                if x.format_spec is not None:
                    sp = self.expr(x.format_spec, fr)
                    spec = sp.v if isconst(sp) else sp
                conv = chr(x.conversion) if x.conversion and x.conversion > 0 else ''
                parts.append(self.format(v, spec, conv))
        return concat(*parts)

    def e_FormattedValue(self, e, fr):
        return self.format(self.expr(e.value, fr), '', '')

    def format(self, v, spec, conv):
        if isinstance(spec, T):
            return App('fmt', self.freeze(v), spec, conv)
        if not isinstance(spec, str):
            spec = str(spec)
        if conv == 'r':
            v = self.callbuiltin('repr', [v], {})
        elif conv:
            v = self.callbuiltin('str', [v], {})
        if isconst(v) and (spec or not isinstance(v.v, float)):
            try:
                return Const(format(v.v, spec))
            except Exception:
                pass
        if isinstance(v, Enum) and isinstance(v.value, int) and spec:
            try:
                return Const(format(v.value, spec))
            except Exception:
                pass
        if spec == '' and typ(v) == 'str':
            return v
        if spec == '' :
            return self.callbuiltin('str', [v], {})
        return App('fmt', self.freeze(v), spec)

    def e_Attribute(self, e, fr):
        o = self.expr(e.value, fr)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, fr):
        o = self.expr(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            return self.getslice(o, self.slice(e.slice, fr))
        return self.getitem(o, self.expr(e.slice, fr))

    def slice(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: NONE if x is None else self.expr(x, fr)
            return App('sl', g(s.lower), g(s.upper), g(s.step))
        return self.expr(s, fr)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return notb(self.truthy(v))
        if isinstance(e.op, ast.USub):
            if isconst(v) and isinstance(v.v, (int, float)):
                return Const(-v.v)
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isconst(v) and isinstance(v.v, int):
            return Const(~v.v)
        return App('invert', v)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.expr(e.left, fr), self.expr(e.right, fr))

    def e_BoolOp(self, e, fr):
        last = None
        for i, x in enumerate(e.values):
            last = self.expr(x, fr)
            if i == len(e.values) - 1:
                return last
            t = self.decide(self.truthy(last))
            if isinstance(e.op, ast.And):
                if not t:
                    return last if typ(last) != 'bool' else FALSE
            elif t:
                return last if typ(last) != 'bool' else TRUE
        return last

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = TRUE
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r, fr)
            res = self.compare(op, left, right)
            if i < n - 1:
                if not self.decide(res):
                    return FALSE
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return notb(r) if n == 'IsNot' else r
        if n in ('Eq', 'NotEq'):
            r = self.equals(a, b)
            return notb(r) if n == 'NotEq' else r
        if n in ('In', 'NotIn'):
            r = self.member(a, b)
            return notb(r) if n == 'NotIn' else r
        if n in ('LtE', 'GtE') and self.isset(a) and self.isset(b):
            return self.setrel('issubset', *((a, b) if n == 'LtE' else (b, a)))
        if n == 'Lt':
            return self.less(a, b)
        if n == 'Gt':
            return self.less(b, a)
        if n == 'LtE':
            return notb(self.less(b, a))
        if n == 'GtE':
            return notb(self.less(a, b))

    def isset(self, v):
        v = self.force(v)
        return isapp(v, 'frozenset') or isinstance(v, Ref) and self.get(v).kind == 'set'

    def setrel(self, name, a, b):
        """ subset, superset, disjointness of sets; opaque if the elements are not known """
        if name == 'issuperset':
            return self.setrel('issubset', b, a)
        xs, ys = self.concrete(a), self.concrete(b)
        if xs is None or ys is None or self.loading:
            return App(name, self.freeze(a), self.freeze(b))
        b = App('tuple', *ys)
        want = name == 'issubset'
        for x in xs:
            if self.decide(self.member(x, b)) != want:
                return FALSE
        return TRUE

    def less(self, a, b):
        if self.isset(a) and self.isset(b):
            r = self.setrel('issubset', a, b)
            if r == FALSE:
                return FALSE
            return notb(self.equals(a, b)) if self.decide(r) else FALSE
        a, b = self.freeze(a), self.freeze(b)
        if isinstance(a, Enum):
            a = Const(a.value)
        if isinstance(b, Enum):
            b = Const(b.value)
        return lt(a, b)

    def identical(self, a, b):
        a, b = self.force(a), self.force(b)
        if a == b:
            return TRUE
        if isinstance(a, (ClassV, FuncV, Ref, ModV)) and isinstance(b, (ClassV, FuncV, Ref, ModV)):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x == NONE and (isinstance(y, Ref) or self.nonnull(y) or y in self.st.cont):
                return FALSE
        if isinstance(a, (Const, Enum)) and isinstance(b, (Const, Enum)) and NONE not in (a, b):
            return eq(a, b)
        return eq(a, b)

    def ground(self, v):
        """value of a term without unknowns, boxed; sets are told apart from sequences by a tag; None for anything else"""
        if isinstance(v, Const):
            return (v.v,)
        if isinstance(v, Enum):
            return (v.value,)
        if isapp(v, 'tuple'):
            xs, tag = v.args, tuple
        elif isapp(v, 'nt'):
            xs, tag = v.args[1:], tuple
        elif isapp(v, 'frozenset'):
            xs, tag = v.args, frozenset
        elif isinstance(v, Ref):
            o = self.get(v)
            if o.kind == 'dict' and all(s.op == 'one' for s in o.segs):
                gs = [(self.ground(s.args[0].args[0]), self.ground(s.args[0].args[1])) for s in o.segs]
                if any(None in g for g in gs):
                    return None
                try:
                    return (('dict', frozenset(gs)),)
                except TypeError:
                    return None
            if o.kind not in ('set', 'list') or not all(s.op == 'one' for s in o.segs):
                return None
            xs, tag = [s.args[0] for s in o.segs], frozenset if o.kind == 'set' else list
        else:
            return None
        gs = [self.ground(x) for x in xs]
        if None in gs:
            return None
        try:
            return ((tag.__name__, frozenset(gs) if tag is frozenset else tuple(gs)),)
        except TypeError:
            return None

    def equals(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            oa, ob = self.get(a), self.get(b)
            if oa.kind == 'inst' and ob.kind == 'inst':
                for x, y, c in ((a, b, oa.cls), (b, a, ob.cls)):
                    f, _ = c.lookup('__eq__')
                    if f is None:
                        continue
                    r = self.force(self.call(Bound(f, x), [y], {}))
                    if r != Ext('NotImplemented'):
                        return self.truthy(r)
                return FALSE
            if oa.kind == 'frame' or ob.kind == 'frame':
                return FALSE
            if oa.kind != ob.kind:
                return FALSE
        if isinstance(a, (Ref, App)) and isinstance(b, (Ref, App)):
            ga = self.ground(a)
            gb = self.ground(b) if ga is not None else None
            if ga is not None and gb is not None:
                return Const(ga == gb)
        fa, fb = self.freeze(a), self.freeze(b)
        if isapp(fa, 'tuple') and isapp(fb, 'tuple'):
            if len(fa.args) != len(fb.args):
                return FALSE
            # elementwise, short-circuiting
            for x, y in zip(fa.args, fb.args):
                if not self.decide(self.equals(x, y)):
                    return FALSE
            return TRUE
        return eq(fa, fb)

    def member(self, x, c):
        c = self.force(c)
        raw, x = x, self.freeze(x)
        if isinstance(c, ClassV) and c.info.kind == 'enum':
            return App('in', x, c)
        if isconst(c) and isinstance(c.v, str) and isconst(x) and isinstance(x.v, str):
            return Const(x.v in c.v)
        if isinstance(c, Ref) and self.get(c).kind == 'inst':
            f, _ = self.get(c).cls.lookup('__contains__')
            if f is not None:
                return self.truthy(self.call(Bound(f, c), [x], {}))
            return App('in', x, c)
        if isapp(c, 'dictof') and isconst(x) and all(s_.op == 'one' and isconst(s_.args[0].args[0]) for s_ in c.args):
            return Const(any(s_.args[0].args[0] == x for s_ in c.args))
        segs = None
        isdict = False
        if isinstance(c, Ref):
            o = self.get(c)
            segs, isdict = o.segs, o.kind == 'dict'
        elif isapp(c, 'tuple') or isapp(c, 'frozenset'):
            segs = [seg1(y) for y in c.args]
        elif c in self.st.cont:
            segs = self.st.cont[c]
            isdict = any(s.op == 'one' and isapp(s.args[0], 'kv') for s in segs)
        if segs is not None and all(s.op == 'one' for s in segs):
            items = [s.args[0] for s in segs]
            if isdict:
                items = [i.args[0] for i in items]
            if isinstance(raw, (Ref, App)):
                g = self.ground(raw)
                if g is not None:
                    gs = [self.ground(i) for i in items]
                    if g in gs:
                        return TRUE
                    if None not in gs:
                        return FALSE
            items = [self.freeze(i) for i in items]
            if isinstance(x, (Const, Enum)) and all(isinstance(i, (Const, Enum)) for i in items):
                return Const(any(eq(i, x) == TRUE for i in items))
            if len(items) <= 12 and not self.loading:
                for i in sorted(set(items), key=repr):
                    if self.decide(self.equals(x, i)):
                        return TRUE
                return FALSE
            return App('in', x, App('setof', *sorted(set(items), key=repr)))
        if segs is not None:
            items = []
            for s in segs:
                if s.op == 'one':
                    i = s.args[0].args[0] if isdict else s.args[0]
                    if self.freeze(i) == x:
                        return TRUE
            if len(segs) == 1 and segs[0].op == 'rest':
                return self.atomin(x, segs[0].args[0])
            return App('in', x, App('seq', *segs))
        return self.atomin(x, c)

    def atomin(self, x, c):
        c = self.freeze(c)
        if isapp(c, 'keysof'):
            c = c.args[0]
        # an element of c is in c
        if isapp(x, 'elem') and x.args[0] == c:
            return TRUE
        return App('in', x, c)

    def e_IfExp(self, e, fr):
        return self.expr(e.body if self.cond(e.test, fr) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        return self.unknown('starred expression')

    def e_Await(self, e, fr):
        return self.expr(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value else NONE
        self.yielded(v)
        return NONE

    def yielded(self, v):
        if not self.genstack:
            self.note('yield outside generator')
            return
        self.ev('yield', value=v, depth=len(self.genstack))
        g = self.genstack[-1]
        o = self.get(g)
        self.set(g, o.with_(segs=o.segs + (seg1(v),)))

    def e_YieldFrom(self, e, fr):
        v = self.expr(e.value, fr)
        self.iterate(v, lambda x: self.yielded(x))
        return NONE

    # comprehensions = loops appending to a fresh list

    def comp(self, e, fr, emit, kind):
        out = self.new(Obj(kind, segs=()))
        cf = self.new(Obj('frame', attrs={}, parent=fr))

        def gen(i):
            if i == len(e.generators):
                emit(out, cf)
                return
            g = e.generators[i]
            it = self.expr(g.iter, fr if i == 0 else cf)

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.cond(c, cf):
                        raise ContinueSig()
                gen(i + 1)
            self.iterate(it, body)
        gen(0)
        return out

    def push(self, out, v):
        o = self.get(out)
        self.set(out, o.with_(segs=o.segs + (seg1(v),)))

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, lambda o, cf: self.push(o, self.expr(e.elt, cf)), 'list')

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda o, cf: self.push(o, self.expr(e.elt, cf)), 'set')
        o = self.get(r)
        if len(o.segs) > 1 and all(s.op == 'one' for s in o.segs):
            self.set(r, o.with_(segs=tuple(self.nodup(o.segs))))
        return r

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, lambda o, cf: self.push(o, self.expr(e.elt, cf)), 'gen')

    def e_DictComp(self, e, fr):
        def emit(o, cf):
            k = self.expr(e.key, cf)
            v = self.expr(e.value, cf)
            self.dictput(o, k, v)
        return self.comp(e, fr, emit, 'dict')

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_(fr)
        f = self.expr(e.func, fr)
        args, kwargs, stars = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, fr)
                items = self.concrete(v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(App('starargs', self.freeze(v)))
            else:
                args.append(self.expr(a, fr))
        for k in e.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                items = self.dictitems(v)
                if items is not None and all(isconst(a) for a, _ in items):
                    for a, b in items:
                        kwargs[a.v] = b
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        self.line = e.lineno
        return self.call(f, args, kwargs)


class BreakSigElse(Exception):
    """ while condition false """
