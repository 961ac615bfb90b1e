"""Helpers shared by the checks: entry points, symbolic arguments, printing."""
import ast
import warnings

from .terms import *
from .engine import Repo, Interp, Event, LoopSummary, Raised, Path, seg1, segrest, Obj

import os
ROOT = os.environ.get('SA_ROOT', '/repo')


def thorough():
    import sys
    return '--thorough' in sys.argv


def interp(repo=None, **kw):
    warnings.simplefilter('ignore')
    return Interp(repo or Repo(ROOT), **kw)


def cls(it, qual):
    return it.classes.get('lulua.' + qual)


def sym(it, name, clsname=None, typ=None):
    c = cls(it, clsname) if clsname else None
    return Sym(name, typ, c)


def method(it, clsqual, name):
    c = cls(it, clsqual)
    if c is None:
        return None
    f, _ = c.lookup(name)
    return f


def dumppaths(paths, depth=0):
    for p in paths:
        print('  ' * depth + '== path', p.outcome, p.value if p.outcome != 'raise' else p.value.exc, 'facts:', p.facts)
        dumptrace(p.trace, depth + 1)
        for n in p.notes:
            print('  ' * depth + '   note', n)


def dumptrace(trace, depth=0):
    for e in trace:
        if e.kind == 'loop':
            l = e.loop
            print('  ' * depth + f'LOOP {l.id} src={l.src} binder={l.binder} slots={l.slots}')
            for lp in l.paths:
                print('  ' * depth + f' -- {lp.outcome} {lp.value.exc if lp.outcome == "raise" else lp.value} facts={lp.facts}')
                dumptrace(lp.trace, depth + 2)
                print('  ' * depth + f'    upd={lp.updates}')
            print('  ' * depth + f' after={l.after}')
        elif e.kind in ('loopexit', 'lastiter'):
            print('  ' * depth + f'{e.kind} {e.loop.id} {getattr(e.loop, "exit", None)}')
        else:
            print('  ' * depth + repr(e))


def loaderclass(it, loader):
    """class of what a YamlLoader yields, from its deserialize argument"""
    if isinstance(loader, Ref):
        o = it.base.get(loader.id) or it.st.get(loader.id)
        d = o.attrs.get('deserialize') if o.attrs else None
        f = d.func if isinstance(d, Bound) else d
        q = getattr(f, 'qual', '') or ''
        return it.classes.get(q.rpartition('.')[0])
    return None


def hookloaders(it):
    """looking up a layout or keyboard by name: an object of the loader's class, named by the key"""
    def get(i, args, kw):
        c = loaderclass(i, args[0])
        if c is None or len(args) < 2:
            return NotImplemented
        t = App('loaded', c.qual, i.freeze(args[1]))
        i.clsof[t] = c
        i.ev('loaded', cls=c.qual, key=args[1], result=t)
        return t
    it.hooks['lulua.util.YamlLoader.__getitem__'] = get
    return it


def hookdomain(it):
    """layout and keyboard objects stay abstract: lookups, binding and key search are named operations"""
    hookloaders(it)

    def mk(op, qual):
        def f(i, args, kw):
            c = i.classes.get(qual)
            xs = [i.freeze(a) for a in list(args) + list(kw.values())]
            t = App(op, *xs)
            if c is not None:
                i.clsof[t] = c
            return t
        return f
    it.hooks['lulua.layout.GenericLayout.specialize'] = mk('specialized', 'lulua.layout.KeyboardLayout')
    it.hooks['lulua.keyboard.PhysicalKeyboard.__getitem__'] = mk('keynamed', 'lulua.keyboard.Button')
    it.hooks['lulua.keyboard.PhysicalKeyboard.find'] = mk('keynamed', 'lulua.keyboard.Button')
    return it


def hookrandom(it):
    """randomness is any of the possible outcomes"""
    def seq(i, a):
        xs = i.concrete(a)
        return list(xs) if xs is not None else None

    def choice(i, args, kw):
        xs = seq(i, args[0])
        if not xs:
            return NotImplemented
        return xs[i.choose(len(xs), App('choice', App('line', i.line)))]

    def sample(i, args, kw):
        xs = seq(i, args[0])
        k = args[1] if len(args) > 1 else kw.get('k')
        if not xs or not isconst(k):
            return NotImplemented
        out = []
        for _ in range(k.v):
            if not xs:
                raise i.err('ValueError')
            out.append(xs.pop(i.choose(len(xs), App('choice', App('line', i.line)))))
        return i.new(Obj('list', segs=tuple(seg1(x) for x in out)))

    def choices(i, args, kw):
        xs = seq(i, args[0])
        k = kw.get('k', Const(1))
        if not xs or not isconst(k):
            return NotImplemented
        return i.new(Obj('list', segs=tuple(seg1(xs[i.choose(len(xs), App('choice', App('line', i.line)))]) for _ in range(k.v))))

    def below(i, args, kw):
        if not all(isconst(a) for a in args) or kw:
            return NotImplemented
        r = range(*[a.v for a in args])
        return Const(r[i.choose(len(r), App('choice', App('line', i.line)))])

    def between(i, args, kw):
        return below(i, [args[0], Const(args[1].v + 1)], {}) if len(args) == 2 and isconst(args[0]) and isconst(args[1]) else NotImplemented
    it.exthooks = dict(it.exthooks)
    it.exthooks.update({'random.choice': choice, 'random.sample': sample, 'random.choices': choices, 'random.randrange': below, 'random.randint': between})
    return it
