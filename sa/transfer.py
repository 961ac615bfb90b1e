"""Model of storing objects in one process and loading them in another."""
from .terms import *
from .engine import Obj, seg1
from .report import Lost


def own(it, ref, name):
    f, c = it.get(ref).cls.lookup(name)
    return f


def send(it, v, seen=None):
    """what is stored for a value: nested tuples ('kind', ...)"""
    seen = {} if seen is None else seen
    v = it.force(v)
    if isinstance(v, Ref):
        o = it.get(v)
        if o.kind in ('list', 'set', 'dict'):
            if any(s.op != 'one' for s in o.segs):
                raise Lost(f'stored value {v!r}'[:100])
            return (o.kind, [send(it, s.args[0], seen) for s in o.segs])
        if o.kind == 'inst':
            for n in ('__reduce_ex__', '__reduce__'):
                if own(it, v, n) is not None:
                    r = it.call(it.getattr(v, n), [Const(4)] if n == '__reduce_ex__' else [], {})
                    xs = r.args if isapp(r, 'tuple') else None
                    if xs is None or not 2 <= len(xs) <= 3:
                        raise Lost(f'reduced to {r!r}'[:100])
                    return ('reduce', xs[0], send(it, xs[1], seen), send(it, xs[2], seen) if len(xs) > 2 else None)
            if own(it, v, '__getnewargs__') is not None or own(it, v, '__getnewargs_ex__') is not None:
                raise Lost('__getnewargs__')
            if own(it, v, '__getstate__') is not None:
                st = send(it, it.call(it.getattr(v, '__getstate__'), [], {}), seen)
            else:
                st = ('attrs', {k: send(it, x, seen) for k, x in o.attrs.items()})
            return ('obj', o.cls, st)
        raise Lost(f'stored value {v!r}'[:100])
    if isapp(v, 'tuple') or isapp(v, 'frozenset'):
        return (v.op, [send(it, x, seen) for x in v.args])
    if isapp(v, 'nt'):
        return ('nt', v.args[0], [send(it, x, seen) for x in v.args[1:]])
    if isconst(v) or isinstance(v, (Enum, Sym, ClassV)):
        return ('value', v)
    if any(isapp(x, 'hash') for x in subterms(v)):
        # hashes are valid inside one process only
        return ('value', App('elsewhere', v))
    if isinstance(v, App):
        return ('value', v)
    raise Lost(f'stored value {v!r}'[:100])


def receive(it, s):
    k = s[0]
    if k == 'value':
        return s[1]
    if k in ('list', 'set', 'dict'):
        return it.new(Obj(k, segs=tuple(seg1(receive(it, x)) for x in s[1])))
    if k in ('tuple', 'frozenset'):
        return App(k, *[receive(it, x) for x in s[1]])
    if k == 'nt':
        return App('nt', s[1], *[receive(it, x) for x in s[2]])
    if k == 'reduce':
        args = receive(it, s[2])
        r = it.call(s[1], list(args.args) if isapp(args, 'tuple') else it.concrete(args), {})
        if s[3] is not None:
            restore(it, r, s[3])
        return r
    if k == 'obj':
        r = it.new(Obj('inst', cls=s[1], attrs={}))
        restore(it, r, s[2])
        return r
    raise Lost(f'stored {k}')


def restore(it, r, st):
    if own(it, r, '__setstate__') is not None:
        if st[0] == 'attrs':
            items = [App('tuple', Const(k), receive(it, x)) for k, x in st[1].items()]
            d = it.new(Obj('dict', segs=tuple(seg1(x) for x in items)))
            it.call(it.getattr(r, '__setstate__'), [App('tuple', NONE, d)], {})
        else:
            it.call(it.getattr(r, '__setstate__'), [receive(it, st)], {})
        return
    if st[0] == 'attrs':
        for k, x in st[1].items():
            it.setattr(r, k, receive(it, x))
    elif st[0] == 'dict':
        for x in st[1]:
            kv = receive(it, x)
            it.setattr(r, kv.args[0].v, kv.args[1])
    elif st[0] == 'tuple' and len(st[1]) == 2:
        for part in st[1]:
            if part[0] == 'dict':
                for x in part[1]:
                    kv = receive(it, x)
                    it.setattr(r, kv.args[0].v, kv.args[1])
            elif part != ('value', NONE):
                raise Lost('state')
    elif st != ('value', NONE):
        raise Lost(f'state {st!r}'[:100])
