"""What the checks of the corpus workers share."""
from sa.kit import *
from sa.report import Lost, Gone
from sa.evalt import Ev, Undefined

LAYOUT = 'layout.KeyboardLayout'


def walk(trace, stack=()):
    """all events with the loop paths around them"""
    for e in trace:
        if e.kind == 'loop':
            yield e, stack
            for lp in e.loop.paths:
                yield from walk(lp.trace, stack + ((e.loop, lp),))
        else:
            yield e, stack


def collectors(it):
    al = it.modattr('lulua.stats', 'allStats')
    if al is None:
        raise Gone('lulua.stats.allStats')
    xs = it.concrete(al)
    if not xs or not all(isinstance(x, ClassV) for x in xs):
        raise Lost('allStats')
    return [x.info for x in xs]


def name(c):
    n = c.lookup('name')[0]
    return n if isinstance(n, T) else Const(n)


def harness(extra=()):
    it0 = interp()
    cs = collectors(it0)
    op = {'lulua.text.apply', 'lulua.writer.Writer.type', 'lulua.writer.Writer.__init__', 'lulua.stats.makeCombined', *extra}
    for c in cs:
        for m in ('process', 'update', '__init__'):
            f, o = c.lookup(m)
            if f is not None:
                op.add(f'{o.qual}.{m}')
    it = hookdomain(interp(opaque=op))
    cs = collectors(it)
    inq, outq, statusq = qs = [Sym(x) for x in ('inq', 'outq', 'statusq')]
    it.external = set(qs)
    it.raisefilter = lambda t: False
    it.raisespecific = True
    return it, cs, qs


def runworker(it, qs, benchmark=None):
    f = it.modattr('lulua.text', 'writeWorker')
    if f is None:
        raise Gone('lulua.text.writeWorker')
    ps = it.analyse(lambda: it.call(f, [sym(it, 'layout', LAYOUT), Sym('funcs'), *qs, Sym('benchmark') if benchmark is None else Const(benchmark)], {}))
    if any(p.outcome == 'budget' for p in ps):
        raise Lost('too many paths')
    return f, ps
