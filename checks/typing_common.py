"""The transition system of Writer.type, shared by C01..C03."""
from sa.kit import *
from sa.report import Lost, Gone
from sa.text import *

CHOOSE = 'lulua.writer.Writer.chooseCombination'


def at(e):
    return f'{(e.mod or "").replace(".", "/")}.py:{e.line}'


class Typing:
    """Per iteration of the main loop of Writer.type: what is read, matched, yielded, kept."""

    def __init__(self, ck):
        self.ck = ck
        self.it = it = interp(opaque={CHOOSE}, pure={CHOOSE})
        f = method(it, 'writer.Writer', 'type')
        if f is None:
            raise Gone('lulua.writer.Writer.type')
        if method(it, 'writer.Writer', 'chooseCombination') is None:
            raise Gone('lulua.writer.Writer.chooseCombination')
        self.self = sym(it, 'self', 'writer.Writer')
        self.fd = Sym('fd')
        self.innerreads = set()
        self.paths = it.analyse(lambda: it.call(f, [self.self, self.fd], {}))
        ck.used(it)
        ck.count('paths', len(self.paths))
        if not self.paths:
            raise Lost('Writer.type: no paths')
        self.loops = []
        for p in self.paths:
            if p.notes:
                raise Lost(f'Writer.type: {p.notes[:2]}')
            ls = [e.loop for e in p.trace if e.kind == 'loop']
            ls = [l for l in ls if any(y.kind == 'yield' for lp in l.paths for y in flat(lp.trace))]
            if len(ls) > 1:
                raise Lost(f'Writer.type: {len(ls)} typing loops')
            self.loops.append(ls[0] if ls else None)
        keep = [(p, l) for p, l in zip(self.paths, self.loops) if l is not None]
        if not keep:
            raise Lost('Writer.type: no typing loop')
        self.paths, self.loops = [p for p, _ in keep], [l for _, l in keep]
        ck.count('iteration paths', sum(len(l.paths) for l in self.loops[:1]))

    def isread(self, e):
        return e.kind == 'mcall' and e.recv == self.fd and e.name in ('read', 'readline')

    def prefixof(self, t):
        """text the term is a matched prefix of"""
        if isapp(t, 'attr') and t.args[1] == 'key':
            m = t.args[0]
        elif isapp(t, 'getitem') and t.args[1] == Const(0):
            m = t.args[0]
        else:
            return None
        if isapp(m, 'mcall') and m.args[1] in ('longest_prefix', 'shortest_prefix') and len(m.args[2]) == 1:
            return m.args[2][0]
        return None

    def skipchar(self, ref, trace):
        """the character of a SkipEvent allocated on this path"""
        new = [e for e in trace if e.kind == 'new' and e.result == ref]
        if not new or getattr(new[0].cls, 'name', '') != 'SkipEvent':
            return None
        sets = [e for e in trace if e.kind == 'setattr' and e.obj == ref and e.name == 'char']
        if len(sets) != 1:
            return None
        return sets[0].value

    def events(self, trace):
        """ordered ('read', e) / ('typed', e, text, comb) / ('skipped', e, char) / ('inner', loop) / ('odd', e)"""
        out = []
        for e in trace:
            if self.isread(e):
                out.append(('read', e))
            elif e.kind == 'mcall' and e.recv == self.fd:
                out.append(('odd', e))
            elif e.kind == 'yield':
                v = e.value
                if isapp(v, 'tuple') and len(v.args) == 2:
                    a, b = v.args
                    c = self.skipchar(b, trace)
                    if a == NONE and c is not None:
                        out.append(('skipped', e, c))
                        continue
                    if c is None and a != NONE:
                        out.append(('typed', e, a, b))
                        continue
                out.append(('odd', e))
            elif e.kind == 'loop' and any(self.isread(x) or x.kind == 'yield' for lp in e.loop.paths for x in flat(lp.trace)):
                if any(x.kind == 'yield' for lp in e.loop.paths for x in flat(lp.trace)):
                    out.append(('odd', e))
                else:
                    out.append(('inner', e))
        return out


def flat(trace):
    for e in trace:
        yield e
        if e.kind == 'loop':
            for lp in e.loop.paths:
                yield from flat(lp.trace)


def lastiter(p, loop):
    """the events of the exiting iteration and after it"""
    for i, e in enumerate(p.trace):
        if e.kind == 'loopexit' and e.loop is loop:
            return p.trace[i + 1:], e.loop
    return None, None
