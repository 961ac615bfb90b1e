"""C11: each worker answers exactly once, errors are never lost."""
from checks.worker_common import *

EXPLANATION = ('Typestate of the result queue over writeWorker, with one operation at a time allowed to fail (every call in the body, '
               'including the queues and the filters run lazily by the loop over apply()): on every path of normal or failing execution exactly '
               'one answer is put, and an exception is the answer of the failing paths. write() is summarised as well: one end marker '
               'and one answer per worker started, exceptions among the answers raised, every other answer dumped once.')
ASSUMPTIONS = ['multiprocessing queues deliver what is put', 'exceptions not derived from Exception end the process group',
               'a put on the result queue does not fail']


def run(ck):
    ck.part('worker', worker, ck)
    ck.part('main', main, ck)


def puts(tr, outq):
    """(minimum, maximum, events) of puts on a path; None if a loop can put"""
    n = []
    for e in tr:
        if e.kind == 'mcall' and e.recv == outq and e.name in ('put', 'put_nowait'):
            n.append(e)
        elif e.kind == 'loop':
            inner = [x for lp in e.loop.paths if lp.outcome == 'next' for x, s in walk(lp.trace)
                     if x.kind == 'mcall' and x.recv == outq and x.name in ('put', 'put_nowait')]
            if inner:
                return None, inner[0]
    return n, None


def worker(ck):
    it, cs, qs = harness()
    it.raisespecific = False
    inq, outq, statusq = qs
    # what can fail: find the operations of one fault-free run
    f, ps = runworker(it, qs)
    where = f'lulua/text.py:{f.node.lineno}'
    ops = set()
    for p in ps:
        for e, s in walk(p.trace):
            if e.kind in ('ocall',):
                ops.add(('q', e.qual))
            elif e.kind == 'mcall' and e.recv != outq:
                ops.add(('m', e.name))
            elif e.kind == 'mcall' and e.name in ('put', 'put_nowait') and timed(e.result):
                ops.add(('o', 'a put that does not wait'))
            elif e.kind == 'call' and not e.name.startswith('logging.'):
                ops.add(('c', e.name))
    ck.count('operations that may fail', len(ops))
    judge(ck, ps, outq, where, None)
    for op in sorted(ops):
        it, cs, qs = harness()
        inq, outq, statusq = qs

        def may(t, op=op):
            if op[0] == 'o':
                return isapp(t, 'mcall') and t.args[0] == outq and t.args[1] in ('put', 'put_nowait') and timed(t)
            if op[0] == 'm':
                return isapp(t, 'mcall') and t.args[1] == op[1] and t.args[0] != outq
            return isinstance(t, App) and isinstance(t.args[0] if t.args else None, str) and op[1] in (t.op, t.args[0]) or \
                isinstance(t, App) and t.op == op[1]
        it.raisefilter = may
        it.raisespecific = False
        it.raiseall = True
        f, ps = runworker(it, qs, False)
        ck.used(it)
        judge(ck, ps, outq, where, op)


def timed(t):
    """a put that may give up"""
    if not isapp(t, 'mcall'):
        return False
    return t.args[1] == 'put_nowait' or any(isapp(x, 'kw') and x.args[0] in ('timeout', 'block') for a in t.args[2:] for x in (a if isinstance(a, tuple) else (a,))) or \
        any(isinstance(a, tuple) and sum(not isapp(x, 'kw') for x in a) > 1 for a in t.args[2:])


def judge(ck, ps, outq, where, op):
    what = f'{op[1]} may fail' if op else 'nothing fails'
    for p in ps:
        if p.outcome == 'raise':
            ck.expect(False if op is None or 'Exception' in repr(p.value.exc) else None, 'the worker answers exactly once', where, '',
                      f'{what}: ends with {p.value.exc} and no answer' if not puts(p.trace, outq)[0] else f'{what}: ends with {p.value.exc}')
            continue
        n, loop = puts(p.trace, outq)
        if n is None:
            ck.violated('the worker answers exactly once', f'lulua/text.py:{loop.line}', 'an answer is put for every item, not once')
            continue
        # a put that gave up did not answer
        gave = [a.args[0] for a, v in p.facts if isapp(a, 'raises') and v]
        n = [e for e in n if e.result not in gave]
        # handled exceptions on the path
        ck.expect(len(n) == 1, 'the worker answers exactly once', where, what, f'{what}: {len(n)} answers when {short(p.facts)}')
        for e in n:
            a = e.args[0] if e.args else None
            if op and op[0] == 'o' and isapp(a) and 'makeCombined' in repr(a)[:60]:
                continue
            failed = [x for x in p.trace if x.kind == 'raised'] or [1 for a_, v in p.facts if isapp(a_, 'raises') and v]
            isexc = isapp(a, 'excof') or isapp(a, 'new') and 'Error' in repr(a) or isapp(a, 'call') and ('Error' in repr(a.args[0]) or 'Exception' in repr(a.args[0]))
            if failed:
                ck.expect(True if isexc else (False if a == NONE or 'makeCombined' in repr(a)[:80] else None), 'a failure is answered with the exception',
                          f'lulua/text.py:{e.line}', what, f'{what}: answers {a!r}')
            elif isexc:
                ck.violated('a success is answered with the result', f'lulua/text.py:{e.line}', f'{what}: answers {a!r}')
            elif a == NONE:
                zero = [x for x, v in p.facts if 'prev[' in repr(x) or 'after' in repr(x)]
                ck.expect(True if zero else (None if p.facts else False), 'only a worker without items answers with nothing', f'lulua/text.py:{e.line}', '', f'{p.facts}'[:200])
            else:
                ck.expect(True if isapp(a) and 'makeCombined' in repr(a)[:60] and isapp(a, 'lulua.stats.makeCombined') or
                          isapp(a, 'ocall') or 'makeCombined' in repr(a)[:40] else None, 'a success is answered with the result', f'lulua/text.py:{e.line}', '', repr(a)[:200])
        # a failure must not be swallowed and the rest carried on
        for e, s in walk(p.trace):
            if e.kind == 'handled' and s:
                ck.expect(None if not any(lp.outcome == 'next' for _, lp in s[-1:]) else False, 'a failure is never swallowed', f'lulua/text.py:{e.line}', '',
                          f'{what}: the loop goes on after {e.exc}')


def short(fs):
    return [(a.op if isapp(a) else a, v) for a, v in fs][-4:]


def kws(e):
    d = dict(e.kwargs)
    return d


def bindargs(fn, args):
    names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
    return dict(zip(names, args))


def handedon(lp, item):
    """the answer is collected for later, not examined here"""
    return any(x.kind in ('yield', 'append') and x.value == item for x in lp.trace) and not any(occurs(a, item) for a, _ in lp.facts)


def examine(ck, w, lp, item):
    isx = [v for a, v in lp.facts if isapp(a, 'isinstance') and a.args[0] == item and repr(a.args[1]) in ('Exception', 'BaseException')]
    none = [v for a, v in lp.facts if isapp(a, 'eq') and set(a.args) == {NONE, item}] + \
           [not v for a, v in lp.facts if isapp(a, 'truth') and a.args[0] == item]
    dumps = [x for x in lp.trace if x.kind == 'call' and x.name.endswith('pickle.dump')]
    if lp.outcome == 'raise':
        ck.expect(True if isx == [True] and isapp(lp.value.exc, 'dynexc') else None, 'an exception answered is raised', w, '', f'raises {lp.value.exc}'[:200])
    elif True in isx:
        ck.violated('an exception answered is raised', w, f'goes on with an exception when {short(lp.facts)}')
    elif True in none:
        ck.expect(not dumps, 'every result is written once', w, '', 'an empty result is written')
    else:
        if not isx and not none:
            ck.violated('an exception answered is raised', w, 'the answer is not examined')
        elif not isx:
            ck.violated('an exception answered is raised', w, f'not examined when {short(lp.facts)}')
        good = [x for x in dumps if x.args[0] == item and 'stdout' in repr(x.args[1])]
        ck.expect(len(dumps) == len(good) == 1, 'every result is written once', w, '', f'{[x.args[:1] for x in dumps]} when {short(lp.facts)}')


def startedlater(trace, proc, S):
    """workers collected first, then started one by one before anything is fed to them"""
    isstart = lambda e: e.kind == 'mcall' and e.name == 'start'
    pos = [i for i, e in enumerate(trace) if e.kind == 'loop' and any(isstart(x) and (x.recv == proc or 'Process' in repr(x.recv)[:40]) for lp in e.loop.paths for x in lp.trace)]
    if len(pos) != 1:
        return False if not pos else None
    l = trace[pos[0]].loop
    if l.src != S:
        return None
    for lp in l.paths:
        n = [x for x in lp.trace if isstart(x)]
        if lp.outcome == 'else':
            continue
        if lp.outcome in ('break', 'return') or len(n) != 1:
            return False
        if n[0].recv != proc:
            return None
    feed = [i for i, e in enumerate(trace) if e.kind == 'loop' and 'sys.stdin' in repr(e.loop.src)[:40]]
    return not feed or pos[0] < feed[0]


def main(ck):
    it = hookdomain(interp(opaque={'lulua.text.writeWorker', 'lulua.text.statusWorker'}))
    it.raisefilter = lambda t: False
    f = it.modattr('lulua.text', 'write')
    ww = it.modattr('lulua.text', 'writeWorker')
    if f is None or ww is None:
        raise Gone('lulua.text.write')
    params = [x.arg for x in ww.node.args.posonlyargs + ww.node.args.args]
    if len(params) != 6:
        raise Lost('parameters of writeWorker')
    ps = it.analyse(lambda: it.call(f, [], {}))
    ck.used(it)
    where = f'lulua/text.py:{f.node.lineno}'
    if any(p.outcome == 'budget' for p in ps):
        raise Lost('too many paths')
    for p in ps:
        evs = list(walk(p.trace))
        procs = [(e, s) for e, s in evs if e.kind == 'call' and e.name.endswith('Process') and kws(e).get('target') == ww]
        if not procs:
            raise Lost('workers are not started by Process')
        roles = set()
        for e, s in procs:
            a = kws(e).get('args')
            if isinstance(a, Ref):
                a = App('tuple', *[x.args[0] for x in p.state.get(a.id).segs])
            if not isapp(a, 'tuple') or len(a.args) != 6:
                raise Lost(f'arguments {a!r}'[:200])
            roles.add(a.args)
            if len(s) != 1:
                raise Lost('workers started in nested loops')
        if len(roles) != 1:
            raise Lost('different kinds of workers')
        lay, flt, inq, outq, statusq, bench = roles.pop()
        S = procs[0][1][0][0].src
        ck.expect(True if isapp(lay, 'specialized') and repr(lay).count('loaded(') == 2 and 'PhysicalKeyboard' in repr(lay.args[-1]) else None,
                  'workers type with the layout asked for', where, '', repr(lay)[:200])
        for l, lp in {id(s[0][1]): s[0] for e, s in procs}.values():
            here = [e for e in lp.trace if e.kind == 'call' and e.name.endswith('Process') and kws(e).get('target') == ww]
            st = [e for e in lp.trace if e.kind == 'mcall' and e.name == 'start' and any(e.recv == h.result for h in here)]
            ok = len(here) == len(st) == 1
            if not ok and len(here) == 1 and not st:
                ok = startedlater(p.trace, here[0].result, S)
            ck.expect(ok, 'every worker is started once', f'lulua/text.py:{l.line}', '', f'{len(here)} workers, {len(st)} started')
        if len({inq, outq, statusq}) != 3 and inq == outq:
            ck.violated('workers read and answer on different queues', where, repr(inq))

        def on(q, names, tr):
            return [e for e in tr if e.kind == 'mcall' and e.recv == q and e.name in names]
        loops = [(e.loop, s) for e, s in evs if e.kind == 'loop']
        # feeding
        feeds = [l for l, s in loops if 'sys.stdin' in repr(l.src)[:40] and any(on(inq, ('put',), lp.trace) for lp in l.paths)]
        if len(feeds) != 1:
            raise Lost('feeding loop')
        for lp in feeds[0].paths:
            w = f'lulua/text.py:{feeds[0].line}'
            n = on(inq, ('put',), lp.trace)
            if lp.outcome in ('next', 'break'):
                good = [e for e in n if e.args == (feeds[0].binder,)]
                ck.expect(True if len(n) == len(good) == 1 else (None if len(n) == 1 else False), 'every line read is given to the workers once', w, '',
                          f'{[e.args for e in n]} when {short(lp.facts)}')
            if lp.outcome == 'break':
                em = [a for a, v in lp.facts if isapp(a, 'truth') and v is False and isapp(a.args[0], 'mcall') and a.args[0].args[:2] == (outq, 'empty')]
                ck.expect(True if em else None, 'feeding only stops when a worker answered', w, '', repr(lp.facts)[:200])
        after = p.trace
        # collecting
        ends = answers = 0
        for e in after:
            if e.kind != 'loop':
                if any(e.kind == x.kind and e.line == x.line for l, s in loops for lp in l.paths if lp.outcome in ('break', 'return', 'raise') for x in lp.trace):
                    continue    # the last iteration of a loop that is left early
                ends_ = on(inq, ('put',), [e])
                if ends_ or on(outq, ('get',), [e]):
                    raise Lost('queue used outside the loops')
                continue
            l = e.loop
            if l is feeds[0] or any(x is l for x in (feeds[0],)):
                continue
            w = f'lulua/text.py:{l.line}'
            pn = [lp for lp in l.paths if lp.outcome == 'next']
            if any(on(inq, ('put',), lp.trace) for lp in l.paths):
                ends += 1
                ck.expect(True if l.src == S else None, 'one end marker per worker', w, '', f'loops over {l.src!r}'[:200])
                for lp in pn:
                    n = on(inq, ('put',), lp.trace)
                    ck.expect(len(n) == 1 and n[0].args == (NONE,), 'one end marker per worker', w, '', f'{[x.args for x in n]} when {short(lp.facts)}')
            if any(on(outq, ('get',), lp.trace) for lp in l.paths):
                answers += 1
                ck.expect(True if l.src == S else None, 'one answer is taken per worker', w, '', f'loops over {l.src!r}'[:200])
                for lp in l.paths:
                    n = on(outq, ('get',), lp.trace)
                    if lp.outcome == 'break':
                        ck.violated('one answer is taken per worker', w, f'stops when {short(lp.facts)}')
                        continue
                    if lp.outcome == 'else':
                        continue
                    if len(n) != 1:
                        ck.violated('one answer is taken per worker', w, f'{len(n)} when {short(lp.facts)}')
                        continue
                    item = n[0].result
                    if lp.outcome == 'next' and handedon(lp, item):
                        # examined by the loop over what was collected
                        users = [x.loop for x in after if x.kind == 'loop' and x.loop is not l and any(occurs(y, item) for q in x.loop.paths for y, _ in q.facts)]
                        if len(users) != 1:
                            ck.undecided('an exception answered is raised', w, f'{len(users)} loops over the answers')
                            continue
                        u = users[0]
                        w2 = f'lulua/text.py:{u.line}'
                        ck.expect(True if u.src == S else None, 'every answer is examined', w2, '', f'loops over {u.src!r}'[:200])
                        for q in u.paths:
                            if q.outcome == 'break':
                                ck.violated('every answer is examined', w2, f'stops when {short(q.facts)}')
                            elif q.outcome != 'else':
                                examine(ck, w2, q, item)
                        if not any(True in [v for a, v in q.facts if isapp(a, 'isinstance')] for q in u.paths):
                            ck.expect(None, 'an exception answered is raised', w2, '', 'not examined in the loop')
                        continue
                    examine(ck, w, lp, item)
                if not any(True in [v for a, v in lp.facts if isapp(a, 'isinstance')] for lp in l.paths) and not any(
                        handedon(lp, x.result) for lp in l.paths for x in on(outq, ('get',), lp.trace)):
                    ck.expect(None, 'an exception answered is raised', w, '', 'not examined in the loop')
        if p.outcome == 'return':
            ck.expect(True if ends == 1 else (False if ends > 1 else None), 'one end marker per worker', where, '', f'{ends} loops send end markers')
            ck.expect(True if answers == 1 else (False if answers > 1 else None), 'one answer is taken per worker', where, '', f'{answers} loops take answers')
        elif p.outcome == 'raise' and not isapp(p.value.exc, 'dynexc'):
            raise Lost(f'raises {p.value.exc}'[:100])
