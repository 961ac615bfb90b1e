"""C30: stream readers."""
from sa.engine import ClassInfo, Infeasible
from sa.kit import *
from sa.report import Gone, Lost

EXPLANATION = ('The readers are interpreted on model streams whose position is part of the analysed state: every way a read can be cut short, every way the '
               'decompressor can hold back output, every point at which the stream can end. Handed on must be exactly the content, in order, and the readers must '
               'stop at the end. Archives are analysed for all member sizes modulo the block size (representatives in the quick tier).')
ASSUMPTIONS = ['read(n) with n > 0 returns the empty string only at the end of the stream', 'items of a stream are treated uniformly (streams are short)',
               'a decompressor delivers everything once it is finished, and is finished exactly when the compressed stream is complete']
TECHNIQUE = 'abstract interpretation of the readers on nondeterministic model streams (exhaustive over read boundaries in a small scope)'

STREAM = ClassInfo('Stream', 'model.Stream', 'io', None)
DECOMP = ClassInfo('Decompressor', 'model.Decompressor', 'brotli', None)
STREAM.bases, DECOMP.bases = [Ext('io.IOBase')], [Ext('brotli.Decompressor')]
ROUNDS = 40


class Streams:
    """streams: content and position are attributes of a heap object"""

    def __init__(self, it, cut=True):
        self.it, self.cut, self.stuck = it, cut, set()
        it.unrollwhile = ROUNDS
        it.overruns = []
        it.methodhooks = dict(it.methodhooks)
        it.exthooks = dict(it.exthooks)
        for m in ('read', 'read1', 'readinto', 'seek', 'tell', 'process', 'decompress', 'is_finished', 'close', 'seekable', 'getvalue', '__enter__', '__exit__', 'readable'):
            it.methodhooks[m] = self.wrap(m)
        it.exthooks['io.BytesIO'] = it.exthooks['io.StringIO'] = lambda i, a, k: self.new(a[0].v if a and isconst(a[0]) else bad(a), cut=False)
        it.exthooks['brotli.Decompressor'] = lambda i, a, k: i.new(Obj('inst', cls=DECOMP, attrs=dict(out=Const(0), eaten=Const(b''))))

    def wrap(self, m):
        def go(it, recv, args, kw):
            if not isinstance(recv, Ref) or it.get(recv).kind != 'inst' or it.get(recv).cls not in (STREAM, DECOMP):
                return NotImplemented
            f = getattr(self, ('s_' if it.get(recv).cls is STREAM else 'd_') + m, None)
            if f is None:
                raise Lost(f'{m} of a stream')
            return f(it, recv, it.get(recv).attrs, list(args) + list(kw.values()))
        return go

    def new(self, content, cut=None):
        return self.it.new(Obj('inst', cls=STREAM, attrs=dict(content=Const(content), pos=Const(0), cut=Const(self.cut if cut is None else cut), ends=Const(0))))

    def upd(self, it, r, **kw):
        o = it.get(r)
        it.set(r, o.with_(attrs=dict(o.attrs, **{k: Const(v) for k, v in kw.items()})))

    def s_read(self, it, r, a, args):
        n = args[0] if args else NONE
        if not isconst(n):
            raise Lost(f'reads {n!r}'[:80])
        c, pos = a['content'].v, a['pos'].v
        left = len(c) - pos
        k = left if n.v is None or n.v < 0 else min(n.v, left)
        if k and a['cut'].v and n.v is not None and n.v >= 0:
            k = 1 + it.choose(k, App('cut', App('line', it.line))) if k > 1 else k
            if k > 1 or min(n.v, left) > 1:
                # longest first
                k = min(n.v, left) + 1 - k
        if k == 0 and (n.v is None or n.v != 0):
            if a['ends'].v > 4:
                self.stuck.add(it.line)
                raise Infeasible()
            self.upd(it, r, ends=a['ends'].v + 1)
        self.upd(it, r, pos=pos + k)
        it.ev('streamread', at=pos, n=k, end=k == 0)
        return Const(c[pos:pos + k])

    def s_getvalue(self, it, r, a, args):
        return a['content']

    def s_tell(self, it, r, a, args):
        return a['pos']

    def s_close(self, it, r, a, args):
        return NONE

    def s___exit__(self, it, r, a, args):
        return NONE

    def s___enter__(self, it, r, a, args):
        return r

    plain = compressed = b''

    def d_process(self, it, r, a, args):
        if not args or not isconst(args[0]):
            raise Lost('decompresses something unknown')
        eaten = a['eaten'].v + args[0].v
        if a['eaten'].v == self.compressed and args[0].v:
            raise it.err('brotli.error')
        if not self.compressed.startswith(eaten):
            it.ev('garbled', fed=eaten)
            raise it.err('brotli.error')
        if not args[0].v:
            return Const(b'')
        left = len(self.plain) - a['out'].v
        k = left if eaten == self.compressed else left - it.choose(left + 1, App('held', App('line', it.line)))
        self.upd(it, r, eaten=eaten, out=a['out'].v + k)
        return Const(self.plain[a['out'].v:a['out'].v + k])

    d_decompress = d_process

    def d_is_finished(self, it, r, a, args):
        return Const(a['eaten'].v == self.compressed)


def bad(a):
    raise Lost(f'content {a!r}'[:80])


def run(ck):
    ck.part('characters', chars, ck)
    ck.part('brotli', brotli, ck)
    ck.part('tar', tar, ck)
    ck.part('records', records, ck)


def func(it, name, mod='text'):
    f = it.modattr('lulua.' + mod, name)
    if not isinstance(f, FuncV):
        raise Gone(f'lulua.{mod}.{name}')
    return f, f'lulua/{mod}.py:{f.node.lineno}'


def items(it, v):
    xs = it.concrete(v)
    if xs is None:
        raise Lost('items handed on')
    return App('tuple', *xs)


def stops(ck, it, s, where, what):
    line = s.stuck or set(it.overruns)
    ck.expect(not line, 'reading ends at the end of the stream', where, what, f'line {sorted(line)}: goes on reading after the end of the stream')


def results(ck, it, ps, where, rule, raises=()):
    for p in ps:
        if p.outcome == 'budget':
            raise Lost('too many paths')
        if p.notes:
            raise Lost(str(p.notes[:2]))
        if p.outcome == 'raise':
            exc = str(p.value.exc)
            if any(r in exc for r in raises):
                yield None, p
                continue
            ck.violated(rule, where, f'fails with {exc} {cuts(p)}'[:300])
            continue
        yield p.value, p


def cuts(p):
    """how the stream was cut"""
    return 'with reads of ' + ', '.join(str(e.n) for e in p.trace if e.kind == 'streamread')


def chars(ck):
    rule = 'every character of a stream is handed on once, in order'
    for text in ('', 'a', 'abc', 'abcd'):
        it = interp()
        f, where = func(it, 'iterchar')
        s = Streams(it)
        n = 0
        for v, p in results(ck, it, it.analyse(lambda: items(it, it.call(f, [s.new(text)], {}))), where, rule):
            got = [x.v if isconst(x) else None for x in v.args]
            n += 1
            ck.expect(None if None in got else got == list(text), rule, where, text, f'{text!r} becomes {got} {cuts(p)}')
        ck.count('stream histories', n)
        stops(ck, it, s, where, text)
        ck.expect(n > 0 or bool(s.stuck or it.overruns) or None, rule, where, text, 'never ends')
        ck.used(it)


def brotli(ck):
    rule = 'a decompressing reader delivers the content in order'
    sizes = [(None,), (1, None), (2, 1, None), (5, None), (1, 1, 1, 1), (3, 3, 3), (2, None, None), (0, None), (1, 0, None)]
    if ck.thorough:
        sizes += [(a, b, c, None) for a in range(4) for b in range(4) for c in range(4)]
    plain = b'wxyz'
    for full in (True, False):
        for size in sizes:
            it = interp()
            c = cls(it, 'text.BrotliFile')
            if c is None or c.lookup('read')[0] is None:
                raise Gone('lulua.text.BrotliFile.read')
            where = f'lulua/text.py:{c.lookup("read")[0].node.lineno}'
            s = Streams(it)
            s.plain, s.compressed = plain, b'ABC'
            fd = b'ABC' if full else b'AB'

            def go():
                o = it.call(ClassV(c), [s.new(fd)], {})
                return App('tuple', *[it.call(it.getattr(o, 'read'), [] if k is None else [Const(k)], {}) for k in size])
            n = 0
            for v, p in results(ck, it, it.analyse(go), where, rule):
                n += 1
                got = [x.v if isconst(x) else None for x in v.args]
                if None in got:
                    ck.undecided(rule, where, f'{v!r}'[:200])
                    continue
                # what the decompressor has delivered in the end
                avail = plain if full else None
                if any(e.kind == 'garbled' for e in p.trace):
                    ck.violated(rule, where, f'compressed data reaches the decompressor out of order {cuts(p)}')
                    continue
                if full:
                    want, pos = [], 0
                    for k in size:
                        want.append(plain[pos:] if k is None else plain[pos:pos + k])
                        pos += len(want[-1])
                    ck.expect(got == want, rule, where, str(size), f'reading {size} gives {got}, should be {want} {cuts(p)}')
                else:
                    o = [x for x in p.state.heap.values() if x.kind == 'inst' and x.cls is DECOMP]
                    if len(o) != 1:
                        raise Lost('decompressor')
                    avail = plain[:o[0].attrs['out'].v]
                    want, pos = [], 0
                    for k in size:
                        want.append(avail[pos:] if k is None else avail[pos:pos + k])
                        pos += len(want[-1])
                    ck.expect(got == want, 'what a truncated stream contains is delivered', where, str(size), f'reading {size} gives {got}, should be {want} {cuts(p)}')
            ck.count('stream histories', n)
            stops(ck, it, s, where, str(size))
            ck.used(it)


def member(size, name=b'x', fill=None):
    """one archive member: header, content, padding"""
    h = bytearray(512)
    h[:len(name)] = name
    h[100:108] = b'0000644\0'
    h[124:136] = b'%011o\0' % size
    h[156:157] = b'0'
    h[257:265] = b'ustar  \0'
    body = bytes((i * 7 + size) % 251 + 1 for i in range(size)) if fill is None else fill
    return bytes(h) + body + bytes(-size % 512), body


SIZES = (0, 1, 2, 255, 256, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1536, 5000)


def tar(ck):
    rule = 'every member of an archive is delivered with exactly its content'
    it = interp()
    f, where = func(it, 'filterTar')
    it.maxsteps = 10 ** 9
    s = Streams(it, cut=False)
    archives = []
    ss = range(0, 1600) if ck.thorough else SIZES
    for z in ss:
        archives.append([z])
    for a in (1, 511, 512, 513, 0):
        for b in (0, 1, 512, 700):
            archives.append([a, b, 3])
    # what is not text is delivered too: zeros at both ends, white space, whole blocks of zeros, content that looks like a header
    fills = [b'ab\0', b'\0ab', b'\0', b'\0' * 512, b'\0' * 513, b'x' + b'\0' * 511, b'\0' * 511 + b'x', b'\0' * 700 + b'y', b' a \n', b'\n', b'\n' * 512, b'\xff\xfe\x80', b'\r\n\r\n', member(3)[0], member(512)[0][:512]]
    archives += [[f] for f in fills] + [[f, b'abc', f, 2] for f in fills] + [[f, b'\0' * 1024, b'z'] for f in fills[:3]]
    for sizes in archives:
        for end in ('marker', 'none', 'one block'):
            if end != 'marker' and len(sizes) == 1 and isinstance(sizes[0], int) and sizes[0] not in (0, 1, 512, 513):
                continue
            if isinstance(sizes[0], bytes) and end == 'one block':
                continue
            parts = [member(z, b'm%d' % i) if isinstance(z, int) else member(len(z), b'm%d' % i, z) for i, z in enumerate(sizes)]
            sizes = [z if isinstance(z, int) else len(z) for z in sizes]
            data = b''.join(p for p, _ in parts) + bytes({'marker': 1024, 'none': 0, 'one block': 512}[end])
            want = [b for _, b in parts if b]

            def go():
                xs = it.concrete(it.call(f, [s.new(data)], {}))
                if xs is None:
                    raise Lost('members')
                return App('tuple', *[it.get(x).attrs['content'] if isinstance(x, Ref) and it.get(x).cls is STREAM else bad(x) for x in xs])
            s.stuck, it.overruns = set(), []
            for v, p in results(ck, it, it.analyse(go), where, rule):
                got = [x.v for x in v.args]
                # empty members carry no text: delivering them is the same
                got = [g for g in got if g]
                ck.count('archives')
                ck.expect(got == want, rule, where, f'{sizes} {end}',
                          f'members of sizes {sizes} are delivered as sizes {[len(g) for g in got]}' + ('' if [len(g) for g in got] != [len(x) for x in want] else ' with different content'))
            stops(ck, it, s, where, f'{sizes} {end}')
    ck.used(it)


def records(ck):
    rule = 'every stored record is read once, in order, until the end of the file'
    for n in range(4):
        for fail in (None, 'UnpicklingError'):
            it = interp()
            f, where = func(it, 'unpickleAll', 'stats')
            s = Streams(it)
            it.exthooks["pickle.load"] = lambda i, a, k: nextrecord(i, s, a[0], n, fail)

            def go():
                return items(it, it.call(f, [s.new(b'')], {}))
            for v, p in results(ck, it, it.analyse(go), where, rule, raises=('UnpicklingError',) if fail else ()):
                ck.count('record files')
                if fail:
                    ck.expect(v is None, 'a damaged record is not taken for the end of the file', where, str(n), f'{n} records before a damaged one are taken for everything')
                    continue
                got = [repr(x) for x in v.args]
                ck.expect(got == [f'record{i}' for i in range(n)], rule, where, str(n), f'{n} records are read as {got}')
            stops(ck, it, s, where, str(n))
            ck.used(it)


def nextrecord(it, s, fd, n, fail):
    if not isinstance(fd, Ref):
        raise Lost('reads another file')
    o = it.get(fd)
    i = o.attrs['pos'].v
    if i >= n:
        if fail:
            raise it.err('pickle.' + fail)
        if o.attrs['ends'].v > 4:
            s.stuck.add(it.line)
            raise Infeasible()
        s.upd(it, fd, ends=o.attrs['ends'].v + 1)
        raise it.err('EOFError')
    s.upd(it, fd, pos=i + 1)
    return Sym(f'record{i}')
