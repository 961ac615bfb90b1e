"""Model of argparse: which options a parser declares and what a command line
makes of them.  Parsers live on the analyser's heap, so a program may build
them in loops, helpers or tables.
"""
from .terms import *
from .engine import Obj, ClassInfo, seg1
from .report import Lost

PARSER = ClassInfo('ArgumentParser', 'argparse.ArgumentParser', 'argparse', None)
PARSER.bases = [Ext('argparse.ArgumentParser')]
SUB = ClassInfo('_SubParsersAction', 'argparse._SubParsersAction', 'argparse', None)
SUB.bases = [Ext('argparse._SubParsersAction')]
SPACE = ClassInfo('Namespace', 'argparse.Namespace', 'argparse', None)
METHODS = {'add_argument', 'add_subparsers', 'add_parser', 'set_defaults', 'parse_args', 'parse_known_args', 'add_argument_group',
           'add_mutually_exclusive_group', 'error', 'print_help', 'exit', 'print_usage', 'parse_intermixed_args'}


class Rejected(Exception):
    pass


class Args:
    def __init__(self, it, cmdline=None, values=None):
        """cmdline: list of strings; None: every option symbolic (or from values: dest -> term)"""
        self.it, self.cmdline, self.values = it, cmdline, values or {}
        it.exthooks = dict(it.exthooks)
        it.exthooks['argparse.ArgumentParser'] = self.parser
        it.methodhooks = dict(it.methodhooks)
        for m in METHODS:
            it.methodhooks[m] = getattr(self, 'm_' + m, self.other)

    def parser(self, it, args, kw):
        it.ev('parser')
        decl, defs, subs = (), (), NONE
        if 'parents' in kw:
            ps = it.concrete(kw['parents'])
            if ps is None or not all(self.mine(it, p) for p in ps):
                raise Lost('parents of a parser')
            for p in ps:
                a = it.get(p).attrs
                decl += a['_decl'].args
                defs += a['_defaults'].args
                subs = a['_subs'] if a['_subs'] != NONE else subs
        return it.new(Obj('inst', cls=PARSER, attrs={'_decl': App('decls', *decl), '_defaults': App('decls', *defs), '_subs': subs, '_kw': App('kws', *[App('kw', k, v) for k, v in sorted(kw.items())])}))

    def mine(self, it, recv, c=PARSER):
        return isinstance(recv, Ref) and it.get(recv).kind == 'inst' and it.get(recv).cls is c

    def push(self, it, recv, attr, *vs):
        old = it.get(recv).attrs[attr]
        a = dict(it.get(recv).attrs)
        a[attr] = App(old.op, *old.args, *vs)
        it.set(recv, it.get(recv).with_(attrs=a))

    def m_add_argument(self, it, recv, args, kw):
        if not self.mine(it, recv):
            return NotImplemented
        kw = dict(kw)
        if not all(isconst(a) and isinstance(a.v, str) for a in args):
            raise Lost(f'option {args!r}'[:100])
        flags = tuple(a.v for a in args)
        dest = kw.get('dest')
        if dest is not None and isconst(dest):
            d = dest.v
        elif flags and not flags[0].startswith('-'):
            d = flags[0]
        else:
            long = [f for f in flags if f.startswith('--')] or list(flags)
            d = long[0].lstrip('-').replace('-', '_')
        it.ev('option', flags=flags, dest=d, kwargs=kw)
        self.push(it, recv, '_decl', App('decl', flags, d, App('kws', *[App('kw', k, v) for k, v in sorted(kw.items())]), Const(it.line)))
        return Sym('action:' + d)

    def m_add_subparsers(self, it, recv, args, kw):
        if not self.mine(it, recv):
            return NotImplemented
        s = it.new(Obj('inst', cls=SUB, attrs={'_list': App('subs'), '_kw': App('kws', *[App('kw', k, v) for k, v in sorted(kw.items())])}))
        a = dict(it.get(recv).attrs)
        a['_subs'] = s
        it.set(recv, it.get(recv).with_(attrs=a))
        # subparsers take their turn among the positional arguments
        self.push(it, recv, '_decl', App('decl', (), '<sub>', App('kws'), Const(it.line)))
        return s

    def m_add_parser(self, it, recv, args, kw):
        if not self.mine(it, recv, SUB):
            return NotImplemented
        p = self.parser(it, [], {k: v for k, v in kw.items() if k == 'parents'})
        n = args[0] if args else kw.get('name')
        self.push(it, recv, '_list', App('sub', n, p))
        return p

    def m_set_defaults(self, it, recv, args, kw):
        if not self.mine(it, recv):
            return NotImplemented
        self.push(it, recv, '_defaults', *[App('kw', k, v) for k, v in kw.items()])
        return NONE

    def m_add_argument_group(self, it, recv, args, kw):
        return recv if self.mine(it, recv) else NotImplemented
    m_add_mutually_exclusive_group = m_add_argument_group

    def other(self, it, recv, args, kw):
        return NotImplemented

    def m_error(self, it, recv, args, kw):
        if not self.mine(it, recv):
            return NotImplemented
        raise it.err('SystemExit')
    m_exit = m_error

    def m_parse_args(self, it, recv, args, kw):
        if not self.mine(it, recv):
            return NotImplemented
        if args and args[0] != NONE:
            raise Lost('explicit argument list')
        it.ev('parsed', parser=recv)
        if self.cmdline is None:
            vals = self.symbolic(it, recv)
        else:
            try:
                vals = self.parse(it, recv, list(self.cmdline))
            except Rejected as e:
                it.ev('rejected', why=str(e))
                raise it.err('SystemExit')
        return it.new(Obj('inst', cls=SPACE, attrs=vals))
    m_parse_known_args = other

    # ---- symbolic

    def subs(self, it, recv):
        s = it.get(recv).attrs['_subs']
        return [(x.args[0], x.args[1]) for x in it.get(s).attrs['_list'].args] if isinstance(s, Ref) else []

    def symbolic(self, it, recv, chosen=None):
        vals = {}
        sub = self.subs(it, recv)
        if sub:
            names = [n.v for n, _ in sub]
            want = self.values.get('<sub>')
            k = names.index(want) if want in names else it.choose(len(sub), App('subcommand'))
            it.ev('subcommand', name=names[k])
            vals.update(self.symbolic(it, sub[k][1]))
        for d in it.get(recv).attrs['_decl'].args:
            if d.args[1] != '<sub>':
                vals[d.args[1]] = self.symvalue(it, d)
        for k in it.get(recv).attrs['_defaults'].args:
            vals.setdefault(k.args[0], k.args[1])
        return vals

    def symvalue(self, it, d):
        dest, kw = d.args[1], {k.args[0]: k.args[1] for k in d.args[2].args}
        if dest in self.values:
            return self.values[dest]
        act = kw['action'].v if 'action' in kw and isconst(kw['action']) else 'store'
        if act in ('store_true', 'store_false'):
            return Sym('arg:' + dest, 'bool')
        if 'nargs' in kw or act == 'append':
            return Sym('arg:' + dest)
        t = kw.get('type')
        if t is None:
            return Sym('arg:' + dest, 'str')
        if isinstance(t, Ext) and t.name in ('int', 'float', 'str'):
            return Sym('arg:' + dest, t.name)
        return Sym('arg:' + dest)

    # ---- concrete

    def parse(self, it, recv, toks, depth=0):
        decls = []
        for d in it.get(recv).attrs['_decl'].args:
            decls.append((d.args[0], d.args[1], {k.args[0]: k.args[1] for k in d.args[2].args}))
        vals, seen = {}, set()
        pos = [d for d in decls if not d[0] or not d[0][0].startswith('-')]
        opts = {f: d for d in decls for f in d[0] if f.startswith('-')}
        for flags, dest, kw in decls:
            if dest == '<sub>':
                continue
            if kw.get('action') == Const('store_true'):
                vals.setdefault(dest, FALSE)
            elif kw.get('action') == Const('store_false'):
                vals.setdefault(dest, TRUE)
            else:
                dv = kw.get('default', NONE)
                vals.setdefault(dest, dv)
        sub = self.subs(it, recv)
        for k in it.get(recv).attrs['_defaults'].args:
            vals[k.args[0]] = k.args[1]
        free = []                       # positional tokens

        def arity(kw):
            n = kw.get('nargs')
            return None if n is None or n == NONE else n.v

        def take(dest, kw, strs):
            out = []
            ch = kw.get('choices')
            for s in strs:
                v = self.convert(it, kw.get('type'), s)
                if ch is not None:
                    xs = it.concrete(ch)
                    if xs is None:
                        raise Lost(f'choices of {dest}')
                    if v not in xs:
                        raise Rejected(f'{s!r} is not one of the choices of {dest}')
                out.append(v)
            seen.add(dest)
            lst = arity(kw) is not None and arity(kw) != '?'
            val = it.new(Obj('list', segs=tuple(seg1(x) for x in out))) if lst else (out[0] if out else kw.get('const', NONE))
            if kw.get('action') == Const('append'):
                old = vals.get(dest, NONE) if dest in vals else NONE
                xs = [] if old == NONE else it.concrete(old)
                if xs is None:
                    raise Lost(f'default of {dest}')
                val = it.new(Obj('list', segs=tuple(seg1(x) for x in list(xs) + [val])))
            vals[dest] = val

        def option(tok):
            if tok in opts:
                return opts[tok], None
            if tok.startswith('--'):
                n, eq, v = tok.partition('=')
                m = [f for f in opts if f == n] or [f for f in opts if f.startswith('--') and f.startswith(n)]
                if len({id(opts[f]) for f in m}) == 1:
                    return opts[m[0]], v if eq else None
                return None, None
            if tok[:2] in opts:
                return opts[tok[:2]], tok[2:].removeprefix('=')
            return None, None

        isopt = lambda t: len(t) > 1 and t.startswith('-') and not (t[1:].replace('.', '').isdigit())
        # positionals are consumed greedily, in order of declaration
        i = 0
        queue = list(pos)
        while i < len(toks):
            t = toks[i]
            if t == '--':
                i += 1
                continue
            if isopt(t):
                d, v = option(t)
                if d is None:
                    if t in ('-h', '--help'):
                        raise Rejected('help')
                    raise Rejected(f'unknown option {t}')
                flags, dest, kw = d
                act = kw['action'].v if 'action' in kw and isconst(kw['action']) else 'store'
                i += 1
                if act in ('store_true', 'store_false', 'store_const', 'count'):
                    if v is not None:
                        raise Rejected(f'{t} takes no value')
                    seen.add(dest)
                    vals[dest] = TRUE if act == 'store_true' else FALSE if act == 'store_false' else kw.get('const', NONE)
                    continue
                n = arity(kw)
                strs = [v] if v is not None else []
                if v is None:
                    want = 1 if n is None else n if isinstance(n, int) else 10 ** 6 if n in '*+' else 1
                    while len(strs) < want and i < len(toks) and not isopt(toks[i]):
                        strs.append(toks[i])
                        i += 1
                    if n is None and not strs or isinstance(n, int) and len(strs) != n or n == '+' and not strs:
                        raise Rejected(f'{t} needs a value')
                take(dest, kw, strs)
                continue
            # a run of positional tokens
            j = i
            while j < len(toks) and not isopt(toks[j]):
                j += 1
            run = toks[i:j]
            if not queue:
                raise Rejected(f'unexpected argument {t!r}')
            used = 0
            while queue:
                flags, dest, kw = queue[0]
                if dest == '<sub>':
                    if used >= len(run):
                        break
                    name = run[used]
                    rest = toks[i + used + 1:]
                    hit = [p for n, p in sub if isconst(n) and n.v == name]
                    if not hit:
                        raise Rejected(f'unknown command {name!r}')
                    queue.pop(0)
                    # trailing positionals of this parser come after the command's own
                    after = len(queue)
                    child, left = self.parsesub(it, hit[0], rest, after)
                    vals.update(child)
                    it.ev('subcommand', name=name)
                    seen.add('<sub>')
                    toks = toks[:i + used + 1] + left
                    i += used + 1
                    run = None
                    break
                n = arity(kw)
                later = sum(1 for q in queue[1:] if q[1] == '<sub>' or arity(q[2]) in (None, '+'))
                have = len(run) - used
                k = 1 if n is None else n if isinstance(n, int) else max(0, have - later) if n in '*+' else min(1, max(0, have - later))
                if n == '+' and k < 1 or have < k:
                    break
                take(dest, kw, run[used:used + k])
                used += k
                queue.pop(0)
            if run is None:
                continue
            if used == 0 or used < len(run) and not queue:
                raise Rejected(f'unexpected argument {run[used] if used < len(run) else t!r}')
            i += used
        for flags, dest, kw in queue:
            if dest == '<sub>':
                continue
            if arity(kw) in ('*', '?'):
                continue
            raise Rejected(f'{dest} is missing')
        for flags, dest, kw in decls:
            if kw.get('required') == TRUE and dest not in seen:
                raise Rejected(f'{flags[0]} is missing')
            # string defaults are converted like arguments
            if dest not in seen and dest in vals and isconst(vals[dest]) and isinstance(vals[dest].v, str) and 'type' in kw:
                vals[dest] = self.convert(it, kw['type'], vals[dest].v)
        return vals

    def parsesub(self, it, parser, toks, after):
        """arguments of a command; what it cannot use goes back to the parser that selected it"""
        first = Rejected('too few arguments')
        for cut in range(len(toks) - after, -1, -1):
            try:
                return self.parse(it, parser, toks[:cut], 1), toks[cut:]
            except Rejected as e:
                if cut == len(toks) - after:
                    first = e
        raise first

    def convert(self, it, t, s):
        if t is None or t == NONE:
            return Const(s)
        if isinstance(t, Ext) and t.name in ('int', 'float'):
            try:
                return Const(int(s) if t.name == 'int' else float(s))
            except ValueError:
                raise Rejected(f'{s!r} is not a number')
        return it.call(t, [Const(s)], {})
