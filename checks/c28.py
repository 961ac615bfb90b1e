"""C28: options take effect; documented command lines are accepted."""
import ast
import fnmatch
import glob
import os
import re
import shlex

from checks.data import definitions
from checks.world import *
from checks import c16, c33
from sa.args import Args, Rejected

EXPLANATION = ('Every command is interpreted from its command line (argparse modelled) with symbolic option values; the options must flow into something '
               'else than log messages, and every keyboard and layout that is looked up must be the one selected. The options of the optimizer and of the '
               'triad table are followed to what they control on small worlds with constant counts. The command lines in the documentation and the build '
               'script are expanded and parsed against the parsers found in the source, and must be accepted with exactly the values given. Commands, '
               'layouts and resources they name must exist and be installed.')
ASSUMPTIONS = ['argparse as documented', 'variables of the build script hold what the script assigns', 'methods of the drawing, effort and annealing classes use their arguments (other properties)']
TECHNIQUE = 'taint-style flow analysis of option values through interpreted commands, argparse model run on documented command lines, packaging data as constants'

NUMBERS = {('lulua-optimize', '--steps'): int, ('lulua-optimize', '--triad-limit'): int, ('lulua-write', '--jobs'): int}
BASE = {'lulua-optimize': [], 'lulua-write': ['ar-lulua', 'text']}


def run(ck):
    ck.part('entry points', entries, ck)
    ck.part('documented command lines', documented, ck)
    ck.part('options', effects, ck)
    ck.part('numbers', numbers, ck)
    ck.part('optimizer', optimizer, ck)
    ck.part('triad table', triadtable, ck)
    ck.part('resources', resources, ck)


# ---- packaging

def setupcall():
    p = os.path.join(ROOT, 'setup.py')
    if not os.path.exists(p):
        raise Gone('setup.py')
    tree = ast.parse(open(p, encoding='utf8').read())
    env = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            env[n.targets[0].id] = n.value
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', None)) == 'setup':
            return {k.arg: env.get(k.value.id, k.value) if isinstance(k.value, ast.Name) else k.value for k in n.keywords}
    raise Gone('setup() in setup.py')


def literal(n):
    try:
        return ast.literal_eval(n)
    except (ValueError, SyntaxError):
        raise Lost('setup.py: not a constant')


def points():
    """command -> (module, function)"""
    kw = setupcall()
    if 'entry_points' not in kw:
        raise Gone('entry_points in setup.py')
    out = {}
    for e in literal(kw['entry_points']).get('console_scripts', []):
        name, _, target = e.partition('=')
        mod, _, func = target.strip().partition(':')
        out[name.strip()] = (mod.strip(), func.strip())
    return out


def entries(ck):
    it = interp(start=True)
    for name, (mod, func) in points().items():
        ck.count('commands')
        f = it.modattr(mod, func) if mod in it.repo.mods else None
        ck.expect(isinstance(f, FuncV) or (f is not None and None), 'every installed command has a function', 'setup.py', name, f'{name}: {mod}:{func} does not exist')


# ---- command lines

class Stop(Args):
    """parses only"""

    def m_parse_args(self, it, recv, args, kw):
        r = super().m_parse_args(it, recv, args, kw)
        if r is not NotImplemented:
            vals = {}
            for k, v in it.get(r).attrs.items():
                xs = it.concrete(v) if isinstance(v, Ref) else None
                vals[k] = v if xs is None else tuple(xs)
            it.ev('accepted', values=vals)
            raise it.err('SystemExit')
        return r


PARSERS = {}


def parsed(ck, cmd, argv):
    """(accepted values or None, reason, where)"""
    mod, func = points()[cmd]
    it = PARSERS.get(cmd)
    if it is None:
        it = PARSERS[cmd] = interp(start=True)
    f = it.modattr(mod, func)
    if not isinstance(f, FuncV):
        raise Gone(f'{mod}:{func}')
    where = f'{mod.replace(".", "/")}.py:{f.node.lineno}'
    x = it.exthooks = dict(it.exthooks)
    x['yaml.safe_load'] = lambda i, a, k: Sym('yaml')
    it.raisefilter = lambda t: False
    Stop(it, argv)
    ps = nobudget(it.analyse(lambda: it.call(f, [], {})))
    ck.used(it)
    why = []
    for p in ps:
        for e in p.trace:
            if e.kind == 'accepted':
                return e.values, None, where
            if e.kind == 'rejected':
                why.append(e.why)
    if why:
        return None, why[0], where
    raise Lost(f'{cmd}: no command line parsed ({[p.outcome for p in ps]} {ps[0].value!r})'[:200] if ps else cmd)


def simple(line, what):
    """simple commands of a shell line: [(words, text)]"""
    lex = shlex.shlex(line, posix=True, punctuation_chars='();<>|&')
    lex.whitespace_split = True
    lex.commenters = ''
    try:
        toks = list(lex)
    except ValueError:
        raise Lost(f'{what}: {line}'[:100])
    out, cur, skip = [], [], False
    for t in toks:
        if set(t) <= set('();|&'):
            if cur:
                out.append(cur)
            cur = []
        elif set(t) <= set('<>'):
            skip = True
            if cur and cur[-1].isdigit() and f'{cur[-1]}{t}' in line:
                cur.pop()
        elif skip:
            skip = False
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def shellvars(src):
    out = {}
    for m in re.finditer(r'^(\w+)=(?:"([^"`]*)"|([^\s"`]*))$', src, re.M):
        out.setdefault(m[1], m[2] if m[2] is not None else m[3])
    return out


def lines():
    """(where, shell line) of everything documented"""
    for name in ('README.rst', 'README.md', 'README'):
        p = os.path.join(ROOT, name)
        if not os.path.exists(p):
            continue
        src = open(p, encoding='utf8').read()
        blocks, cur, inside = [], [], False
        for i, l in enumerate(src.splitlines(), 1):
            if l.startswith('.. code') or l.startswith('```'):
                inside = not l.startswith('```') or not inside
                cur = []
            elif inside and l.strip() and not l[0].isspace() and name.endswith('.rst'):
                inside = False
            elif inside and l.strip():
                if cur and cur[-1][1].rstrip().endswith('\\'):
                    cur[-1] = (cur[-1][0], cur[-1][1].rstrip()[:-1] + ' ' + l.strip())
                else:
                    cur.append((i, l.strip()))
                    blocks.append(cur)
                if cur not in blocks:
                    blocks.append(cur)
        seen = []
        for b in blocks:
            if any(b is x for x in seen):
                continue
            seen.append(b)
            for i, l in b:
                yield f'{name}:{i}', l, {}
    p = os.path.join(ROOT, 'gen.sh')
    if os.path.exists(p):
        src = open(p, encoding='utf8').read()
        sh = shellvars(src)
        ninja = {k: v.replace('\\$', '$') for k, v in sh.items()}
        # values layouts take in the targets
        for i, l in enumerate(src.splitlines(), 1):
            m = re.match(r'\s+command\s*=\s*(.*)$', l)
            if m:
                yield f'gen.sh:{i}', m[1].replace('\\$', '$'), ninja


def expand(line, env, layout):
    def val(m):
        n = m[1] or m[2]
        if n == 'layout':
            return layout
        if n in ('corpus', 'layoutstats', 'in'):
            return f'{n}.1 {n}.2' if n != 'in' else 'in.1'
        if n in env and n not in ('out', 'metadata', 'stats'):
            return expand(env[n], env, layout)
        return n + '.file'
    return re.sub(r'\$(?:\{(\w+)\}|(\w+))', val, line)


def layoutnames(env):
    return env.get('layouts', '').split()


def documented(ck):
    cmds = points()
    shipped = definitions('layouts')
    n = 0
    rule = 'documented command lines are accepted'
    for where, line, env in lines():
        names = layoutnames(env) if '$layout' in re.sub(r'\$layoutstats', '', line) else ['']
        for layout in names if ck.thorough else names[:2]:
            text = expand(line, env, layout) if env else line
            before = None
            for words in simple(text, where):
                if not words:
                    continue
                prev, before = before, words
                if re.fullmatch(r'[^A-Za-z/]+', words[0]):
                    ck.violated(rule, where, f'{words[0]!r} is no command: {text}'[:200])
                    continue
                cmd = os.path.basename(words[0])
                if not cmd.startswith('lulua-'):
                    continue
                ck.count('command lines')
                n += 1
                if cmd not in cmds:
                    ck.violated('documented commands exist', where, f'{cmd} is not installed: {text}'[:200])
                    continue
                vals, why, at = parsed(ck, cmd, words[1:])
                ck.expect(vals is not None, rule, at, ' '.join(words), f'{where}: {" ".join(words)}: {why}')
                if vals is None:
                    continue
                got = [c.v for v in vals.values() for c in (v if isinstance(v, tuple) else [v]) if isconst(c)]
                lay = vals.get('layout')
                if isconst(lay) and isinstance(lay.v, str) and not lay.v.endswith('.yaml'):
                    ck.expect(lay.v in shipped, 'documented layouts exist', where, lay.v, f'layout {lay.v} is not shipped')
                kb = vals.get('keyboard')
                if isconst(kb) and isinstance(kb.v, str) and not kb.v.endswith('.yaml'):
                    ck.expect(kb.v in definitions('keyboards'), 'the default keyboard exists', at, kb.v, f'keyboard {kb.v} is not shipped')
                fs = vals.get('filter')
                if isinstance(fs, tuple) and fs and isconst(fs[0]) and prev:
                    if prev[0] in ('cat', 'find', 'echo', 'ls'):
                        ck.expect((fs[0].v in ('file', 'epub')) == (prev[0] != 'cat'), 'the first filter gets what it reads: names of files or text', where, ' '.join(words),
                                  f'{prev[0]} gives {"text" if prev[0] == "cat" else "names of files"}, but the filter {fs[0].v} reads {"names" if fs[0].v in ("file", "epub") else "text"}')
                for wd in words[1:]:
                    # words with values of their own reach the program as they are
                    if re.fullmatch(r'(in|corpus|layoutstats|metadata|stats|out)\.(\d|file)', wd) and not wd.startswith('-') and all(isconst(c) for v in vals.values() for c in (v if isinstance(v, tuple) else [v]) if not isinstance(c, (FuncV, Bound, Ext, App, Sym))):
                        if any(isapp(c) or isinstance(c, Sym) for v in vals.values() for c in (v if isinstance(v, tuple) else [v])):
                            continue
                        ck.expect(wd in got, 'arguments given are passed on', at, wd, f'{where}: {wd} of {" ".join(words)} is lost')
    for env in [e for _, _, e in lines() if e][:1]:
        for var in ('layouts', 'layoutsXmodmap'):
            for l in env.get(var, '').split():
                ck.count('layouts')
                ck.expect(l in shipped, 'documented layouts exist', 'gen.sh', l, f'layout {l} is not shipped')
    if not n:
        raise Gone('documented command lines')


# ---- effects

HEAVY = ('Renderer', 'Carpalx', 'LayoutOptimizer', 'Annealer')
QUIET = ('option', 'parser', 'parsed', 'subcommand', 'lastiter', 'new', 'setattr')


def argsyms(t, out, text=False):
    """options a value depends on; text: also those that are only formatted into it"""
    if isinstance(t, Sym):
        if t.name.startswith('arg:'):
            out.add(t.name[4:])
    elif isinstance(t, App):
        if not text and t.op in ('str', 'fmt', 'format', 'repr') and isinstance(t.args[0] if t.args else None, Sym):
            return out
        for a in t.args:
            argsyms(a, out, text)
    elif isinstance(t, (tuple, list, set, frozenset)):
        for a in t:
            argsyms(a, out, text)
    elif isinstance(t, dict):
        for k, a in t.items():
            argsyms(k, out, text)
            argsyms(a, out, text)
    elif isinstance(t, Bound):
        argsyms(t.self if hasattr(t, 'self') else None, out, text)
    elif isinstance(t, Raised):
        pass
    elif hasattr(t, '__dict__') and type(t).__name__ in ('Poly',):
        argsyms(list(t.__dict__.values()), out, text)
    elif hasattr(t, '__slots__') and not isinstance(t, (Const, Ref, Enum, Ext)) and type(t).__name__ not in ('FuncV', 'ClassV', 'Obj', 'Event', 'Path'):
        for s in t.__slots__:
            argsyms(getattr(t, s, None), out, text)
    return out


def logs(e):
    n = str(getattr(e, 'name', '') or '')
    return e.kind == 'call' and (n.startswith('logging.') or n.startswith('warnings.')) and n != 'logging.basicConfig'


def flows(trace, out, loaded):
    for e in trace:
        if e.kind == 'loop':
            l = e.loop
            argsyms(l.src, out)
            for lp in l.paths:
                argsyms([a for a, _ in lp.facts], out)
                argsyms(lp.value if lp.outcome != 'raise' else None, out)
                for k, v in (lp.updates or {}).items():
                    argsyms(v, out)
                flows(lp.trace, out, loaded)
        elif e.kind == 'loaded':
            loaded.append(e)
            argsyms(e.key, out)
        elif e.kind in QUIET or logs(e):
            continue
        else:
            argsyms(e.d, out)


def subcommands(it, f, ck):
    """names of the subcommands, [None] if there are none"""
    Stop(it, None)
    names, decl = [], []

    class Look(Args):
        def m_parse_args(s, i, recv, args, kw):
            if not s.mine(i, recv):
                return NotImplemented
            names.extend(n.v for n, _ in s.subs(i, recv) if isconst(n))
            top = [d.args[1] for d in i.get(recv).attrs['_decl'].args if d.args[1] != '<sub>']
            flags = {d.args[1]: d.args[0] for d in i.get(recv).attrs['_decl'].args}
            sub = {}
            for n, p in s.subs(i, recv):
                sub[n.v] = [d.args[1] for d in i.get(p).attrs['_decl'].args if d.args[1] != '<sub>']
                flags.update({(n.v, d.args[1]): d.args[0] for d in i.get(p).attrs['_decl'].args})
            for q in [recv] + [p for _, p in s.subs(i, recv)]:
                for d in i.get(q).attrs['_decl'].args:
                    h = {k.args[0]: k.args[1] for k in d.args[2].args}.get('help')
                    if h is not None and isconst(h) and isinstance(h.v, str):
                        left = re.sub(r'%(?:%|\((?:prog|default|dest|metavar|type|choices|nargs|const|required|help|option_strings)\)[sdrfgi])', '', h.v)
                        ck.count('help texts')
                        ck.expect('%' not in left, 'the help of every command can be shown', f'option {"/".join(d.args[0])} at line {d.args[3].v}', h.v, f'help text {h.v!r} is no valid format')
            decl.append((top, sub, flags))
            raise i.err('SystemExit')
    Look(it, None)
    it.analyse(lambda: it.call(f, [], {}))
    if not decl:
        raise Lost('no parser')
    return names or [None], decl[0]


def effects(ck):
    for cmd, (mod, func) in points().items():
        # the optimizer has a part of its own
        if (mod, func) != ('lulua.optimize', 'optimize'):
            ck.part(cmd, effect, ck, cmd, mod, func)


def effect(ck, cmd, mod, func):
    it = interp(start=True)
    f = it.modattr(mod, func)
    if not isinstance(f, FuncV):
        raise Gone(f'{mod}:{func}')
    subs, (top, sub, flags) = subcommands(it, f, ck)
    where = f'{mod.replace(".", "/")}.py:{f.node.lineno}'
    anywhere, complete = set(), True
    for s in subs:
        it = interp(start=True)
        hookdomain(it)
        it.opaque = set(it.opaque) | {f'{c.qual}.{m}' for c in it.classes.values() if c.name in HEAVY for m in c.attrs if m != '__init__'}
        f = it.modattr(mod, func)
        Args(it, None, {'<sub>': s} if s else {})
        name = f'{cmd} {s}' if s else cmd
        try:
            ps = it.analyse(lambda: it.call(f, [], {}))
        except Lost as e:
            ck.undecided('options take effect', where, f'{name}: {e}'[:120])
            complete = False
            continue
        ck.used(it)
        ck.count('commands')
        if any(p.outcome == 'budget' for p in ps):
            complete = False
            ck.undecided('options take effect', where, f'{name}: too large')
            continue
        out, loaded = set(), []
        for p in ps:
            argsyms([a for a, _ in p.facts], out)
            argsyms(p.value if p.outcome == 'return' else None, out)
            flows(p.trace, out, loaded)
        anywhere |= out
        for o in sub.get(s, []):
            ck.count('options')
            fl = flags.get((s, o)) or (o,)
            ck.expect(o in out, 'options take effect', where, f'{name} {"/".join(fl)}', f'{name}: {"/".join(fl) or o} has no effect')
        for e in loaded:
            ck.count('lookups')
            keyboard = e.cls.endswith('PhysicalKeyboard')
            want = Sym('arg:' + ('keyboard' if keyboard else 'layout'), 'str')
            ok = e.key == want or not keyboard and e.key == Const('null')
            at = f'{str(e.mod).replace(".", "/")}.py:{e.line}'
            ck.expect(ok if ok or isconst(e.key) or isinstance(e.key, Sym) else None, 'the keyboard and layout selected are the ones used', at, name,
                      f'{name}: uses {"keyboard" if keyboard else "layout"} {e.key!r} instead of the one selected')
    if complete:
        for o in top:
            ck.count('options')
            ck.expect(o in anywhere, 'options take effect', where, f'{cmd} {"/".join(flags.get(o) or (o,))}', f'{cmd}: {"/".join(flags.get(o) or (o,)) or o} has no effect')


def numbers(ck):
    rule = 'numbers are parsed as numbers, switches are off unless given'
    for (cmd, flag), t in NUMBERS.items():
        if cmd not in points():
            continue
        vals, why, where = parsed(ck, cmd, [flag, '7'] + BASE[cmd])
        ck.count('options')
        if vals is None:
            if 'unknown option' in why:
                continue
            ck.violated(rule, where, f'{cmd} {flag} 7: {why}')
            continue
        hit = [v for v in vals.values() if isconst(v) and v.v == 7 and isinstance(v.v, t)]
        ck.expect(bool(hit), rule, where, f'{cmd} {flag}', f'{cmd} {flag} 7 is not parsed as a number: {vals}'[:200])
    for cmd, flag, base in (('lulua-optimize', '--randomize', []), ('lulua-write', '--benchmark', BASE['lulua-write']), ('lulua-write', '--verbose', BASE['lulua-write']),
                            ('lulua-analyze', '--reverse', ['triadfreq'])):
        if cmd not in points():
            continue
        on, why, where = parsed(ck, cmd, base + [flag])
        off, why2, _ = parsed(ck, cmd, base)
        ck.count('options')
        if on is None or off is None:
            if 'unknown option' in (why or ''):
                continue
            ck.violated(rule, where, f'{cmd} {flag}: {why or why2}')
            continue
        diff = [k for k in on if on[k] != off.get(k) and not isinstance(on[k], (FuncV, Bound, Ext))]
        ck.expect(len(diff) == 1 and on[diff[0]] == TRUE and off[diff[0]] == FALSE, rule, where, f'{cmd} {flag}', f'{cmd} {flag}: {[(k, on[k], off.get(k)) for k in diff]}')


# ---- optimizer

def optimizer(ck):
    if 'lulua-optimize' not in points():
        raise Gone('lulua-optimize')

    def start(cmd):
        it, w, f, pos = c16.setup(ck, cmd, tuple(range(8)))
        it.hooks['lulua.optimize.LayoutOptimizer.mutate'] = it.hooks['lulua.optimize.Annealer.mutate'] = lambda i, a, k: (i.ev('mutated'), NONE)[1]

        def model(i, a, k):
            i.ev('model', model=a[1] if len(a) > 1 else k.get('model'))
            return NotImplemented
        it.hooks['lulua.carpalx.Carpalx.__init__'] = model
        where = f'lulua/optimize.py:{f.node.lineno}'
        out = []
        for p in c16.analyse(it, f):
            evs = [e for e in p.trace if e.kind == 'start']
            if not evs:
                raise Lost(f'no optimization: {p.outcome} {p.value!r}'[:200])
            e = evs[0]
            steps = e.kw.get('steps', e.args[0] if e.args else NONE)
            tr = it.concrete(e.triads) if isinstance(e.triads, Ref) else None
            at = p.trace.index(e)
            out.append((steps, e.triads, sum(1 for x in walk(p.trace[:at]) if x.kind == 'mutated'), [x for x in p.trace if x.kind == 'loaded'], p))
        ck.used(it)
        return it, where, out
    for n in ('0', '1', '12', '5000'):
        it, where, res = start(['-k', 'kb', '-l', 'lay', '-n', n])
        for steps, *_ in res:
            ck.count('runs')
            ck.expect(isconst(steps) and steps.v == int(n), 'the optimizer makes the steps asked for', where, n, f'-n {n}: runs {steps!r} steps')
    for lim, want in ((None, 2), ('0', 2), ('1', 1), ('2', 2), ('5', 2)):
        it, where, res = start(['-k', 'kb', '-l', 'lay'] + (['--triad-limit', lim] if lim else []))
        for _, tr, _, _, p in res:
            ck.count('runs')
            xs = triadsof(it, p, tr)
            if xs is None:
                ck.undecided('the optimizer uses the most frequent triads, up to the limit', where, repr(tr)[:100])
                continue
            cs = sorted((c for c in xs), reverse=True)
            ck.expect(cs == [7, 3][:want], 'the optimizer uses the most frequent triads, up to the limit', where, str(lim), f'--triad-limit {lim}: uses triads with counts {cs} of [7, 3]')
    for r in (False, True):
        it, where, res = start(['-k', 'kb', '-l', 'lay'] + (['-r'] if r else []))
        for _, _, n, _, _ in res:
            ck.count('runs')
            ck.expect((n > 0) == r, 'the layout is shuffled at the start exactly if asked', where, str(r), f'{"-r" if r else "no -r"}: {n} exchanges before the start')
    it, where, res = start(['-k', 'kb', '-l', 'lay'])
    mods = it.concrete(it.call(it.getattr(it.modattr('lulua.carpalx', 'models'), 'keys'), [], {})) or []
    for m in mods:
        it, where, res = start(['-k', 'kb', '-l', 'lay', '-m', m.v])
        want = it.getitem(it.modattr('lulua.carpalx', 'models'), m)
        for *_, p in res:
            for e in walk(p.trace):
                if e.kind == 'model':
                    ck.count('models')
                    ck.expect(e.model == want, 'the model selected is the one used', where, m.v, f'-m {m.v}: uses {e.model!r}'[:200])
    for kb, lay in (('kb', 'lay'), ('other', 'my.yaml')):
        it, where, res = start(['-k', kb, '-l', lay])
        for *_, ld, p in res:
            for e in ld:
                ck.count('lookups')
                want = kb if e.cls.endswith('PhysicalKeyboard') else lay
                ck.expect(e.key == Const(want), 'the keyboard and layout selected are the ones used', where, want, f'uses {e.key!r} instead of {want}')


def walk(trace):
    for e in trace:
        yield e
        if e.kind == 'loop':
            for lp in e.loop.paths:
                yield from walk(lp.trace)


def triadsof(it, p, t):
    """counts of the triads handed to the optimizer"""
    try:
        st = p.state if hasattr(p, 'state') else p.st
        o = st.get(t.id) if isinstance(t, Ref) else None
    except Exception:
        o = None
    xs = None
    if isapp(t, 'tuple') or isapp(t, 'listof'):
        xs = t.args
    elif o is not None and all(s.op == 'one' for s in o.segs):
        xs = [s.args[0] for s in o.segs]
    if xs is None:
        return None
    out = []
    for x in xs:
        x = x.args[0] if isapp(x, 'one') else x
        if not (isapp(x, 'tuple') and isconst(x.args[-1])):
            return None
        out.append(x.args[-1].v)
    return out


class Counted(c33.Small):
    """constant counts and efforts, no two alike"""

    def amount(self, tag, name):
        if tag != 't':
            return Const(1)
        return Const((11, 5, 4, 29, 2, 19, 7, 41, 13)[c33.TRIADS.index(name) % 9] + 50 * (c33.TRIADS.index(name) // 9))

    def cost(self, t):
        return Const((8, 3, 12, 5, 9, 2, 15, 4, 1)[c33.TRIADS.index(t) % 9])

    def effort(self, it, a, k):
        o = it.get(a[0])
        s, w = o.attrs['sum_'], o.attrs['weight_']
        return Const(s.v / w.v) if isconst(s) and isconst(w) and w.v else App('mean', s, w)


def triadtable(ck):
    if 'lulua-analyze' not in points():
        raise Gone('lulua-analyze')
    mod, func = points()['lulua-analyze']
    rule = 'the triad table is limited and sorted as asked'
    cases = [[], ['-n', '2'], ['-r'], ['-n', '1', '-r'], ['-s', 'effort'], ['-s', 'effort', '-r', '-n', '3'], ['-c', '1'], ['-c', '0.1'], ['-c', '1', '-s', 'weight', '--reverse'],
             ['-c', '1', '--limit=100'], ['-c', '0'], ['-c', '0.9', '--sort', 'effort'], ['-c', '1', '-s', 'combined'], ['-c', '1', '-s', 'combined', '-r', '-n', '2']]
    for opts in cases:
        it = interp(start=True)
        w = Counted(it)
        it.hooks['lulua.util.displayText'] = lambda i, a, k: App('shown', a[0])
        where, ps = c33.command(it, w, func, mod=mod.partition('.')[2], stats=dict(combos=c33.COMBOS, triads=c33.TRIADS), cmdline=['-l', 'lay', '-k', 'kb', 'triadfreq'] + opts)
        f = it.modattr('lulua.plot', 'triadfreq')
        where = f'lulua/plot.py:{f.node.lineno}' if isinstance(f, FuncV) else where
        ck.used(it)
        ck.count('tables')
        what = 'triadfreq ' + ' '.join(opts)
        if len(ps) != 1 or ps[0].outcome != 'return':
            ck.undecided(rule, where, f'{what}: {len(ps)} paths {ps[0].outcome} {ps[0].value!r}'[:200])
            continue
        got = []
        if any(e.kind == 'print' for x in ps[0].trace if x.kind == 'loop' for e in walk([x])):
            ck.undecided(rule, where, f'{what}: not followed')
            continue
        for e in ps[0].trace:
            if e.kind == 'print':
                if len(e.args) != 3 or not isconst(e.args[1]):
                    raise Lost(f'printed {e.args!r}'[:100])
                got.append(e.args[1].v)
        cut = float(opt(opts, '-c', '--cutoff', 0.5))
        lim = int(opt(opts, '-n', '--limit', 0))
        how = opt(opts, '-s', '--sort', 'weight')
        g = {}
        for t in c33.TRIADS:
            x = g.setdefault(c33.textof(t), [0, 0])
            x[0] += w.amount('t', t).v
            x[1] += w.amount('t', t).v * w.cost(t).v
        rows = sorted(([n, s / n] for n, s in g.values()), reverse=True)
        total = sum(n for n, _ in rows)
        top, acc = [], 0
        for r in rows:
            if acc < total * cut:
                top.append(r)
                acc += r[0]
        key = {'weight': lambda r: r[0], 'effort': lambda r: r[1], 'combined': lambda r: r[0] / total * r[1] ** 2}[how]
        top.sort(key=key, reverse='-r' in opts or '--reverse' in opts)
        want = [r[0] for r in top][:lim or None]
        ck.expect(got == want, rule, where, what, f'{what}: lists {got}, should be {want}')


def opt(opts, short, long, default):
    for i, o in enumerate(opts):
        if o == short or o == long:
            return opts[i + 1]
        if o.startswith(long + '='):
            return o[len(long) + 1:]
    return default


# ---- resources

def resources(ck):
    it = interp(start=True)
    kw = setupcall()
    pats = literal(kw['package_data']).get('lulua', []) if 'package_data' in kw else []
    used = {}
    for name, m in it.repo.mods.items():
        tree = m.tree if hasattr(m, 'tree') else None
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('resource_') and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                used[n.args[1].value] = f'lulua/{name.rpartition(".")[2]}.py:{n.lineno}'
    inst = lambda p: any(fnmatch.fnmatchcase(p, x) and p.count('/') == x.count('/') for x in pats)
    for p, where in used.items():
        full = os.path.join(ROOT, 'lulua', p)
        ck.count('resources')
        if os.path.isdir(full):
            continue
        ck.expect(os.path.exists(full), 'resources the commands use exist', where, p, f'{p} does not exist')
        ck.expect(inst(p), 'resources the commands use are installed', 'setup.py', p, f'{p} is not part of the package')
    for kind in ('keyboards', 'layouts'):
        for name, (path, _) in definitions(kind).items():
            p = os.path.relpath(path, 'lulua')
            ck.count('resources')
            ck.expect(inst(p), 'shipped definitions are installed', 'setup.py', p, f'{p} is not part of the package')
