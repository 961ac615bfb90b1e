"""Exporters analysed on the shipped definitions: everything they write is
propagated as constants."""
import copy

from checks.data import *


class Out:
    """files opened for writing by the analysed code"""
    def __init__(self, it):
        self.it = it


def shapes(kb):
    """definitions beyond the shipped ones: (name, layout data)"""
    letter = [b['name'] for r, h, p, b in buttons(kb) if b.get('kind') == 'letter' and b.get('scancode')]
    std = {b['name'] for r, h, p, b in buttons(kb)}
    need = {'Bl1', 'Cl1', 'Dl1', 'El2', 'Cr1', 'Dr1', 'El_shift', 'Er_shift', 'Fr_altgr', 'Dl_caps', 'Fl_space', 'Fr_space', 'Cl_tab', 'Br_bs', 'CD_ret', 'Er1'}
    if need - std:
        raise Lost(f'keys {sorted(need - std)}')
    base = dict(Fl_space=' ', Fr_space=' ', Cl_tab='\t', Br_bs='\b', CD_ret='\n')
    sh = [['El_shift'], ['Er_shift']]

    def lay(name, *ls):
        return name, dict(name=name, layout=[dict(layer=l, modifier=m) for l, m in ls])
    uniq = [k for k in letter if k not in ('Dr1',)]
    yield lay('four layers', (dict(base, **{k: chr(0x61 + i % 26) if i < 26 else chr(0x3b1 + i - 26) for i, k in enumerate(uniq[:-3])}), [[]]),
              ({k: chr(0x10000 + i) for i, k in enumerate(uniq[:20])}, sh),
              ({uniq[0]: '&', uniq[1]: '<', uniq[2]: '"', uniq[-1]: "'", uniq[5]: '\u0301', uniq[6]: '\u200d', 'Fl_space': '\xa0', 'Fr_space': '\xa0'}, [['Dl_caps'], ['Dr1']]),
              ({uniq[1]: ']', uniq[-2]: '\\', 'Br_bs': '\u0664'}, [['Fr_altgr']]))
    yield lay('strings', (dict(base, Bl1='e\u0301', Cl1='abc', Dl1='\u0644\u0627', El2='\u0301\u0308', Er1='x'), [[]]),
              (dict(Bl1='E\u0301', Cl1='\u0627\u0654', Cr1='q', Dr1='\U0001f600y'), [['El_shift'], ['Fr_altgr', 'El_shift']]),
              (dict(Dl1='\u202f', Cr1='z', Dr1='\u0622'), [['Dl_caps'], ['Fr_altgr']]))
    yield lay('repeats', (dict(base, Bl1='aa', Cl1='\u0301\u0301', Dl1=' ', Er1='abab', El2='\xa0'), [[]]),
              (dict(Cr1='xx', Dl1='\u2003', Er1='\u0644\u0644\u0647', Cl1='\U0001f600\U0001f600'), sh),
              (dict(Dr1='q', Bl1='\U00010330', El2='\t'), [['Dl_caps']]))
    yield lay('upper layers', ({k: v for k, v in base.items()}, [[]]),
              ({uniq[i]: chr(0x41 + i) for i in range(0, 20, 2)}, sh),
              ({uniq[i]: chr(0x430 + i) for i in range(1, 20, 2)}, [['Dl_caps']]),
              ({uniq[i]: chr(0x5d0 + i) for i in (3, 4, 21)}, [['Fr_altgr']]))
    yield lay('six layers', (dict(base, **{k: chr(0x61 + i) for i, k in enumerate(uniq[:26])}), [[]]),
              *[({k: chr(0x100 * (j + 4) + i + j) for i, k in enumerate(uniq[:26]) if (i + j) % 5}, m) for j, m in
                enumerate((sh, [['Dl_caps']], [['Fr_altgr']], [['Fr_altgr', 'El_shift']], [['Fr_altgr', 'Dl_caps'], ['El_shift', 'Dl_caps']]))])
    odd = list('\u200b\u200c\u200d\u200e\u200f\u202a\u202b\u202c\u2066\u2069\u00ad\u061c\u2060\ufeff\u180e\u034f\u2003\u202f')
    sign = list('!#$%&()*+,-./:;<=>?@[\\]^_`{|}~"') + ["'"] + list('0123456789')
    wide = list('\u0660\u0669\u06f4\u0640\u064b\u0651\u0670\u06cc\u0643\ufdfa\ufefb\u0130\u0131\u00df\ufb01\uac00\u4e2d\uffe5\ufffd\uf8ff\U0001f468\U000e0041\U0010fffd\U0001d54f')
    assert len(odd) <= len(uniq)
    yield lay('odd characters', (dict(base, **dict(zip(uniq, sign))), [[]]), (dict(zip(uniq[1:], odd)), sh),
              (dict(zip(uniq[::-1], wide)), [['Dl_caps']]), (dict(zip(uniq, sign[len(uniq):])), [['Fr_altgr']]))
    yield lay('two layers', (dict(base, Cl1='a', Dr1='b'), [[]]), (dict(Cl1='A', El2='\u20ac'), [['El_shift']]))


def resized(kb):
    """the keyboard with rows of different widths and another order of keys"""
    kb = copy.deepcopy(kb)
    for r, row in enumerate(kb['rows']):
        for h, half in enumerate(row):
            for i, b in enumerate(half):
                b['width'] = b.get('width', 1) + (r * 3 + i + h) % 4 * 0.25
    kb['rows'][2][1][-1]['width'] += 2.5
    return kb


def export(it, w, func, **opts):
    """paths of an exporter called with the given options; the layout is the one of the world"""
    f = it.modattr('lulua.render', func)
    if f is None:
        raise Gone(f'lulua.render.{func}')
    lay = {}

    def get(i, args, kw):
        c = loaderclass(i, args[0])
        if c is None or len(args) < 2:
            return NotImplemented
        i.ev('loaded', cls=c.qual, key=args[1])
        if c.qual.endswith('PhysicalKeyboard'):
            return w.keyboard()
        return i.new(Obj('inst', cls=c, attrs=dict(name=Const(w.laydata['name']), layers=Sym('layers'))))
    it.hooks['lulua.util.YamlLoader.__getitem__'] = get
    it.hooks['lulua.layout.GenericLayout.specialize'] = lambda i, a, k: w.layout(a[1] if len(a) > 1 else k.get('keyboard'))

    def go():
        args = it.new(Obj('inst', cls=cls(it, 'util.YamlLoader'), attrs={k: v() if callable(v) else v if isinstance(v, (Const, Sym, App, Ref)) else Const(v) for k, v in opts.items()}))
        return it.call(f, [args], {})
    return f, it.analyse(go)


def written(p):
    """[(open arguments, text)] in order of writing, for one path; Lost if something is not constant"""
    out = {}
    for e in flat(p.trace):
        if e.kind == 'print' and 'file' in dict(e.kwargs or {}):
            kw = dict(e.kwargs)
            r, parts = kw['file'], [a for a in e.args]
            sep, end = kw.get('sep', Const(' ')), kw.get('end', Const('\n'))
            xs = []
            for i, a in enumerate(parts):
                xs += ([sep] if i else []) + [a]
            xs.append(end)
        elif e.kind == 'mcall' and e.name == 'write' and isfile(e.recv):
            r, xs = e.recv, [e.args[0]]
        elif e.kind == 'mcall' and e.name == 'writelines' and isfile(e.recv):
            raise Lost('writelines')
        else:
            continue
        o = out.setdefault(r, [])
        for x in xs:
            o.append(constant(x))
    res = []
    for r, xs in out.items():
        t = b'' if xs and isinstance(xs[0], bytes) else ''
        res.append((r, t.join(x if isinstance(x, type(t)) else str(x) for x in xs)))
    return res


def constant(x):
    """constant text; pieces that are not (times, host names) become a mark"""
    if isconst(x):
        return x.v
    if isapp(x, 'concat'):
        xs = [a.v if isconst(a) else HOLE for a in x.args]
        if any(isinstance(a, str) and a != HOLE for a in xs):
            return ''.join(str(a) for a in xs)
    raise Lost(f'output {x!r}'[:120])


HOLE = '\ufffc'


def isfile(r):
    return isapp(r, 'open') or isapp(r, 'entered') or isapp(r, 'call') and 'open' in str(r.args[0])


def flat(trace):
    for e in trace:
        yield e
        if e.kind == 'loop':
            for lp in e.loop.paths:
                for x in flat(lp.trace):
                    if x.kind in ('mcall', 'print', 'write'):
                        raise Lost('output in a loop that is not unrolled')
