"""The build description written by gen.sh, obtained by expanding the script
text: assignments, loops over words, here documents, echo.  The only commands
whose result matters are listings of directories of the repository."""
import fnmatch
import os
import re
import shlex

from sa.report import Lost, Gone
from checks.data import ROOT


class Shell:
    def __init__(self, src):
        self.lines = src.splitlines()
        self.vars = {}
        self.out = []
        self.block(0, len(self.lines))

    def sub(self, cmd):
        """output of a listing"""
        words = shlex.split(self.expand(cmd.split('|')[0]))
        if not words:
            return ''
        if words[0] == 'ls':
            d = os.path.join(ROOT, words[-1] if len(words) > 1 else '.')
            return '\n'.join(sorted(f for f in os.listdir(d) if not f.startswith('.'))) if os.path.isdir(d) else ''
        if words[0] == 'find':
            return ''
        if words[0] == 'echo':
            return ' '.join(words[1:])
        raise Lost(f'gen.sh: {cmd}'[:80])

    def expand(self, s, heredoc=False):
        out, i = [], 0
        while i < len(s):
            c = s[i]
            if c == '\\' and i + 1 < len(s) and (s[i + 1] in '$`\\' or not heredoc and s[i + 1] == '"'):
                out.append(s[i + 1])
                i += 2
            elif c == '$' and s[i + 1:i + 2] == '(':
                d, j = 1, i + 2
                while j < len(s) and d:
                    d += {'(': 1, ')': -1}.get(s[j], 0)
                    j += 1
                out.append(self.sub(s[i + 2:j - 1]))
                i = j
            elif c == '`':
                j = s.index('`', i + 1)
                out.append(self.sub(s[i + 1:j]))
                i = j + 1
            elif c == '$':
                m = re.match(r'\$(?:\{(\w+)\}|(\w+))', s[i:])
                if not m:
                    if s[i + 1:i + 2] == '{':
                        raise Lost(f'gen.sh: {s}'[:80])
                    out.append(c)
                    i += 1
                    continue
                out.append(self.vars.get(m[1] or m[2], ''))
                i += m.end()
            else:
                out.append(c)
                i += 1
        return ''.join(out)

    def value(self, w):
        w = w.strip()
        if len(w) > 1 and w[0] == w[-1] == "'":
            return w[1:-1]
        if len(w) > 1 and w[0] == w[-1] == '"':
            w = w[1:-1]
        return self.expand(w)

    def block(self, i, end):
        while i < end:
            l = self.lines[i].strip()
            if not l or l.startswith('#') or l in ('do', 'set -e', 'set -eu', 'set -euo pipefail'):
                i += 1
                continue
            m = re.match(r"cat\s*<<(-?)\s*(['\"]?)(\w+)\2$", l)
            if m:
                j = i + 1
                while j < end and self.lines[j].strip('\t' if m[1] else '') != m[3]:
                    j += 1
                for x in self.lines[i + 1:j]:
                    self.out.append((x.lstrip('\t') if m[1] else x) if m[2] else self.expand(x.lstrip('\t') if m[1] else x, True))
                    self.out.append('\n')
                i = j + 1
                continue
            m = re.match(r'for\s+(\w+)\s+in\s+(.*?)\s*(?:;\s*do)?$', l)
            if m:
                d, j = 1, i + 1
                here = None
                while j < end and d:
                    x = self.lines[j].strip()
                    if here:
                        here = None if x == here else here
                    elif re.search(r'<<-?\s*[\'"]?(\w+)', x):
                        here = re.search(r'<<-?\s*[\'"]?(\w+)', x)[1]
                    elif x.startswith('for ') or x.startswith('while '):
                        d += 1
                    elif x == 'done':
                        d -= 1
                    j += 1
                for w in self.value(m[2]).split():
                    self.vars[m[1]] = w
                    self.block(i + 1, j - 1)
                i = j
                continue
            m = re.match(r'(?:local |export |readonly )?(\w+)(\+?)=(.*)$', l)
            if m:
                v = self.value(m[3])
                self.vars[m[1]] = self.vars.get(m[1], '') + v if m[2] else v
                i += 1
                continue
            m = re.match(r'(echo|printf)\s+(-n\s+)?(.*)$', l)
            if m:
                v = self.value(m[3])
                if m[1] == 'printf':
                    if '%' in v:
                        raise Lost(f'gen.sh: {l}'[:80])
                    v = v.replace('\\n', '\n')
                self.out.append(v + ('' if m[2] or m[1] == 'printf' else '\n'))
                i += 1
                continue
            raise Lost(f'gen.sh:{i + 1}: {l}'[:80])


class Build:
    """rules: name -> command; targets: output -> (rule, inputs, variables)"""

    def __init__(self):
        p = os.path.join(ROOT, 'gen.sh')
        if not os.path.exists(p):
            raise Gone('gen.sh')
        sh = Shell(open(p, encoding='utf8').read())
        self.shell = sh
        self.vars, self.rules, self.targets, self.double = {}, {}, {}, []
        cur = None
        text = re.sub(r'\$\n\s*', '', ''.join(sh.out))
        for l in text.splitlines():
            if not l.strip() or l.lstrip().startswith('#'):
                continue
            if l[0].isspace():
                k, _, v = l.partition('=')
                if cur is not None:
                    cur[k.strip()] = v.strip()
                continue
            m = re.match(r'(\w+)\s*=\s*(.*)$', l)
            if m:
                self.vars[m[1]] = m[2]
                cur = None
            elif l.startswith('rule '):
                cur = self.rules.setdefault(l[5:].strip(), {})
            elif l.startswith('build '):
                outs, _, rest = l[6:].partition(':')
                outs = self.var(outs, {})
                ins = rest.split('||')[0].split()
                cur = {}
                for o in self.var(outs, {}).split():
                    if o == '|':
                        continue
                    if o in self.targets:
                        self.double.append(o)
                    ws = [self.var(x, {}) for x in ins[1:]]
                    explicit = ws[:ws.index('|')] if '|' in ws else ws
                    order = [self.var(x, {}) for x in rest.split('||')[1].split()] if '||' in rest else []
                    self.targets[o] = (ins[0], ' '.join(explicit).split(), [x for x in ' '.join(ws).split() if x != '|'], cur, ' '.join(order).split())
            else:
                cur = {}

    def var(self, s, env):
        for _ in range(5):
            t = re.sub(r'\$(?:\{(\w+)\}|(\w+))', lambda m: env.get(m[1] or m[2], self.vars.get(m[1] or m[2], '')), s)
            if t == s:
                break
            s = t
        return s

    def command(self, out):
        rule, ins, deps, env, order = self.targets[out]
        if rule not in self.rules:
            return None
        return self.var(self.rules[rule].get('command', ''), {**{k: self.var(v, {}) for k, v in env.items()}, 'in': ' '.join(ins), 'out': out})

    def closure(self, out):
        """targets needed for one"""
        todo, seen = [out], []
        while todo:
            o = todo.pop()
            if o in seen or o not in self.targets:
                continue
            seen.append(o)
            todo += self.targets[o][2]
        return seen
