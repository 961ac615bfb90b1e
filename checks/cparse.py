"""Reader for the C tables of a generated driver."""
import re
from sa.report import Lost

TOKEN = re.compile(r'\s*(?:(/\*.*?\*/|//[^\n]*)|(L?"(?:\\.|[^"\\])*")|([A-Za-z_]\w*)|(0[xX][0-9a-fA-F]+|\d+)[uUlL]*|(.))', re.S)


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m is None:
            break
        pos = m.end()
        if m.group(1) is None and m.group(0).strip():
            out.append(m.group(0).strip() if m.group(4) is None else m.group(4))
    return out


class CSource:
    """#define constants, static tables and types of a source text"""
    def __init__(self, text):
        self.text = text
        self.defs, self.redefined, self.tables, self.types = {}, [], {}, set()
        body = []
        for l in text.split('\n'):
            m = re.match(r'#define\s+(\w+)\s+(.*)', l)
            if m:
                t = [x for x in tokens(m.group(2)) if x not in '()']
                v = num(t[0]) if len(t) == 1 else None
                if m.group(1) in self.defs and self.defs[m.group(1)] != v:
                    self.redefined.append(m.group(1))
                self.defs[m.group(1)] = v
            elif not l.startswith('#'):
                body.append(l)
        ts = tokens('\n'.join(body))
        i = 0
        while i < len(ts):
            if ts[i] == 'typedef':
                j, depth = i, 0
                while j < len(ts) and not (ts[j] == ';' and depth == 0):
                    depth += (ts[j] == '{') - (ts[j] == '}')
                    j += 1
                k = j - 1
                while ts[k] != '}' and k > i:
                    if re.match(r'[A-Za-z_]', ts[k]):
                        self.types.add(ts[k])
                    k -= 1
                i = j + 1
            elif ts[i] == 'static':
                j = i
                while ts[j] != '=':
                    j += 1
                decl = [t for t in ts[i + 1:j] if re.match(r'[A-Za-z_]', t)]
                val, k = self.init(ts, j + 1)
                self.tables[decl[-1]] = (decl[:-1], val)
                i = k + 1
            else:
                i += 1

    def init(self, ts, i):
        """initialiser at ts[i]: nested lists of token lists"""
        if ts[i] != '{':
            e = []
            depth = 0
            while not (depth == 0 and ts[i] in (',', '}', ';')):
                depth += (ts[i] == '(') - (ts[i] == ')')
                e.append(ts[i])
                i += 1
            return e, i
        i += 1
        out = []
        while ts[i] != '}':
            v, i = self.init(ts, i)
            out.append(v)
            if ts[i] == ',':
                i += 1
        return Init(out), i + 1

    def value(self, e):
        """number of an expression of constants joined by |"""
        if isinstance(e, Init):
            raise Lost(f'value {e!r}')
        v = 0
        for t in e:
            if t in ('|', '(', ')'):
                continue
            x = num(t) if re.match(r'\d', t) else self.defs.get(t)
            if x is None:
                raise Lost(f'value of {t}')
            v |= x
        return v

    def symbols(self, e):
        if isinstance(e, Init):
            for x in e:
                yield from self.symbols(x)
        else:
            for t in e:
                if re.match(r'[A-Za-z_]', t):
                    yield t


class Init(list):
    pass


def num(t):
    try:
        return int(t, 0)
    except ValueError:
        return None
