"""match statements as if statements, merging of freshly made dictionaries as loops"""
import ast


class Hard(Exception):
    pass


def plain(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and plain(e.value) or isinstance(e, ast.Tuple) and all(map(plain, e.elts))


class Desugar(ast.NodeTransformer):
    n = 0

    def visit_Match(self, m):
        try:
            out = self.match(m)
        except Hard:
            return self.generic_visit(m)
        for x in out:
            ast.copy_location(x, m)
            ast.fix_missing_locations(x)
        return [self.generic_visit(x) for x in out]

    def visit_AugAssign(self, s):
        self.generic_visit(s)
        if isinstance(s.op, ast.BitOr):
            return self.merge(s, s.target, s.value) or s
        return s

    def visit_Expr(self, s):
        self.generic_visit(s)
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'update' and len(c.args) == 1 and not c.keywords:
            return self.merge(s, c.func.value, c.args[0]) or s
        return s

    def merge(self, s, target, v):
        """target.update(v)"""
        if not isinstance(target, (ast.Name, ast.Attribute)):
            return None
        tgt = ast.unparse(target)
        Desugar.n += 1

        def load():
            return ast.parse(tgt, mode='eval').body

        def store(k, x):
            return ast.Assign([ast.Subscript(load(), k, ast.Store())], x)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'fromkeys' and isinstance(v.func.value, ast.Name) and \
                v.func.value.id == 'dict' and len(v.args) == 2 and plain(v.args[1]):
            k = f'_key{Desugar.n}'
            out = ast.For(ast.Name(k, ast.Store()), v.args[0], [store(ast.Name(k, ast.Load()), v.args[1])], [])
        elif isinstance(v, ast.DictComp) and not any(g.is_async for g in v.generators) and tgt not in ast.unparse(v):
            names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(v) if x is not v):
                return None

            class Rename(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.copy_location(ast.Name(f'_{x.id}_{Desugar.n}', x.ctx), x) if x.id in names else x
            v = Rename().visit(v)
            out = store(v.key, v.value)
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    out = ast.If(c, [out], [])
                out = ast.For(g.target, g.iter, [out], [])
        else:
            return None
        ast.copy_location(out, s)
        return ast.fix_missing_locations(out)

    def match(self, m):
        pre = []
        if isinstance(m.subject, ast.Name):
            subj = m.subject.id
        else:
            Desugar.n += 1
            subj = f'_match{Desugar.n}'
            pre = [ast.Assign([ast.Name(subj, ast.Store())], m.subject)]
        rest = []
        for c in reversed(m.cases):
            tests, binds = self.pattern(c.pattern, lambda: ast.Name(subj, ast.Load()))
            body = list(c.body)
            sets = [ast.Assign([ast.Name(n, ast.Store())], e) for n, e in binds]
            if c.guard is None:
                body = sets + body
            elif not binds:
                tests = tests + [c.guard]
            else:
                # bound before the guard is evaluated
                w = [ast.NamedExpr(ast.Name(n, ast.Store()), e) for n, e in binds]
                tests = tests + [ast.Subscript(ast.Tuple(w + [ast.Constant(True)], ast.Load()), ast.Constant(len(w)), ast.Load()), c.guard]
            if not tests:
                rest = body
            else:
                t = tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
                n = ast.If(t, body, rest)
                ast.copy_location(n, c.body[0])
                rest = [n]
        return pre + rest

    def pattern(self, p, get):
        """(tests, bindings)"""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(get(), [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(get(), [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchAs):
            t, b = self.pattern(p.pattern, get) if p.pattern is not None else ([], [])
            return t, b + ([(p.name, get())] if p.name else [])
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(x, get) for x in p.patterns]
            if any(b for _, b in alts):
                raise Hard
            if any(not t for t, _ in alts):
                return [], []
            return [ast.BoolOp(ast.Or(), [t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t) for t, _ in alts])], []
        if isinstance(p, ast.MatchClass):
            if isinstance(p.cls, ast.Name) and p.cls.id in ('str', 'int', 'bytes', 'float', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bool') and len(p.patterns) == 1 and not p.kwd_patterns:
                t, b = self.pattern(p.patterns[0], get)
            elif p.patterns:
                raise Hard
            else:
                t, b = [], []
            out = [ast.Call(ast.Name('isinstance', ast.Load()), [get(), p.cls], [])] + t
            for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                t, b2 = self.pattern(q, lambda name=name: ast.Attribute(get(), name, ast.Load()))
                out, b = out + t, b + b2
            return out, b
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            size = ast.Call(ast.Name('len', ast.Load()), [get()], [])
            out = [ast.Call(ast.Name('isinstance', ast.Load()), [get(), ast.Tuple([ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())], [])]
            out.append(ast.Compare(size, [ast.GtE() if stars else ast.Eq()], [ast.Constant(n - len(stars))]))
            b = []
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        hi = ast.BinOp(ast.Call(ast.Name('len', ast.Load()), [get()], []), ast.Sub(), ast.Constant(n - 1 - i)) if i < n - 1 else None
                        b.append((q.name, ast.Call(ast.Name('list', ast.Load()), [ast.Subscript(get(), ast.Slice(ast.Constant(i), hi), ast.Load())], [])))
                    continue
                j = i if not stars or i < stars[0] else i - n
                t, b2 = self.pattern(q, lambda j=j: ast.Subscript(get(), ast.Constant(j) if j >= 0 else ast.UnaryOp(ast.USub(), ast.Constant(-j)), ast.Load()))
                out, b = out + t, b + b2
            return out, b
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            out, b = [ast.Call(ast.Name('isinstance', ast.Load()), [get(), ast.Name('dict', ast.Load())], [])], []
            for k, q in zip(p.keys, p.patterns):
                out.append(ast.Compare(k, [ast.In()], [get()]))
                t, b2 = self.pattern(q, lambda k=k: ast.Subscript(get(), k, ast.Load()))
                out, b = out + t, b + b2
            return out, b
        raise Hard


def parse(src, path):
    return Desugar().visit(ast.parse(src, path))
