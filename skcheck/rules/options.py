"""What a constructor keeps for a given option value: straight evaluation of constructor and setter code on constants."""
import ast

UNK = ('?',)


class Options:
    def __init__(self, prog, c):
        self.prog, self.c = prog, c

    def const(self, e, f, env):
        """the constant an expression denotes, or UNK"""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            b = f.module.names.get(e.id) if hasattr(f.module, 'names') else None
            r = self.prog.resolve_expr(f.module, e)
            if r and r[0] == 'const' and isinstance(r[1], ast.Constant):
                return r[1].value
            for s in f.module.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                    return self.const(s.value, f, {})
            return UNK
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id in (f.params[0], 'cls', self.c.name):
            if ('self', e.attr) in env:
                return env[('self', e.attr)]
            r = self.c.find_any(e.attr)
            if r and r[0] == 'attr' and isinstance(r[1], ast.Constant):
                return r[1].value
            return UNK
        if isinstance(e, ast.Attribute):
            for k in self.prog.classes:
                if isinstance(e.value, ast.Name) and k.name == e.value.id:
                    r = k.find_any(e.attr)
                    if r and r[0] == 'attr' and isinstance(r[1], ast.Constant):
                        return r[1].value
            return UNK
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [self.const(x, f, env) for x in e.elts]
            return UNK if any(v is UNK for v in vs) else tuple(vs)
        if isinstance(e, ast.IfExp):
            t = self.const(e.test, f, env)
            if t is UNK:
                a, b = self.const(e.body, f, env), self.const(e.orelse, f, env)
                return a if a is not UNK and a == b else UNK
            return self.const(e.body if t else e.orelse, f, env)
        if isinstance(e, ast.BoolOp):
            out = None
            for v in e.values:
                out = self.const(v, f, env)
                if out is UNK:
                    return UNK
                if bool(out) != isinstance(e.op, ast.And):
                    return out
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.const(e.operand, f, env)
            return UNK if v is UNK else not v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = self.const(e.left, f, env), self.const(e.comparators[0], f, env)
            if l is UNK or r is UNK:
                return UNK
            o = e.ops[0]
            try:
                return (l in r if isinstance(o, ast.In) else l not in r if isinstance(o, ast.NotIn) else
                        l is r or l == r and r is not None if isinstance(o, (ast.Is, ast.Eq)) else
                        not (l is r or l == r) if isinstance(o, (ast.IsNot, ast.NotEq)) else UNK)
            except TypeError:
                return UNK
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            v = self.const(e.args[0], f, env)
            ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            if v is UNK or not all(isinstance(t, ast.Name) and t.id in ('str', 'bool', 'int', 'float', 'list', 'dict') for t in ts):
                return UNK
            return isinstance(v, tuple({'str': str, 'bool': bool, 'int': int, 'float': float, 'list': list, 'dict': dict}[t.id] for t in ts))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'bool', 'int') and len(e.args) == 1:
            v = self.const(e.args[0], f, env)
            try:
                return UNK if v is UNK else {'str': str, 'bool': bool, 'int': int}[e.func.id](v)
            except (TypeError, ValueError):
                return UNK
        return UNK

    def run(self, f, args, depth=0):
        """fields assigned by f when called with the constants args: {field: constant or UNK}"""
        fields = {}
        env = dict(args)
        if f.params:
            self._block(f.node.body, f, env, depth)
        return {k[1]: v for k, v in env.items() if isinstance(k, tuple) and k[0] == 'self'}

    def _block(self, body, f, env, depth):
        for s in body:
            if isinstance(s, ast.If):
                t = self.const(s.test, f, env)
                if t is UNK:
                    a, b = dict(env), dict(env)
                    ra = self._block(s.body, f, a, depth)
                    rb = self._block(s.orelse, f, b, depth)
                    if ra and rb:
                        return True
                    outs = ([] if ra else [a]) + ([] if rb else [b])
                    for k in set().union(*outs):
                        vs = [o.get(k, UNK) for o in outs]
                        env[k] = vs[0] if all(v is not UNK and v == vs[0] for v in vs) else UNK
                elif self._block(s.body if t else s.orelse, f, env, depth):
                    return True
            elif isinstance(s, (ast.Return, ast.Raise)):
                return True
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                v = UNK if isinstance(s, ast.AugAssign) or s.value is None else self.const(s.value, f, env)
                for t in ts:
                    if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        vs = [self.const(x, f, env) for x in s.value.elts]
                        for x, y in zip(t.elts, vs):
                            self._set(x, y, f, env, depth)
                    else:
                        self._set(t, v, f, env, depth)
            elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                for n in ast.walk(s):
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            self._set(t, UNK, f, env, 9)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and depth < 4:
                self._call(s.value, f, env, depth)
        return False

    def _call(self, e, f, env, depth):
        g = None
        fn = e.func
        args = list(e.args)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                and f.cls is not None:
            g = self.c.find(fn.attr, after=f.cls)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.params and fn.value.id == f.params[0]:
            g = self.c.find(fn.attr)
        if g is None or any(isinstance(a, ast.Starred) for a in args):
            return
        vals = {}
        for p, a in zip(g.params[1:], args):
            vals[p] = self.const(a, f, env)
        for k in e.keywords:
            if k.arg:
                vals[k.arg] = self.const(k.value, f, env)
        for p in g.all_params[1:]:
            if p not in vals:
                vals[p] = self.const(g.defaults[p], g, {}) if p in g.defaults else UNK
        for k, v in env.items():
            if isinstance(k, tuple):
                vals[k] = v
        for k, v in self.run(g, vals, depth + 1).items():
            env[('self', k)] = v

    def _set(self, t, v, f, env, depth):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0]:
            st = self.c.find(t.attr, 'setters') if hasattr(self.c, 'find') else None
            if st is not None and depth < 5:
                vals = {st.params[1]: v}
                vals.update({k: x for k, x in env.items() if isinstance(k, tuple)})
                for k, x in self.run(st, vals, depth + 1).items():
                    env[('self', k)] = x
            else:
                env[('self', t.attr)] = v

    def keeps(self, init, p, value, field):
        """the value kept in field when p=value and every other parameter is unknown"""
        args = {q: UNK for q in init.all_params[1:]}
        args[p] = value
        return self.run(init, args).get(field, UNK)

    def accepted(self, p, fields, funcs):
        """the values p is compared with: valid options"""
        out = set()
        for f in funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                        hit = isinstance(a, ast.Name) and a.id == p and p in f.all_params or isinstance(a, ast.Attribute) and \
                            isinstance(a.value, ast.Name) and f.params and a.value.id == f.params[0] and a.attr in fields
                        if hit:
                            v = self.const(b, f, {})
                            if v is UNK:
                                continue
                            out |= set(v) if isinstance(v, tuple) else {v}
        return {v for v in out if isinstance(v, (str, bool))}
