"""Iteration over a set of strings: the order differs from process to process (hash randomisation)."""
import ast

SETOPS = ('union', 'intersection', 'difference', 'symmetric_difference')
WRAP = ('set', 'frozenset', 'list', 'tuple', 'sorted', 'reversed', 'iter')
UNORDERED_USE = ('sorted', 'len', 'set', 'frozenset', 'any', 'all', 'min', 'max', 'bool')
ORDERED_USE = ('list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter', 'next', 'reversed', 'dict')
ORDERED_EXT = ('numpy.array', 'numpy.asarray', 'numpy.fromiter', 'pandas.DataFrame', 'pandas.Series')


class SetOrder:
    def __init__(self, prog):
        self.prog = prog
        self.attrs = {}

    # -- which collections hold strings
    def attr_strings(self, c):
        if c not in self.attrs:
            self.attrs[c] = got = set()
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and m.params:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.params[0] and \
                                    self.strings(n.value, m, {}):
                                got.add(t.attr)
        return self.attrs[c]

    def string(self, e):
        return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str) or \
            isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id == 'str' or
                                         isinstance(e.func, ast.Attribute) and e.func.attr == 'format') or \
            isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)) and self.string(e.left)

    def const_strings(self, f, e):
        b = self.prog.resolve_expr(f.module, e)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.prog.resolve_expr(f.module, e.value)
            if b and b[0] == 'mod' and b[1].endswith('constants') and e.attr.isupper():
                return True
        return False

    def strings(self, e, f, env, depth=0):
        if depth > 6 or e is None:
            return False

        def st(x):
            return self.strings(x, f, env, depth + 1)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return any(self.string(x) or isinstance(x, ast.Starred) and st(x.value) or self.const_strings(f, x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return any(k is not None and self.string(k) for k in e.keys)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.string(e.elt) or isinstance(e.elt, ast.Name) and any(
                isinstance(g.target, ast.Name) and g.target.id == e.elt.id and st(g.iter) for g in e.generators)
        if isinstance(e, ast.BinOp):
            return st(e.left) or st(e.right)
        if isinstance(e, ast.IfExp):
            return st(e.body) or st(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(st(v) for v in e.values)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in WRAP and e.args:
                return st(e.args[0])
            if isinstance(e.func, ast.Attribute):
                return e.func.attr == 'split' or e.func.attr in SETOPS + ('copy', 'keys', 'tolist') and \
                    (st(e.func.value) or any(st(a) for a in e.args))
            return False
        if isinstance(e, ast.Name):
            if e.id in env:
                return any(self.strings(v, f, {k: x for k, x in env.items() if k != e.id}, depth + 1) for v in env[e.id])
            return e.id in f.all_params and (e.id == 'metrics' or e.id.endswith('_names')) or self.const_strings(f, e)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
                return e.attr == 'metrics' or e.attr.endswith('_names') or any(e.attr in self.attr_strings(k) for k in f.cls.mro())
            return self.const_strings(f, e)
        return False

    # -- which expressions are sets
    def is_set(self, e, f, env, depth=0):
        if depth > 6:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
                return True
            return isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS + ('copy',) and self.is_set(e.func.value, f, env, depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left, f, env, depth + 1) or self.is_set(e.right, f, env, depth + 1)
        if isinstance(e, (ast.IfExp,)):
            return self.is_set(e.body, f, env, depth + 1) or self.is_set(e.orelse, f, env, depth + 1)
        if isinstance(e, ast.Name):
            return any(self.is_set(v, f, {k: x for k, x in env.items() if k != e.id}, depth + 1) for v in env.get(e.id, ()))
        return False

    def check(self, f):
        env, parents = {}, {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        env.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                env.setdefault(n.target.id, []).append(n.value)
        out = []

        def hot(e):
            return self.is_set(e, f, env) and self.strings(e, f, env)

        def plain(b):
            """a loop body in which the order of the elements cannot matter"""
            for n in b:
                for x in ast.walk(n):
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.Return, ast.Yield, ast.Break)):
                        return False
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in (
                            'add', 'discard', 'format', 'startswith', 'endswith', 'lower', 'upper'):
                        return False
            return True
        n_sets = 0
        for n in ast.walk(f.node):
            e = None
            if isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset'):
                n_sets += 1
            if isinstance(n, ast.For):
                if not plain(n.body):
                    e = n.iter
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                p = parents.get(n)
                if isinstance(n, ast.GeneratorExp) and isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in UNORDERED_USE:
                    continue
                if isinstance(n, ast.ListComp) and isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in UNORDERED_USE:
                    continue
                e = n.generators[0].iter
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ORDERED_USE:
                    p = parents.get(n)
                    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in UNORDERED_USE:
                        continue
                    e = next((a for a in n.args if hot(a)), None)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args:
                    e = n.func.value
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'extend') and n.args:
                    e = n.args[0]
                elif n.args:
                    b = self.prog.resolve_expr(f.module, n.func)
                    if b and b[0] == 'ext' and b[1] in ORDERED_EXT:
                        e = n.args[0]
            elif isinstance(n, ast.Starred):
                e = n.value
            if e is not None and hot(e):
                out.append((n, ast.unparse(e)[:60]))
        return n_sets, out
