"""Behaviour-preserving rewrites of a whole source tree, to see that the checks stay quiet on them.

    python3 tools/refactor.py <kind> <probability> <seed> <source dir> [path part ...]

rewrites every .py file under the directory in place (comments are lost). Not used by any check.
"""
import ast
import copy
import os
import random
import sys

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(node, ctx):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def simple(node):
    """No scope or control trickery inside."""
    return not any(isinstance(x, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp, ast.Starred, ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Delete,
                                  ast.Import, ast.ImportFrom)) or isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals', 'vars')
                   or isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__')
                   for x in ast.walk(node))


class Rewriter(ast.NodeTransformer):
    def __init__(self, kind, p, rng):
        self.kind, self.p, self.rng = kind, p, rng
        self.n = 0
        self.mod = ''
        self.count = 0
        self.fn = []
        self.cls = []

    def go(self):
        if self.rng.random() < self.p:
            self.count += 1
            return True
        return False

    def fresh(self, base='tmp'):
        self.n += 1
        return '%s_%d_%s' % (base, self.n, self.mod)

    # ---- scopes
    def visit_ClassDef(self, node):
        self.cls.append((node, []))
        fn, self.fn = self.fn, []
        self.generic_visit(node)
        self.fn = fn
        _, extra = self.cls.pop()
        node.body.extend(extra)
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        node.body = self.block(node.body)
        self.fn.pop()
        k = getattr(self, 'fun_' + self.kind, None)
        if k is not None:
            k(node)
        return node

    def visit_Lambda(self, node):
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            for t in (r if isinstance(r, list) else [r]):
                k = getattr(self, 'stmt_' + self.kind, None) if self.fn else None
                q = k(t) if k is not None else None
                out.extend(q if q is not None else [t])
        return out

    def generic_visit(self, node):
        for name, val in ast.iter_fields(node):
            if name in ('body', 'orelse', 'finalbody') and isinstance(val, list):
                setattr(node, name, self.block(val))
            elif isinstance(val, list):
                new = []
                for x in val:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                    new.append(x)
                setattr(node, name, new)
            elif isinstance(val, ast.AST):
                setattr(node, name, self.visit(val))
        return node

    def method(self):
        """self name if in a plain method of a class"""
        if not self.cls or len(self.fn) != 1:
            return None
        f = self.fn[0]
        if f not in self.cls[-1][0].body or f.decorator_list and any(
                isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
            return None
        return f.args.args[0].arg if f.args.args else None

    # ---- kinds
    def stmt_swapif(self, s):
        if isinstance(s, ast.If) and s.orelse and self.go():
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
            return [s]

    def stmt_returntmp(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and self.go():
            v = self.fresh('result')
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]

    def stmt_hoist(self, s):
        call = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) and isinstance(s.value, ast.Call) else None
        if call is None or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if isinstance(call.func, ast.Name) and call.func.id in ('super', 'locals', 'vars'):
            return None
        out = []

        def lift(e):
            if isinstance(e, (ast.Constant, ast.Name)) or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(e)):
                return e
            v = self.fresh('arg')
            out.append(ast.Assign([ast.Name(v, ast.Store())], e))
            return ast.Name(v, ast.Load())
        if not self.go():
            return None
        call.args = [lift(a) for a in call.args]
        for k in call.keywords:
            k.value = lift(k.value)
        return out + [s]

    def stmt_alias(self, s):
        """self.a.b(...) -> x = self.a; x.b(...)"""
        call = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) else None
        if call is None or not isinstance(call.func, ast.Attribute) or not isinstance(call.func.value, (ast.Attribute, ast.Subscript)):
            return None
        b = call.func.value
        x = b
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            x = x.value
        if not isinstance(x, ast.Name) or x.id in ('np', 'pd', 'math', 'os', 'sk', 'plt'):
            return None
        if not self.go():
            return None
        v = self.fresh('obj')
        call.func.value = ast.Name(v, ast.Load())
        return [ast.Assign([ast.Name(v, ast.Store())], b), s]

    def stmt_listcomp(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and \
                not any(isinstance(x, (ast.Lambda,)) for x in ast.walk(s.value)) and self.go():
            g = s.value.generators[0]
            v = self.fresh('items')
            old = names(g.target, ast.Store)
            sub = {o: self.fresh(o) for o in old}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(sub.get(n.id, n.id), n.ctx)
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [R().visit(s.value.elt)], []))
            for c in reversed(g.ifs):
                body = ast.If(R().visit(c), [body], [])
            return [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())),
                    ast.For(R().visit(g.target), g.iter, [body], []),
                    ast.Assign(s.targets, ast.Name(v, ast.Load()))]

    def stmt_comp(self, s):
        """for a in b: l.append(e)  ->  l.extend([e for a in b])"""
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
            c = s.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and len(c.args) == 1 and \
                    not (names(s.target, ast.Store) & names(c.func, ast.Load)):
                later = self.loads_outside(s, names(s.target, ast.Store))
                if not later and self.go():
                    return [ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [
                        ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))]

    def loads_outside(self, s, vs):
        inside = {id(x) for x in ast.walk(s)}
        return any(isinstance(x, ast.Name) and x.id in vs and id(x) not in inside for x in ast.walk(self.fn[-1]))

    def stmt_while(self, s):
        """for i in range(a[, b]) -> while"""
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) in (1, 2) and \
                not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and \
                s.target.id not in {n for y in s.body for n in names(y, ast.Store)} and not self.loads_outside(s, {s.target.id}) and self.go():
            i = s.target.id
            e = self.fresh('stop')
            a = s.iter.args
            return [ast.Assign([ast.Name(e, ast.Store())], a[-1]),
                    ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0) if len(a) == 1 else a[0]),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), s.body + [
                        ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]

    def stmt_enum(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Call) and \
                isinstance(s.iter.args[0].func, ast.Name) and s.iter.args[0].func.id == 'len' and self.go():
            s.target = ast.Tuple([s.target, ast.Name('_', ast.Store())], ast.Store())
            s.iter = ast.Call(ast.Name('enumerate', ast.Load()), s.iter.args[0].args, [])
            return [s]

    def stmt_plus1(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and isinstance(s.value, ast.Constant) and self.go():
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]

    def visit_Compare(self, node):
        self.generic_visit(node)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if self.kind == 'flip' and len(node.ops) == 1 and type(node.ops[0]) in flip and self.go():
            return ast.Compare(node.comparators[0], [flip[type(node.ops[0])]()], [node.left])
        return node

    def stmt_nestand(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and self.go():
            r = s.body
            for v in reversed(s.test.values):
                r = [ast.If(v, r, [])]
            return r

    def stmt_dropelse(self, s):
        if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.go():
            rest = s.orelse
            s.orelse = []
            return [s] + rest

    def fun_guard(self, f):
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not isinstance(s.body[-1], ast.Return) and self.go():
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body

    def stmt_ternary(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(b, ast.Assign) and len(b.targets) == 1 for b in s.body + s.orelse) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and self.go():
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]

    def stmt_unternary(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and self.go():
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]

    def stmt_unpack(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                not any(isinstance(x, ast.Starred) for x in s.targets[0].elts) and self.go():
            v = self.fresh('parts')
            return [ast.Assign([ast.Name(v, ast.Store())], s.value)] + [
                ast.Assign([t], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(i), ast.Load())) for i, t in enumerate(s.targets[0].elts)]

    def stmt_pass(self, s):
        if self.go():
            v = self.fresh('unused')
            return [s] if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) \
                else [s, ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0))]

    def fun_rename(self, f):
        if len(self.fn) or any(isinstance(x, FUNCS + (ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for b in f.body for x in ast.walk(b)):
            return
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'vars') for x in ast.walk(f)):
            return
        a = f.args
        ps = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc = names(f, ast.Store) - ps
        for x in ast.walk(f):
            if isinstance(x, ast.ExceptHandler) and x.name:
                loc.discard(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                loc -= {al.asname or al.name for al in x.names}
        if not self.go():
            return
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = 'my_' + x.id + '_'

    def stmt_exprhelper(self, s):
        """x = E -> x = self._helper(...)"""
        me = self.method()
        if me is None or not isinstance(s, (ast.Assign, ast.Return)) or s.value is None or isinstance(s.value, (ast.Constant, ast.Name)) or not simple(s.value):
            return None
        if self.fn[0].name == '__init__':
            return None
        f = self.fn[0]
        loc = (names(f, ast.Store) | {a.arg for a in f.args.args + f.args.kwonlyargs}) - {me}
        if me in names(f, ast.Store) or not self.go():
            return None
        use = sorted(names(s.value, ast.Load) & loc)
        h = '_' + self.fresh('helper') + '_' + self.cls[-1][0].name
        A = ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(u) for u in use], kwonlyargs=[], kw_defaults=[], defaults=[])
        self.cls[-1][1].append(ast.FunctionDef(h, A, [ast.Return(s.value)], [], lineno=0, type_params=[]))
        s.value = ast.Call(ast.Attribute(ast.Name(me, ast.Load()), h, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
        return [s]

    def fun_blockhelper(self, f, size=None):
        """A run of top-level statements becomes a helper method."""
        self.fn.append(f)
        me = self.method()
        self.fn.pop()
        if me is None or f.name == '__init__' or me in names(f, ast.Store) or f.decorator_list:
            return
        ok = [i for i, s in enumerate(f.body) if simple(s) and isinstance(s, (ast.If, ast.For, ast.With, ast.Assign, ast.AugAssign, ast.While, ast.Expr))
              and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not any(isinstance(x, ast.Return) for x in ast.walk(s))
              and not (isinstance(s, (ast.Assign,)) and not any(isinstance(x, ast.Call) for x in ast.walk(s)))]
        if any(isinstance(x, FUNCS + (ast.Lambda, ast.ClassDef)) for b in f.body for x in ast.walk(b)):
            return
        if not ok or not self.go():
            return
        i = self.rng.choice(ok)
        j = i + 1
        while j in ok and self.rng.random() < .5:
            j += 1
        blk = f.body[i:j]
        before = {a.arg for a in f.args.args + f.args.kwonlyargs} | {n for s in f.body[:i] for n in names(s, ast.Store)}
        stored = {n for s in blk for n in names(s, ast.Store)}
        after = {n for s in f.body[j:] for n in names(s, ast.Load)}
        load = {n for s in blk for n in names(s, ast.Load)} | {s.target.id for b in blk for s in ast.walk(b)
                                                               if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
        out = sorted(stored & after)
        sure = set()
        for s in blk:
            if isinstance(s, ast.Assign):
                sure |= names(s, ast.Store)
        if any(o not in sure and o not in before for o in out):
            return
        use = sorted(((before - {me}) & (load | set(out))))
        h = '_' + self.fresh('part') + '_' + self.cls[-1][0].name
        A = ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(u) for u in use], kwonlyargs=[], kw_defaults=[], defaults=[])
        ret = [] if not out else [ast.Return(ast.Name(out[0], ast.Load()) if len(out) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in out], ast.Load()))]
        self.cls[-1][1].append(ast.FunctionDef(h, A, blk + ret, [], lineno=0, type_params=[]))
        call = ast.Call(ast.Attribute(ast.Name(me, ast.Load()), h, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
        if not out:
            new = ast.Expr(call)
        else:
            new = ast.Assign([ast.Name(out[0], ast.Store()) if len(out) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in out], ast.Store())], call)
        f.body[i:j] = [new]

    def fun_loophelper(self, f):
        """The body of a loop becomes a helper method, when it leaves no local behind."""
        self.fn.append(f)
        me = self.method()
        self.fn.pop()
        if me is None or f.name == '__init__' or me in names(f, ast.Store) or f.decorator_list:
            return
        if any(isinstance(x, FUNCS + (ast.Lambda, ast.ClassDef)) for b in f.body for x in ast.walk(b)):
            return
        for s in [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.If, ast.While))]:
            if not all(simple(b) for b in s.body) or any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for b in s.body for x in ast.walk(b)):
                continue
            if len(s.body) == 1 and isinstance(s.body[0], (ast.Assign, ast.Raise, ast.Pass)):
                continue
            stored = {n for b in s.body for n in names(b, ast.Store)}
            inside = {id(x) for b in s.body for x in ast.walk(b)}
            if stored & {a.arg for a in f.args.args + f.args.kwonlyargs}:
                continue
            if any(isinstance(x, ast.Name) and x.id in stored and id(x) not in inside for x in ast.walk(f)):
                continue
            if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for b in s.body for x in ast.walk(b)) or not self.go():
                continue
            loc = (names(f, ast.Store) | {a.arg for a in f.args.args + f.args.kwonlyargs}) - {me} - stored
            use = sorted({n for b in s.body for n in names(b, ast.Load)} & loc)
            h = '_' + self.fresh('step') + '_' + self.cls[-1][0].name
            A = ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(u) for u in use], kwonlyargs=[], kw_defaults=[], defaults=[])
            self.cls[-1][1].append(ast.FunctionDef(h, A, s.body, [], lineno=0, type_params=[]))
            s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(me, ast.Load()), h, ast.Load()), [ast.Name(u, ast.Load()) for u in use], []))]
            return

    def fun_reorder(self, f):
        """Adjacent assignments of call-free values to different places, neither reading the other."""
        for b in [f.body] + [x.body for x in ast.walk(f) if isinstance(x, (ast.If, ast.For, ast.While, ast.With))]:
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if all(isinstance(s, ast.Assign) and not any(isinstance(z, (ast.Call, ast.Subscript, ast.Starred)) for z in ast.walk(s)) for s in (x, y)):
                    def places(s, ctx):
                        return {z.attr if isinstance(z, ast.Attribute) else z.id for z in ast.walk(s) if isinstance(z, (ast.Name, ast.Attribute)) and isinstance(z.ctx, ctx)}
                    if not places(x, ast.Store) & (places(y, ast.Load) | places(y, ast.Store)) and not places(y, ast.Store) & places(x, ast.Load) and self.go():
                        b[i], b[i + 1] = y, x
                        i += 1
                i += 1


KINDS = sorted({n.split('_', 1)[1] for n in dir(Rewriter) if n.startswith(('stmt_', 'fun_'))} | {'flip'})


def rewrite(src, kind, p, rng, mod=''):
    tree = ast.parse(src)
    R = Rewriter(kind, p, rng)
    R.mod = mod
    tree = R.visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', R.count


def main():
    kind, p, seed, root = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rng = random.Random(seed)
    n = 0
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            path = os.path.join(d, f)
            if not f.endswith('.py') or len(sys.argv) > 5 and not any(x in path for x in sys.argv[5:]):
                continue
            src = open(path).read()
            new, k = rewrite(src, kind, p, rng, os.path.relpath(path, root)[:-3].replace(os.sep, '_'))
            if k:
                open(path, 'w').write(new)
            n += k
    print('%s: %d rewrites' % (kind, n))


if __name__ == '__main__':
    main()
