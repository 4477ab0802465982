"""Counting while loops are read as the for loop they amount to, so that rules see one way of writing a loop."""
import ast


def names(nodes, ctx):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def own(body, kinds):
    """Statements of the given kinds that belong to this loop (not to one inside it, nor to a function inside it)."""
    out = []
    for s in body:
        if isinstance(s, kinds):
            out.append(s)
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            out += own(s.orelse, kinds)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            pass
        else:
            for f in ('body', 'orelse', 'finalbody'):
                out += own(getattr(s, f, []) or [], kinds)
            for h in getattr(s, 'handlers', []) or []:
                out += own(h.body, kinds)
    return out


def count_up(s):
    """Name of the variable that statement s increases by one."""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and \
            isinstance(s.value, ast.Constant) and s.value.value == 1 and not isinstance(s.value.value, bool):
        return s.target.id
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and \
            isinstance(s.value.op, ast.Add):
        n, l, r = s.targets[0].id, s.value.left, s.value.right
        if isinstance(r, ast.Name):
            l, r = r, l
        if isinstance(l, ast.Name) and l.id == n and isinstance(r, ast.Constant) and r.value == 1:
            return n
    return None


class Desugar(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        self.idle(f)
        self.block(f.body, f)
        return f

    def idle(self, f):
        """Leave out statements that do nothing: pass, bare constants and names, constants kept in a variable nobody reads."""
        read = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)} | \
               {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        dynamic = read & {'locals', 'vars', 'exec', 'eval'}

        def nothing(s):
            if isinstance(s, ast.Pass):
                return True
            if isinstance(s, ast.Expr):
                return plain(s.value)
            if isinstance(s, ast.Assert):
                return isinstance(s.test, ast.Constant) and bool(s.test.value)
            if isinstance(s, ast.If):
                return plain(s.test) and all(nothing(x) for x in s.body + s.orelse)
            if isinstance(s, ast.Delete):
                return False
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
            return bool(ts) and not dynamic and all(isinstance(t, ast.Name) and t.id not in read for t in ts) and plain(s.value)

        def plain(e):
            if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
                return all(plain(x) for x in e.elts)
            if isinstance(e, ast.Dict):
                return all(x is not None and plain(x) for x in e.keys + e.values)
            if isinstance(e, ast.UnaryOp):
                return isinstance(e.operand, ast.Constant)
            if isinstance(e, ast.Name):
                return e.id in params
            return isinstance(e, (ast.Constant, ast.Lambda))

        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - \
            {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del)}

        def clean(body):
            keep = [s for k, s in enumerate(body) if not (nothing(s) and not (body is f.body and k == 0))]
            if len(keep) < len(body):
                body[:] = keep or [ast.copy_location(ast.Pass(), body[0])]

        def walk(s):
            for n in ast.iter_child_nodes(s):
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
                    walk(n)
            for k in ('body', 'orelse', 'finalbody'):
                b = getattr(s, k, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    if k == 'body':
                        clean(b)
                    else:
                        b[:] = [x for x in b if not nothing(x)]
        walk(f)

    def block(self, body, f):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for a in ('body', 'orelse', 'finalbody'):
                b = getattr(s, a, None)
                if isinstance(b, list):
                    self.block(b, f)
            for h in getattr(s, 'handlers', []) or []:
                self.block(h.body, f)
        for k, s in enumerate(body):
            if isinstance(s, ast.While):
                r = self.loop(body, k, s, f)
                if r is not None:
                    body[k] = r

    def loop(self, body, k, s, f):
        if s.orelse or len(s.body) < 2 or not isinstance(s.test, ast.Compare) or len(s.test.ops) != 1:
            return None
        i = count_up(s.body[-1])
        if i is None:
            return None
        l, op, r = s.test.left, s.test.ops[0], s.test.comparators[0]
        if isinstance(r, ast.Name) and r.id == i and isinstance(op, (ast.Gt, ast.NotEq)):
            l, r, op = r, l, ast.Lt()
        if not (isinstance(l, ast.Name) and l.id == i and isinstance(op, (ast.Lt, ast.NotEq))):
            return None
        rest = s.body[:-1]
        if i in names(rest, (ast.Store, ast.Del)) or own(rest, (ast.Continue,)):
            return None
        if names([r], ast.Load) & names(s.body, (ast.Store, ast.Del)):
            return None
        # the bound must not be changed by the loop: a name, a number, len() or a call on something the loop does not grow
        grown = {ast.dump(c.func.value) for x in rest for c in ast.walk(x) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                 and c.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'popleft', 'appendleft', 'clear', 'add', 'discard')}
        if any(ast.dump(x) in grown for x in ast.walk(r)):
            return None
        stored = {n.attr for x in rest for n in ast.walk(x) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if any(isinstance(x, ast.Attribute) and x.attr in stored for x in ast.walk(r)):
            return None
        start = None
        for p in reversed(body[:k]):
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i:
                start = p.value
                break
            if i in names([p], (ast.Store, ast.Del)):
                break
        if not (isinstance(start, ast.Constant) and isinstance(start.value, int) and not isinstance(start.value, bool)):
            return None
        if self.used_after(f, s, i):
            return None
        args = [r] if start.value == 0 else [start, r]
        it = ast.Call(func=ast.Name('range', ast.Load()), args=args, keywords=[])
        n = ast.For(target=ast.Name(i, ast.Store()), iter=it, body=rest, orelse=[], type_comment=None)
        return ast.fix_missing_locations(ast.copy_location(n, s))

    @staticmethod
    def used_after(f, s, i):
        inside = set(map(id, ast.walk(s)))
        events = sorted([(n.lineno, n.col_offset, 0 if isinstance(n.ctx, ast.Load) else 1) for n in ast.walk(f)
                         if isinstance(n, ast.Name) and n.id == i and id(n) not in inside and (n.lineno, n.col_offset) > (s.end_lineno, 0)])
        return bool(events) and events[0][2] == 0
