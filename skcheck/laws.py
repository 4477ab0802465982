"""Update laws: what a method must leave behind, written down as a reference class, and compared with what the source computes.

Both the method in /repo and its reference in lawbook/ are summarised by the term engine (every path: conditions and final value
of every field and of the result, as terms over the state before the call).  The two summaries are then compared by value
numbering with random interpretation (Gulwani & Necula): state fields, parameters and uninterpreted functions are given random
values, arithmetic is interpreted, and two terms are told apart when their values are.  Terms of the source are evaluated, its
code is not run.  A term the engine cannot express, or a field the reference does not know, leaves the point undecided."""
import ast
import hashlib
import math
import os
import random

from .model import Program
from .terms import mentions, subst, TooManyPaths, subterms
from .rules.c22 import MetricWalker

SELF = ('self',)
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lawbook')
_book = []


def book():
    if not _book:
        _book.append(Program(HERE))
    return _book[0]


class Unknown(Exception):
    pass


class Tie(Exception):
    pass


class Token:
    """An uninterpreted value; equal to what was built the same way."""
    __slots__ = ('h',)

    def __init__(self, *parts):
        self.h = hashlib.md5(repr([p.h if isinstance(p, Token) else canon(p) for p in parts]).encode()).hexdigest()

    def num(self):
        return (int(self.h[:12], 16) + 1) / float(16 ** 12 + 2)


class Map(Token):
    """A container by what it holds."""


def canon(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, int, float)):
        return '%.9g' % v if math.isfinite(v) else repr(float(v))
    if isinstance(v, tuple):
        return tuple(x.h if isinstance(x, Token) else canon(x) for x in v)
    return repr(v)


def num(v):
    if isinstance(v, Token):
        return v.num()
    if isinstance(v, str):
        if v in ('inf', '-inf', 'nan', '+inf'):
            return float(v)
        raise Unknown
    if v is None or isinstance(v, tuple):
        raise Unknown
    return v


def intish(v):
    return isinstance(v, int) or isinstance(v, float) and math.isfinite(v) and v == int(v) and abs(v) < 1e9


def order(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            raise Tie
        if not (intish(a) and intish(b)) and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)):
            raise Tie


def same(a, b):
    if isinstance(a, Map) != isinstance(b, Map):
        raise Unknown
    if isinstance(a, Token) or isinstance(b, Token):
        if isinstance(a, Token) and isinstance(b, Token):
            return a.h == b.h
        x = a if isinstance(a, Token) else b
        y = b if isinstance(a, Token) else a
        return isinstance(y, (int, float)) and not isinstance(y, bool) and abs(x.num() - y) < 1e-9
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        try:
            return a == b or num(a) == num(b)
        except Unknown:
            return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(map(same, a, b))
    a, b = float(a), float(b)
    if math.isnan(a) and math.isnan(b) or a == b:
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def _log(x, base=None):
    return math.log(x) if base is None else math.log(x) / math.log(base)


FUNCS = {
    'sqrt': math.sqrt, 'log': _log, 'ln': _log, 'log2': math.log2, 'log10': math.log10, 'exp': math.exp, 'expm1': math.expm1, 'log1p': math.log1p, 'abs': abs,
    'absolute': abs, 'fabs': abs, 'pow': pow, 'power': pow, 'square': lambda x: x * x, 'floor': math.floor, 'ceil': math.ceil, 'bool': bool,
    'maximum': max, 'minimum': min, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'arctan': math.atan, 'erf': math.erf,
    'float': float, 'sign': lambda x: (x > 0) - (x < 0), 'isnan': math.isnan, 'isinf': math.isinf, 'subtract': lambda a, b: a - b, 'add': lambda a, b: a + b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b, 'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
    'logical_not': lambda a: not a, 'negative': lambda a: -a, 'hypot': math.hypot, 'float64': float,
}
CONSTS = {'pi': math.pi, 'e': math.e, 'inf': math.inf, 'Inf': math.inf, 'Infinity': math.inf, 'nan': math.nan, 'NaN': math.nan}


class Point:
    """One random interpretation."""

    def __init__(self, seed, ranges, new):
        self.seed, self.ranges, self.new = seed, ranges, new
        self.vals = {}

    def leaf(self, key):
        if key not in self.vals:
            rng = random.Random('%s|%s' % (self.seed, key))
            r = self.ranges.get(key, self.ranges.get(key.split('.')[-1]))
            if r == 'opaque':
                r = Token('leaf', key, self.seed)
            elif callable(r):
                r = r(self, rng)
            elif isinstance(r, tuple):
                lo, hi = r
                r = rng.randint(lo, hi) if isinstance(lo, int) and isinstance(hi, int) else rng.uniform(lo, hi)
            elif isinstance(r, list):
                r = rng.choice(r)
                r = Token('leaf', key, self.seed) if r == 'opaque' else r
            elif r is None:
                r = rng.uniform(0.02, 0.98)
            self.vals[key] = r
        return self.vals[key]


class Eval:
    def __init__(self, side, point, bound=None):
        self.side, self.pt = side, point
        self.bound = bound or {}
        self.state = None
        self.memo = {}
        self.keep = []

    def __call__(self, t):
        k = id(t)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Exception):
                raise v
            return v
        self.keep.append(t)
        try:
            v = self.ev(t)
        except (Unknown, Tie) as x:
            self.memo[k] = x
            raise
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            v = math.nan
        if isinstance(v, complex):
            v = math.nan
        self.memo[k] = v
        return v

    def ev(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'param':
            n = self.side.params.get(t[1])
            if n is None:
                raise Unknown
            return self.pt.leaf('param ' + n)
        if k == 'attr':
            p = path(t)
            if p is not None:
                return self.side.field(p, self.pt, self)
            b = t[1]
            if b == ('mod',) or b[0] == 'attr' and path(b) is None and root(b) == ('mod',):
                if t[2] in CONSTS:
                    return CONSTS[t[2]]
                return Token('mod', t[2])
            if b[0] == 'call' and b[1] in self.pt.new:
                if t[2] in self.pt.new[b[1]]:
                    return self.pt.new[b[1]][t[2]]
                raise Unknown
            return self.fn('attr ' + t[2], [self(b)])
        if k == 'op':
            return self.op(t)
        if k == 'self':
            return Token('self')
        if k == 'wrap':
            return (self(t[1]),)
        if k == 'tuple':
            return tuple(self(x) for x in t[1:])
        if k == 'rows':
            return self(t[1])
        if k == 'len':
            return self.count(self(t[1]))
        if k == 'elem':
            b, i = self(t[1]), self(t[2])
            if isinstance(b, tuple) and isinstance(i, int) and not isinstance(i, bool) and -len(b) <= i < len(b):
                return b[i]
            key = 'elem %s' % text(t, self.side.params)
            r = self.pt.ranges.get(key, self.pt.ranges.get('elem %s[]' % text(t[1], self.side.params)))
            if isinstance(r, list):
                return random.Random('%s|%s' % (self.pt.seed, Token('elem', b, i).h)).choice(r)
            if r is not None:
                return self.pt.leaf(key)
            return self.fn('elem', [b, i])
        if k == 'call':
            return self.call(t)
        if k == 'watch':
            r = self.pt.ranges.get('watch ' + t[1])
            if r is not None:
                return r(self.pt, Token('watch', t[1], *[self(x) for x in t[3:]]))
            return Token('watch', t[1], *[self(x) for x in t[3:]])
        if k == 'idx':
            if t[1] in self.bound:
                return self.bound[t[1]]
            L = self.side.W.loops.get(t[1])
            if L is None or L.domain is None:
                raise Unknown
            return Token('idx', self(L.domain[1]) if L.domain[0] == 'rows' else self(L.domain))
        if k in ('slice', 'column', 'sl'):
            return self.fn(k, [self(x) for x in t[1:]])
        if k == 'obj' and self.state is not None:
            return self.content(t)
        if k == 'comp' and self.side.W.unroll:
            L = self.side.W.loops.get(t[1])
            n = self(('len', L.domain)) if L is not None and L.domain is not None else None
            if not isinstance(n, int) or n > 8:
                raise Unknown
            out = []
            for i in range(n):
                out.append(self.within(t[1], i)(t[2]))
            return tuple(out)
        raise Unknown

    def within(self, loop, k):
        """The same in round k of a loop."""
        e = Eval(self.side, self.pt, {**self.bound, loop: k})
        e.state = self.state
        return e

    def content(self, o):
        """What a container made on this path holds where the path ends."""
        W, s = self.side.W, self.state
        if not W.unroll or self.side.mutates or o not in W.kinds:
            raise Unknown
        seq, cells = [], {}
        for path_, how, v, lp in [tuple(c) + ((),) * (4 - len(c)) for c in s.objs.get(o, ())]:
            if lp or how not in ('app', 'set') or how == 'app' and path_:
                raise Unknown
            if how == 'app':
                seq.append(self(v))
            else:
                cells[tuple(map(self.key, path_))] = self(v)
        for e in s.trace:
            if e.name != '!store' or not any(x == o for x in subterms(e.recv)):
                continue
            r, keys = e.recv, [e.args[0]]
            while r[0] == 'elem':
                r, keys = r[1], [r[2]] + keys
            if r != o or e.loops or seq:
                raise Unknown
            v = e.args[1]
            if any(x == o for x in subterms(v)):
                raise Unknown
            cells[tuple(map(self.key, keys))] = self(v)
        if seq and cells:
            raise Unknown
        if not cells and W.kinds[o] is not ast.Dict:
            return tuple(seq)
        if seq:
            raise Unknown
        return Map(*[Token('cell', k, cells[k]) for k in sorted(cells)])

    def key(self, t):
        v = self(t)
        return v.h if isinstance(v, Token) else repr(canon(v))

    def count(self, v):
        if isinstance(v, tuple):
            return len(v)
        if not isinstance(v, Token):
            raise Unknown
        r = self.pt.ranges.get('len', (0, 12))
        if isinstance(r, list):
            return r[int(v.h[12:20], 16) % len(r)]
        lo, hi = r
        return lo + int(v.h[12:20], 16) % (hi - lo + 1)

    def fn(self, name, args):
        if name not in self.side.symbols:
            raise Unknown
        t = Token(name, *args)
        r = self.pt.ranges.get(name, self.pt.ranges.get(name.replace('call .', 'call ')))
        return random.Random('%s|%s' % (self.pt.seed, t.h)).choice(r) if isinstance(r, list) else t

    def op(self, t):
        o = t[1]
        if o == 'And':
            for x in t[2:]:
                v = self(x)
                if not self.truth(v):
                    return v
            return v
        if o == 'Or':
            for x in t[2:]:
                v = self(x)
                if self.truth(v):
                    return v
            return v
        if o == 'Not':
            return not self.truth(self(t[2]))
        if o in ('Is', 'IsNot'):
            a, b = self(t[2]), self(t[3])
            r = a is b or same(a, b) and type(a) is type(b)
            return r if o == 'Is' else not r
        if o in ('Eq', 'NotEq'):
            a, b = self(t[2]), self(t[3])
            if isinstance(a, Token) and isinstance(b, Token) and a.h != b.h:
                r = Token('eq', *sorted((a.h, b.h))).num() < 0.5
                return r if o == 'Eq' else not r
            try:
                x, y = num(a), num(b)
                order(x, y)
                r = x == y
            except Unknown:
                r = same(a, b)
            return r if o == 'Eq' else not r
        if o in ('Lt', 'LtE', 'Gt', 'GtE'):
            a, b = num(self(t[2])), num(self(t[3]))
            order(a, b)
            return a < b if o == 'Lt' else a <= b if o == 'LtE' else a > b if o == 'Gt' else a >= b
        if o in ('In', 'NotIn'):
            a, b = self(t[2]), self(t[3])
            if isinstance(b, tuple):
                r = any(same(a, x) for x in b)
            else:
                r = self.fn('in', [a, b]).num() < 0.5
            return r if o == 'In' else not r
        if o == 'USub':
            return -num(self(t[2]))
        if o == 'UAdd':
            return num(self(t[2]))
        if len(t) != 4:
            raise Unknown
        a, b = num(self(t[2])), num(self(t[3]))
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Mult':
            return a * b
        if o == 'Div':
            return a / b
        if o == 'FloorDiv':
            return a // b
        if o == 'Mod':
            return a % b
        if o == 'Pow':
            return a ** b if abs(a) < 1e6 and abs(b) < 64 else math.nan
        raise Unknown

    def truth(self, v):
        if isinstance(v, Token):
            return v.num() < 0.5
        return bool(v)

    def call(self, t):
        n, args = t[1], t[2:]
        if n in ('max', 'min') and args:
            v = [self(x) for x in args]
            if len(v) == 1:
                v = list(v[0]) if isinstance(v[0], tuple) else None
                if v is None:
                    return self.fn('call ' + n, [self(args[0])])
            return (max if n == 'max' else min)([num(x) for x in v])
        if n in ('int', 'int64', 'bool_', 'float64', 'float') and len(args) == 1:
            v = self(args[0])
            return v if isinstance(v, Token) else float(v) if 'float' in n else int(num(v))
        if n in FUNCS:
            v = [self(x) for x in args]
            if all(not isinstance(x, tuple) for x in v) and not (n.startswith('logical') and any(isinstance(x, Token) for x in v)):
                try:
                    return FUNCS[n](*[num(x) for x in v])
                except TypeError:
                    pass
            return self.fn('call ' + n, v)
        return self.fn('call ' + n, [self(x) for x in args])


def root(t):
    while t[0] == 'attr':
        t = t[1]
    return t


def path(t):
    """('a', 'b') for self.a.b"""
    out = []
    while t[0] == 'attr':
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out)) if t == SELF and out else None


def text(t, names={}):
    if t[0] == 'elem':
        return '%s[%s]' % (text(t[1], names), text(t[2], names))
    p = path(t) if t[0] == 'attr' else None
    return '.'.join(p) if p else repr(t[1]) if t[0] == 'c' else names.get(t[1], t[1]) if t[0] == 'param' else '?'


DRAWS = {'rand', 'randn', 'randint', 'normal', 'uniform', 'random_sample', 'choice', 'permutation', 'poisson', 'binomial', 'random', 'standard_normal'}


class LawWalker(MetricWalker):
    def __init__(self, prog, cls, opaque):
        super().__init__(prog, cls)
        self.opaque = set(opaque)
        self.unroll = 0
        self.tries = set()
        self.kinds = {}

    def s_For(self, s, st):
        """With unroll set, passes of 0, 1 .. unroll rounds are told apart by the length of what is gone through."""
        if not self.unroll:
            return super().s_For(s, st)
        out = []
        for it, a in self.ev(s.iter, st):
            L, bind = self.loop_over(it, s, a)
            n = self.rounds_of(it, a)
            known = [k for k in range(self.unroll + 1) if a.facts.get(('op', 'Eq', n, ('c', k)))]
            if n[0] == 'c' and isinstance(n[1], int) and n[1] <= 8:
                known = [n[1]]
            for k in known or range(self.unroll + 1):
                b = a.copy()
                if n[0] != 'c':
                    b.facts[('op', 'Eq', n, ('c', k))] = True
                cur = [b]
                for j in range(k):
                    nxt = []
                    for c in cur:
                        x = subst(bind, L.id, ('c', j))
                        if x[0] == 'elem' and bind[0] == 'elem' and x[2] == ('c', j):
                            x = self.elem(x[1], x[2], c)
                        self.assign(s.target, x, c)
                        for how, d in self.block(s.body, [c]):
                            if how in ('fall', 'continue'):
                                nxt.append(d)
                            else:
                                out.append(('fall' if how == 'break' else how, d))
                    cur = [d for _, d in self.dedupe([('fall', d) for d in nxt])]
                for c in cur:
                    out.extend(self.block(s.orelse, [c]) if s.orelse else [('fall', c)])
        return self.dedupe(out)

    def rounds_of(self, it, st):
        if it[0] == 'call' and it[1] == 'range':
            a = it[2:]
            n = a[0] if len(a) == 1 else ('op', 'Sub', a[1], a[0]) if len(a) == 2 else ('unk', 0)
            return self.rounds_of(n[1], st) if n[0] == 'len' else n
        while it[0] == 'call' and len(it) > 2 and self.through(it):
            it = it[2]
        if it[0] == 'rows':
            return self.rounds_of(it[1], st)
        if it[0] == 'tuple':
            return ('c', len(it) - 1)
        if it[0] == 'op' and it[1] == 'Mult' and len(it) == 4 and it[2][0] == 'wrap':
            return self.rounds_of(it[3][1], st) if it[3][0] == 'len' else it[3]
        return ('len', it)

    @staticmethod
    def through(it):
        return isinstance(it[1], str) and it[1].lstrip('.') in ('enumerate', 'reversed', 'sorted', 'iter', 'list', 'tuple', 'items', 'keys', 'values', 'zip')

    def s_Try(self, s, st):
        """Only runs in which nothing is raised are compared, and only where both sides expect something at as many places."""
        self.tries.add(id(s))
        out = []
        for how, a in self.block(s.body, [st]):
            out.extend(self.block(s.orelse, [a]) if how == 'fall' and s.orelse else [(how, a)])
        if s.finalbody:
            out = [(how if h2 == 'fall' else h2, b) for how, a in out for h2, b in self.block(s.finalbody, [a])]
        return out

    def loop_over(self, it, node, st):
        if self.unroll and it[0] == 'call' and len(it) == 3 and isinstance(it[1], str) and \
                it[1].lstrip('.') in ('items', 'keys', 'values', 'sorted', 'list', 'tuple'):
            L, k = super().loop_over(it[2], node, st)
            how = it[1].lstrip('.')
            if how == 'sorted':
                return L, self.elem(it, ('idx', L.id), st)
            v = self.elem(it[2], k, st)
            return L, ('tuple', k, v) if how == 'items' else v if how == 'values' else k
        if it[0] == 'call' and it[1] == 'range':
            a = it[2:]
            if len(a) == 3 and a[2] == ('c', 1):
                a = a[:2]
            if len(a) == 2 and a[0] != ('c', 0):
                n = ('op', 'Sub', a[1], a[0])
                if all(x[0] == 'c' and isinstance(x[1], int) for x in a):
                    n = ('c', a[1][1] - a[0][1])
                L, i = super().loop_over(('call', 'range', n), node, st)
                return L, ('op', 'Add', a[0], i)
        return super().loop_over(it, node, st)

    def s_While(self, s, st):
        """Only runs with at most one round are compared: what a further round starts from is a state as good as any other."""
        out = []
        for v, b in self.cond(s.test, st):
            if not v:
                out.extend(self.block(s.orelse, [b]) if s.orelse else [('fall', b)])
                continue
            for how, c in self.block(s.body, [b]):
                if how in ('fall', 'continue'):
                    for w, d in self.cond(s.test, c):
                        if w:
                            d.fld[(('draw',), 'again')] = ('c', True)
                        out.append(('raise' if w else 'fall', d))
                else:
                    out.append(('fall' if how == 'break' else how, c))
        return self.dedupe(out)

    def plain_call(self, e, name, recv, args, kw, st):
        if name in DRAWS and recv is not None and any(x[0] == 'attr' and 'random' in x[2] or x[0] == 'call' and x[1] == 'check_random_state'
                                                      for x in subterms(recv)):
            k = st.fld.get((('draw',), 'n'), ('c', 0))
            st.fld[(('draw',), 'n')] = ('c', k[1] + 1)
            return super().plain_call(e, name, recv, tuple(args) + (k,), kw, st)
        if name == 'eval' and len(args) == 1 and args[0][0] == 'elem':
            names = self.names_listed(args[0][1])
            if names and all(x in st.env for x in names):
                return self.elem(('tuple',) + tuple(st.env[x] for x in names), args[0][2], st)
        if name is None and isinstance(e, ast.Call):
            # a callee that is itself computed belongs to the value
            got = self.ev(e.func, st)
            if len(got) == 1:
                args = (got[0][0],) + tuple(args)
        return super().plain_call(e, name, recv, args, kw, st)

    def newobj(self, e, st):
        o = super().newobj(e, st)
        self.kinds[o] = type(e)
        return o

    def domain_of_len(self, n):
        return super().domain_of_len(n) or ('rows', n)

    def names_listed(self, t):
        """The strings an attribute is set to, where it is set to one list only."""
        if t[0] != 'attr' or t[1] != SELF or self.cls is None:
            return None
        got = [x.value for k in self.cls.mro() for x in ast.walk(k.node) if isinstance(x, ast.Assign) and any(
            isinstance(y, ast.Attribute) and y.attr.lstrip('_') == t[2].lstrip('_') and isinstance(y.value, ast.Name) and y.value.id == 'self' for y in x.targets)]
        got = [x for x in got if not isinstance(x, (ast.Constant, ast.Name))]
        if len(got) == 1 and isinstance(got[0], (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in got[0].elts):
            return [x.value for x in got[0].elts]
        return None

    def elem(self, b, i, st):
        # what this very pass has put there
        for e in reversed(st.trace):
            if e.name == '!store' and e.recv == b:
                if len(e.args) == 2 and e.args[0] == i and tuple(e.loops) == tuple(self.active(st))[:len(e.loops)]:
                    return e.args[1]
                if len(e.args) == 2 and e.args[0][0] == i[0] == 'c':
                    continue
                break
        return super().elem(b, i, st)

    def resolve(self, recv, name):
        return None if name in self.opaque else super().resolve(recv, name)


class Side:
    """The summary of one method."""

    def __init__(self, prog, cls, f, names=None, opaque=(), watch=(), unroll=0):
        self.prog, self.cls, self.f = prog, cls, f
        W = LawWalker(prog, cls, opaque)
        W.watch = set(watch)
        W.unroll = unroll
        self.W = W
        W.inline_ok = lambda g: True
        self.mutates = self.reached(cls, f) & {'update', 'setdefault', 'pop', 'popitem', 'remove', 'clear', 'insert', 'extend', 'sort', 'reverse'}
        self.paths = [('again' if (('draw',), 'again') in s.fld else how, s) for how, s in W.run(f)]
        pos = [p for p in f.all_params if not (f.params and p == f.params[0] and not f.static and f.cls is not None)]
        self.params = dict(zip(pos, names if names is not None else pos))
        self.names = pos
        self.consts = {}
        if cls is not None:
            for k in reversed(cls.mro()):
                for s in k.node.body:
                    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.UnaryOp)):
                        try:
                            v = ast.literal_eval(s.value)
                        except ValueError:
                            continue
                        for x in s.targets:
                            if isinstance(x, ast.Name):
                                self.consts[x.id] = v
        self.known = None
        self.nested = False
        self.symbols = None

    @staticmethod
    def reached(cls, f):
        """Names called in the method and in what it calls of its own class or module."""
        names, todo, seen = set(), [f], set()
        while todo:
            g = todo.pop()
            if g is None or id(g) in seen:
                continue
            seen.add(id(g))
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ''
                    names.add(n)
                    todo.append(find(cls, n))
        return names

    def terms(self):
        for L in self.W.loops.values():
            if L.domain is not None:
                yield L.domain[1] if L.domain[0] == 'rows' else L.domain
        for how, s in self.paths:
            for n in s.facts:
                if n != 'loops':
                    yield n
            for (b, a), v in s.fld.items():
                yield ('attr', b, a)
                yield v
            if s.ret is not None:
                yield s.ret
            for e in s.trace:
                for x in (e.recv,) + tuple(e.args) + tuple(e.kw.values()):
                    if isinstance(x, tuple):
                        yield x

    def vocabulary(self):
        fields, symbols = set(), set()
        for t in self.terms():
            for x in subterms(t):
                if x[0] == 'attr':
                    p = path(x)
                    if p:
                        fields.add(p)
                    else:
                        symbols.add('attr ' + x[2])
                elif x[0] == 'call':
                    symbols.add('call ' + str(x[1]))
                elif x[0] in ('elem', 'slice', 'column', 'sl'):
                    symbols.add(x[0])
                elif x[0] == 'op' and x[1] in ('In', 'NotIn'):
                    symbols.add('in')
        return fields, symbols

    def field(self, p, pt, ev):
        if len(p) == 1 and p[0] in self.consts:
            return self.consts[p[0]]
        if self.known is not None and p not in self.known and not (len(p) > 1 and p[:-1] in self.known and 'attr ' + p[-1] in self.symbols):
            raise Unknown
        return pt.leaf('.'.join(p))

    def events(self, s, ev):
        """Recorded calls and stores of a path, as values; order does not count."""
        out = []
        for e in s.trace:
            if e.name == '!iter':
                continue
            if any(self.W.loops[l].domain is None for l in e.loops):
                raise Unknown
            if e.name == '!store' and len(e.args) == 2:
                if self.W.unroll and root(e.recv)[0] == 'obj':
                    continue    # it counts for what the container is used for
                out.extend(self.cells(e, ev))
                continue
            evs = [ev]
            for l in e.loops if self.W.unroll else ():
                d = self.W.loops[l].domain
                n = ev(('len', d))
                if not isinstance(n, int) or n > 8:
                    raise Unknown
                evs = [x.within(l, k) for x in evs for k in range(n)]
            for w in evs:
                v = [w(x) if isinstance(x, tuple) else x for x in (e.recv,) + tuple(e.args) + tuple(x for _, x in sorted(e.kw.items()))]
                out.append(Token('event', e.name, len(e.loops) if self.nested else 0, *v).h)
        return sorted(out)

    def cells(self, e, ev):
        """A store, cell by cell: passes over a known number of places and rows given at once are spelt out."""
        recv, key, val = e.recv, e.args[0], e.args[1]
        keys = list(key[1:]) if key[0] == 'tuple' else [key]
        while recv[0] == 'elem':
            recv, keys = recv[1], [recv[2]] + keys
        wide = recv[0] == 'call' and recv[1] == 'zeros' and len(recv) > 2 and recv[2][0] == 'tuple' and len(recv[2]) == 3
        evs = [ev]
        for L in reversed(e.loops):
            if not mentions(keys[-1], ('idx', L)) or wide and len(keys) == 1:
                continue
            d = self.W.loops[L].domain
            n = ev(d[1] if d[0] == 'rows' else d)
            if isinstance(n, (int, float)) and not isinstance(n, bool) and n == int(n) and 0 <= n <= 64:
                evs = [ev.within(L, k) for k in range(int(n))]
            break
        for v in evs:
            last = keys[-1]
            width = num(v(recv[2][2])) if wide else None
            whole = last == ('all',) or len(keys) == 1 and width is not None
            lead = keys if len(keys) == 1 and width is not None else keys[:-1]
            x = v(val)
            if whole or last[0] == 'sl':
                lo = 0 if whole or last[1] == ('c', None) else v(last[1])
                if not isinstance(x, tuple) or not isinstance(lo, int):
                    raise Unknown
                cells = [(lo + k, y) for k, y in enumerate(x)]
            else:
                cells = [(v(last), x)]
            for k, y in cells:
                if isinstance(k, (int, float)) and k < 0 and width is not None:
                    k = width + k
                yield Token('event', e.name, v(recv), *([v(q) for q in lead] + [k, y])).h

    def taken(self, ev):
        """The path whose conditions hold."""
        hit = None
        for how, s in self.paths:
            ok = True
            for n, v in s.facts.items():
                if n == 'loops':
                    continue
                if ev.truth(ev(n)) != v:
                    ok = False
                    break
            if ok:
                if hit is not None:
                    raise Unknown
                hit = (how, s)
        if hit is None:
            raise Unknown
        return hit


def find(c, name):
    g = c.find_any(name) if c is not None else None
    return g[1] if isinstance(g, tuple) else g


def read(s, p):
    b = SELF
    for a in p:
        v = s.fld.get((b, a))
        b = v if v is not None else ('attr', b, a)
    return b


def whiles(f):
    return sum(isinstance(x, ast.While) for x in ast.walk(f.node))


def compare(prog, res, cname, mname, ranges=None, new=None, n=600, skip=(), law=None, opaque=(), watch=(), bname=None, count='law_obligations', quiet=False,
            unroll=0, within='', also=(), nested=False):
    """Compare cname.mname of the source with the reference of the same name."""
    B = book()
    rc = B.cls(law or cname) if cname else None
    c = prog.cls(cname) if cname else None
    if within:
        c = next((k for k in prog.classes if k.name == cname and '/%s/' % within in k.module.rel), None)
    if cname is None:
        f = next((g for g in prog.funcs if g.cls is None and g.name == mname), None)
        rf = next(g for g in B.funcs if g.cls is None and g.name == (bname or mname))
    else:
        f, rf = find(c, mname), find(rc, bname or mname)
    what = '%s%s.%s' % (within and within + '.', cname, mname) if cname else mname
    if f is None:
        res.count('laws_without_method')
        return None
    res.count('laws')
    try:
        R = Side(B, rc, rf, opaque=opaque, watch=watch, unroll=unroll)
        C = Side(prog, c, f, R.names, opaque=opaque, watch=watch, unroll=unroll)
    except TooManyPaths:
        res.count('laws_undecided')
        return None
    fields, symbols = R.vocabulary()
    cf, cs = C.vocabulary()
    if len(C.names) != len(R.names) or len(C.W.tries) != len(R.W.tries):
        res.count('laws_undecided')
        return None
    for x in ast.walk(rc.node if rc is not None else rf.node):
        if isinstance(x, ast.Attribute):
            symbols |= {'attr ' + x.attr, 'call .' + x.attr, 'call ' + x.attr}
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            symbols.add('call ' + x.func.id)
    symbols |= set(also)
    R.nested = C.nested = nested
    R.symbols = C.symbols = symbols
    C.known = fields
    bases = {p[:-1] for p in fields if len(p) > 1}
    outs = sorted(p for p in fields if p not in bases and not (len(p) == 1 and p[0] in R.consts) and p[-1] not in skip)
    ranges = singled_out(ranges or {}, f, rf)
    bad, decided, hits, undecided = {}, 0, set(), 0
    used = {e.name for _, s in R.paths for e in s.trace} | {'!store', '!iter', '!break', '!return'} | (set(watch) - {'extend', 'insert', 'update'})
    for i in range(n):
        pt = Point('%s|%d' % (what, i), ranges or {}, new or {})
        er, ec = Eval(R, pt), Eval(C, pt)
        try:
            rh, rs = R.taken(er)
        except (Unknown, Tie):
            undecided += 1
            continue
        try:
            ch, cs_ = C.taken(ec)
        except (Unknown, Tie):
            undecided += 1
            continue
        if rh != ch and 'raise' in (rh, ch):
            bad.setdefault('raises', (i, rh, ch))
            continue
        if 'again' in (rh, ch):
            if rh != ch and whiles(f) == whiles(rf):
                bad.setdefault('rounds of its loop', (i, rh, ch))
            continue
        if rh == 'raise':
            continue
        decided += 1
        hits.add(id(rs))
        er, ec = Eval(R, pt), Eval(C, pt)
        er.state, ec.state = rs, cs_
        items = [('.'.join(p), read(rs, p), read(cs_, p)) for p in outs]
        if 'result' not in skip and rs.ret is not None and rs.ret != SELF:
            items.append(('result', rs.ret, cs_.ret if cs_.ret is not None else ('c', None)))
        try:
            if {e.name for e in cs_.trace} <= used and R.events(rs, er) != C.events(cs_, ec):
                bad.setdefault('calls and stores', (i, [e.name for e in rs.trace], [e.name for e in cs_.trace]))
        except (Unknown, Tie):
            pass
        for p in bases:
            x = read(cs_, p)
            q = path(x) if x[0] == 'attr' else None
            if q in bases and q != p and read(rs, p) != x:
                bad.setdefault('.'.join(p), (i, 'an object of its own', 'that of ' + '.'.join(q)))
        for name, a, b in items:
            try:
                x = er(a)
                y = ec(b)
                if isinstance(x, float) and math.isnan(x):
                    continue
                equal = same(x, y)
            except (Unknown, Tie):
                continue
            if not equal:
                bad.setdefault(name, (i, canon(x) if not isinstance(x, Token) else '<%s>' % x.h[:6], canon(y) if not isinstance(y, Token) else '<%s>' % y.h[:6]))
    res.count(count, (len(outs) + any(s.ret is not None and s.ret != SELF for _, s in R.paths)) * max(1, len(hits)))
    if not decided:
        res.count('laws_undecided')
    res.sample('%s: %d paths, %d of %d paths of its law met, %d interpretations decided, %d not' %
               (what, len(C.paths), len(hits), len(R.paths), decided, undecided))
    if bad and not quiet:
        ex = sorted(bad.items())[0]
        res.add('law', '%s %s' % (what, ','.join(sorted(bad))[:120]), '%s does not compute what it should for %s (its law gives %s = %s, the source %s)' %
                (f.qual, sorted(bad), ex[0], ex[1][1], ex[1][2]), (f.file, f.node.lineno))
    return decided, hits, R, bad


def singled_out(ranges, f, rf):
    """Ranges with the numbers the source singles out and its reference does not."""
    def numbers(g):
        return {x.value for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool)}
    new = sorted(numbers(f) - numbers(rf))
    out = dict(ranges)
    for k, r in ranges.items():
        if isinstance(r, list) and new and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in r):
            whole = all(isinstance(x, int) for x in r)
            out[k] = r + [x if whole else float(x) for x in new if min(r) <= x <= max(r) and x not in r and (x == int(x) or not whole)]
    return out


def run(prog, res, table):
    res.rule('the summary of every path of the method equals the one of its reference in skcheck/lawbook (value numbering with random interpretation): '
             'conditions, final fields, result, calls on parts')
    for cname, mname, ranges, new, kw in table:
        compare(prog, res, cname, mname, ranges, new, **kw)
