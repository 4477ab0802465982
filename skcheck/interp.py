"""Summary-based abstract interpretation: aliasing, types, mutation effects and exit heaps.

Abstract values are finite sets of *atoms*:

  ('p', param, path)  object reachable from a parameter of the analysed function by an access path
  ('n', site,  path)  object allocated by this call (allocation site, access path below it)
  ('g', name,  path)  module global, class attribute or default-argument object
  ('c', type,  repr)  constant
  ('f', Func, ctx, recv)  function / bound method value
  ('k', Class)        class object
  ('x', dotted)       external module / function / class

A *summary* of a function (for one concrete receiver class and one constant signature) holds the set of
parameter/global rooted objects it may mutate, its exit heap (field -> value, in terms of entry values) and
its return value.  Nothing of the analysed code is executed.
"""
import ast
import sys

from .model import Func, Class

sys.setrecursionlimit(20000)

K = 4           # access path bound
HP = 1          # depth of the heap entries kept in summaries
MAXVAL = 14     # atoms per value

EMPTY = frozenset()
NONE = ('c', 'NoneType', 'None')
TRUE = ('c', 'bool', 'True')
UNKC = ('c', 'num', '?')
FALSE = ('c', 'bool', 'False')

LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'popleft', 'popitem', 'clear', 'sort', 'reverse',
            'appendleft', 'extendleft', 'rotate', 'add', 'discard', 'update', 'setdefault', 'fill', 'put',
            'itemset', 'resize', 'setfield', 'partition', 'setflags', '__setitem__', '__delitem__',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'move_to_end',
            'subtract', '__setattr__', '__delattr__', '__iadd__'}
METHODS_OF = {'list': {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__',
                       '__iadd__'},
              'tuple': set(),
              'set': {'add', 'discard', 'update', 'remove', 'pop', 'clear', 'difference_update', 'intersection_update',
                      'symmetric_difference_update'},
              'dict': {'update', 'setdefault', 'pop', 'popitem', 'clear', 'move_to_end', 'subtract', '__setitem__', '__delitem__'},
              'deque': {'append', 'appendleft', 'extend', 'extendleft', 'pop', 'popleft', 'clear', 'remove', 'rotate', 'insert',
                        'reverse', '__setitem__', '__delitem__'},
              'nd': {'sort', 'fill', 'put', 'itemset', 'resize', 'setfield', 'partition', 'setflags', '__setitem__', '__iadd__'}}
# mutators which on a sliced list act on the copy (a sliced ndarray has none of them)
LIST_ONLY = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse'}
ADDERS = {'append': 0, 'appendleft': 0, 'add': 0, 'insert': 1, 'setdefault': 1, 'fill': 0}
EXTENDERS = {'extend', 'extendleft', 'update'}
ALIAS_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'T', 'flat', 'values', 'iloc', 'loc',
                 'real', 'to_numpy', 'at', 'iat', 'data', 'base'}
ELEM_METHODS = {'get', 'pop', 'popleft', 'popitem', 'setdefault', '__getitem__', 'peek', 'item'}
RNG_METHODS = {'rand', 'randn', 'randint', 'random', 'random_sample', 'choice', 'shuffle', 'permutation', 'normal',
               'uniform', 'poisson', 'binomial', 'beta', 'gamma', 'exponential', 'multinomial', 'seed', 'standard_normal',
               'tomaxint', 'bytes', 'laplace', 'geometric', 'multivariate_normal', 'dirichlet', 'random_integers', 'sample',
               'integers', 'set_state', 'gauss', 'randrange', 'shuffle', 'random_raw'}
PASS_FUNCS = {'pandas.DataFrame', 'pandas.Series', 'pandas.to_datetime', 'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ravel', 'numpy.reshape',
              'numpy.squeeze', 'numpy.transpose', 'numpy.ascontiguousarray', 'numpy.expand_dims', 'numpy.swapaxes',
              'numpy.moveaxis', 'sklearn.utils.tosequence', 'iter', 'sklearn.utils.validation.check_array',
              'sklearn.utils.check_array', 'numpy.broadcast_to', 'numpy.rollaxis', 'numpy.diagonal', 'numpy.nan_to_num0',
              'sklearn.utils.validation.column_or_1d', 'itertools.chain', 'numpy.asfarray', 'numpy.array_split',
              'numpy.split', 'numpy.hsplit', 'numpy.vsplit', 'memoryview'}
CONTAINER_FUNCS = {'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set', 'sorted': 'list',
                   'collections.deque': 'deque', 'reversed': 'list', 'dict': 'dict', 'collections.OrderedDict': 'dict',
                   'filter': 'list', 'collections.defaultdict': 'dict', 'collections.Counter': 'dict'}
COPY_FUNCS = {'copy.deepcopy', 'numpy.copy', 'skmultiflow.core.clone', 'skmultiflow.core.base.clone', 'sklearn.base.clone'}
ARG_MUTATORS = {'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
                'random.shuffle': 0, 'numpy.random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heappop': 0,
                'heapq.heapify': 0, 'heapq.heapreplace': 0, 'bisect.insort': 0, 'bisect.insort_left': 0,
                'bisect.insort_right': 0, 'setattr': 0, 'delattr': 0, 'numpy.put_along_axis': 0, 'next': 0,
                'operator.setitem': 0, 'operator.delitem': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0,
                'operator.iadd': 0, 'numpy.ndarray.sort': 0, 'numpy.multiply.at': 0, 'object.__setattr__': 0,
                'numpy.ndarray.fill': 0, 'list.append': 0, 'list.sort': 0, 'dict.update': 0, 'list.extend': 0}
SCALAR_BUILTINS = {'len', 'int', 'float', 'str', 'bool', 'repr', 'isinstance', 'hasattr', 'abs', 'round', 'sum', 'id', 'hash',
                   'range', 'print', 'type', 'callable', 'any', 'all', 'format', 'issubclass', 'pow', 'divmod', 'chr', 'ord',
                   'vars', 'dir', 'complex', 'bin', 'slice', 'open', 'object', 'bytes', 'bytearray', 'super', 'exec', 'eval'}

# Contracts for receivers of unknown type (user supplied estimators, streams ...).
CONTRACT_MUT = {'partial_fit', 'fit', 'reset', 'restart', 'add_element', 'add_result', 'next_sample', 'set_params',
                'fit_transform', 'partial_fit_transform', 'partial_fit_predict', 'fit_predict', 'add_sample', 'learn_one',
                'generate_drift', 'prepare_for_use', '_prepare_for_use'}
CONTRACT_SELF = {'partial_fit', 'fit', 'set_params'}
CONTRACT_PURE = {'predict', 'predict_proba', 'score', 'get_params', 'get_info', 'decision_function', 'predict_log_proba',
                 'has_more_samples', 'n_remaining_samples', 'is_restartable', 'last_sample', 'get_data_info',
                 'transform', 'detected_warning_zone'}
BUILTIN_METHODS = LIST_MUT | {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'split', 'join', 'strip', 'format',
                              'startswith', 'endswith', 'replace', 'lower', 'upper', 'union', 'intersection', 'difference',
                              'issubset', 'issuperset', 'astype', 'flatten', 'tolist', 'sum', 'mean', 'std', 'min', 'max',
                              'argmax', 'argmin', 'dot', 'any', 'all', 'nonzero', 'argsort', 'reshape', 'ravel', 'query',
                              'item', 'write', 'read', 'close', 'shape', 'size', 'row', 'column', 'round', 'clip', 'var'}
API_SEED = {'fit', 'partial_fit', 'predict', 'predict_proba', 'transform', 'partial_fit_transform', 'fit_transform', 'score',
            'partial_fit_predict', 'fit_predict', 'predict_log_proba', 'decision_function', 'evaluate', 'update_queue',
            'add_result', 'add_sample', 'add_element'}
SEED_TYPES = {'X': {('nd', 2)}, 'y': {('nd', 1), ('nd', 2)}, 'sample_weight': {('nd', 1)}, 'classes': {'list', ('nd', 1)},
              'element_list': {'list', ('nd', 2)}, 'y_true': {('nd', 1)}, 'y_pred': {('nd', 1)}}


class Summary:
    __slots__ = ('muts', 'heap', 'ret', 'noreturn', 'globals_rng')

    def __init__(self):
        self.muts = {}
        self.heap = {}
        self.ret = EMPTY
        self.noreturn = False

    def same(self, o):
        return (o is not None and self.muts.keys() == o.muts.keys() and self.heap == o.heap and self.ret == o.ret
                and self.noreturn == o.noreturn)


class State:
    __slots__ = ('env', 'heap')

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        w = env.get(k)
        env[k] = v if w is None else (w if w is v else w | v)
    heap = dict(a.heap)
    for k, v in b.heap.items():
        w = heap.get(k)
        if w is None:
            heap[k] = _with_entry(k, v)
        elif w is not v:
            heap[k] = w | v
    for k, w in a.heap.items():
        if k not in b.heap:
            heap[k] = _with_entry(k, w)
    return State(env, heap)


def _with_entry(key, v):
    atom, field = key
    if atom[0] in 'pg' and field != '*':
        return v | CUR.ext(atom, field)
    return v


def kinds(ts):
    return {t for t in ts if not (type(t) is tuple and t[0] == 'box')}


BOXED = {'list', 'dict', 'set', 'tuple', 'deque'}
CUR = None


class Deep:
    """Registry of the types that stand for objects below the access path bound."""
    ids = {}
    types = {}


def slice_of(a):
    return a if a[2] and a[2][-1] == '[:]' else (a[0], a[1], a[2] + ('[:]',))


class Frame:
    def __init__(self, func, ctx, key):
        self.func, self.ctx, self.key = func, ctx, key
        self.muts = {}
        self.returns = []
        self.loops = []
        self.yields = EMPTY
        self.is_gen = False


class Interp:
    def __init__(self, prog, opts=None):
        self.P = prog
        self.T = {}                  # type store
        self.summ = {}               # key -> Summary
        self.deps = {}               # key -> set of caller keys
        self.dirty = set()
        self.stack = []
        self.round = 0
        self.round_of = {}
        self.events = {}
        self.tchanged = False
        self.inst_attrs = {}
        self.unresolved = {}
        self.analysed = set()
        self.frame = None
        self.work = {}
        self.callers = {}
        self.visits = {}
        self.readers = {}
        self.capped = set()
        self.boxkind = {}
        self._lazy = frozenset()
        self.cha = False
        global CUR
        CUR = self
        Deep.ids.clear()
        Deep.types.clear()

    # ------------------------------------------------------------------ driver
    def solve(self, entries, max_visits=10):
        """entries: iterable of (Func, ctx).  Worklist over summaries and the type store to a fixpoint."""
        self.entries = list(entries)
        for f, c in self.entries:
            self.summary(f, c, ())
        self.steps = 0
        self.drain(max_visits)
        # receivers that no type information reaches are resolved by class hierarchy in a second phase
        self.cha = True
        for k, v in list(self.unresolved.items()):
            if v:
                self.work[k] = 1
        self.drain(max_visits + 4)
        return self.steps

    def drain(self, max_visits):
        while self.work:
            key = next(iter(self.work))
            del self.work[key]
            if self.visits.get(key, 0) >= max_visits:
                self.capped.add(key)
                continue
            self.steps += 1
            self.run(key)

    def summary(self, func, ctx, sig):
        key = (func, ctx, sig)
        if self.frame is not None:
            self.callers.setdefault(key, {})[self.frame.key] = 1
        s = self.summ.get(key)
        if s is None:
            self.summ[key] = Summary()
            s = self.run(key)
        return s

    def run(self, key):
        func, ctx, sig = key
        self.visits[key] = self.visits.get(key, 0) + 1
        old = self.summ.get(key)
        self.work.pop(key, None)
        new = self.analyse(func, ctx, sig, key)
        cur = self.summ.get(key)
        if not new.same(cur):
            for k, v in cur.muts.items():
                new.muts.setdefault(k, v)      # monotone growth
            self.summ[key] = new
            for c in self.callers.get(key, ()):
                self.work[c] = 1
        self.analysed.add(key)
        return self.summ[key]

    # ------------------------------------------------------------------ types
    def addT(self, tkey, types):
        if not types:
            return
        s = self.T.get(tkey)
        if s is None:
            self.T[tkey] = set(types)
        elif not types <= s:
            s |= types
        else:
            return
        for r in self.readers.get(tkey, ()):
            self.work[r] = 1

    def getT(self, tkey):
        d = self.readers.get(tkey)
        if d is None:
            d = self.readers[tkey] = {}
        d[self.frame.key] = 1
        return self.T.get(tkey, EMPTY)

    def root_types(self, atom):
        k = atom[0]
        if k == 'p':
            f = self.frame
            if atom[1] == f.selfname:
                if f.ctx is not None:
                    return {('inst', f.ctx)}
            return self.getT(('P', f.key, atom[1]))
        if k == 'n':
            return self.getT(('S', atom[1]))
        return self.getT(('G', atom[1]))

    def walk(self, atom):
        """Types of the object denoted by a p/n/g atom: allocation-site and class based."""
        types = self.root_types(atom)
        for f in atom[2]:
            types = self.step(types, f)
            if not types:
                break
        return types

    def ext(self, atom, f):
        """Objects denoted by field f of atom.  Paths beyond the bound (or through a recursive field) become
        'some object of this type below this prefix'."""
        path = atom[2]
        if path and path[-1] == '[:]':
            path = path[:-1]
        if f[0] == '~':
            return frozenset({(atom[0], atom[1], self.prefix(path) + (f,))})
        deep = path and path[-1][0] == '~'
        if not deep and len(path) < K and (f not in path or (f == '[]' and path[-2:] != ('[]', '[]'))):
            return frozenset({(atom[0], atom[1], path + (f,))})
        ts = self.step(self.walk(atom), f)
        pre = self.prefix(path)
        out = set()
        other = set()
        for t in ts:
            if type(t) is tuple and t[0] in ('inst', 'box'):
                out.add((atom[0], atom[1], pre + (self.deep_id(t),)))
            elif t not in BOXED:
                other.add(t)
        if other or not out:
            out.add((atom[0], atom[1], pre + (self.deep_id(frozenset(other)),)))
        return frozenset(out)

    @staticmethod
    def prefix(path):
        p = path[:2]
        while p and p[-1][0] == '~':
            p = p[:-1]
        return p

    def deep_id(self, t):
        i = Deep.ids.get(t)
        if i is None:
            if isinstance(t, frozenset):
                ts = set(t)
                i = '~{%s}' % ','.join(sorted(map(str, t)))
            elif t[0] == 'inst':
                ts = {t}
                i = '~' + t[1].name
            else:
                ts = {t, self.boxkind.get(t[1], 'list')}
                i = '~box:' + str(t[1])
            Deep.ids[t] = i
            Deep.types[i] = ts
        return i

    def step(self, types, f):
        if f == '[:]':
            return types
        if f[0] == '~':
            return Deep.types.get(f, EMPTY)
        nt = set()
        elem = f == '[]' or f[0] == '#'
        for t in types:
            if type(t) is not tuple:
                continue
            k = t[0]
            if k == 'inst':
                nt |= self.getT(('F', t[1], f))
            elif k == 'box':
                if f[0] == '#':
                    x = self.getT(('F', t[1], f))
                    nt |= x or self.getT(('F', t[1], '[]'))
                else:
                    nt |= self.getT(('F', t[1], f))
            elif k == 'nd' and elem and t[1] is not None:
                if t[1] > 1:
                    nt.add(('nd', t[1] - 1))
                else:
                    nt.add('num')
        return nt

    def types(self, atom):
        k = atom[0]
        if k in 'png':
            return self.walk(atom)
        if k == 'c':
            return {{'NoneType': 'none', 'int': 'num', 'float': 'num', 'bool': 'bool', 'str': 'str'}.get(atom[1], 'num')}
        if k == 'f':
            return {('fn', atom[1], atom[2])}
        if k == 'k':
            return {('cls', atom[1])}
        if k == 'x':
            return {('extref', atom[1])}
        return set()

    def vtypes(self, val):
        r = set()
        for a in val:
            r |= self.types(a)
        return r

    def insts(self, val):
        return {t[1] for t in self.vtypes(val) if isinstance(t, tuple) and t[0] == 'inst'}

    def record_types(self, tkeys, val):
        if not val:
            return
        ty = self.vtypes(val)
        if len(ty) > 60:
            boxes = sorted((t for t in ty if type(t) is tuple and t[0] == 'box'), key=repr)
            ty = ty - set(boxes[30:])
        for tk in tkeys:
            self.addT(tk, ty)

    # ------------------------------------------------------------------ heap
    def class_attr_atoms(self, atom, field):
        """Class-attribute objects a read of atom.field may denote (only where no instance attribute hides it)."""
        res = set()
        own = False
        if atom[0] == 'p' and atom[1] == self.frame.selfname and atom[2] == () and self.frame.ctx is not None:
            cl = {self.frame.ctx}
        else:
            cl = {t[1] for t in self.walk(atom) if isinstance(t, tuple) and t[0] == 'inst'}
        for c in cl:
            init, anyw = self.instance_writes(c)
            if field in init:
                own = True
                continue
            r = c.find_any(field)
            if r and r[0] == 'attr':
                res.add(self.global_atom(r[2].qual + '.' + field, r[1], r[2].module))
                if field in anyw:
                    own = True
            else:
                own = True
        return res, own or not cl

    def instance_writes(self, c):
        """(attrs assigned in __init__ code of the MRO, attrs assigned by any method) - syntactic."""
        r = self.inst_attrs.get(c)
        if r is None:
            init, anyw = set(), set()
            for k in c.mro():
                for tab in (k.methods, k.setters):
                    for f in tab.values():
                        ws = set()
                        sn = f.params[0] if f.params else None
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                    isinstance(n.value, ast.Name) and n.value.id == sn:
                                ws.add(n.attr)
                        anyw |= ws
                        if f.name == '__init__':
                            init |= ws
            r = self.inst_attrs[c] = (init, anyw)
        return r

    def global_atom(self, qual, expr, module):
        a = ('g', qual, ())
        if ('G', qual) not in self.T:
            ty = self.static_types(expr, module)
            self.T[('G', qual)] = set(ty)
            if self.is_mutable_container(ty) or 'tuple' in ty:
                self.T[('G', qual)].add(('box', 'G:' + qual))
            for e in expr.elts if isinstance(expr, (ast.List, ast.Tuple, ast.Set)) else \
                    expr.values if isinstance(expr, ast.Dict) else ():
                self.addT(('F', 'G:' + qual, '[]'), self.static_types(e, module))
        return a

    def static_types(self, e, module):
        if isinstance(e, ast.Constant):
            return {'num' if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else
                    'bool' if isinstance(e.value, bool) else 'str' if isinstance(e.value, str) else 'none'}
        if isinstance(e, (ast.List, ast.ListComp)):
            return {'list'}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {'dict'}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {'set'}
        if isinstance(e, ast.Tuple):
            return {'tuple'}
        if isinstance(e, ast.Call):
            b = self.P.resolve_expr(module, e.func)
            if b and b[0] == 'class':
                return {('inst', b[1])}
            if b and b[0] == 'ext':
                if b[1].startswith('numpy.'):
                    return {('nd', None)}
                return {('ext', b[1])}
            if isinstance(e.func, ast.Name) and e.func.id in CONTAINER_FUNCS:
                return {CONTAINER_FUNCS[e.func.id]}
        return set()

    def read1(self, atom, field, st):
        h = st.heap.get((atom, field))
        if h is not None:
            return h
        k = atom[0]
        if k in 'png':
            if field[0] == '~':
                return self.ext(atom, field)
            if field[0] == '#':
                h = st.heap.get((atom, '[]'))
                if h is not None:
                    return h
            base = st.heap.get((atom, '*'))
            if base is not None:
                r = EMPTY
                for b in base:
                    r |= self.read1(b, field, st)
                return r
            if field in ('[]',) or field.startswith('#'):
                pass
            elif k in 'pn':
                g, own = self.class_attr_atoms(atom, field)
                if g:
                    r = frozenset(g)
                    if own:
                        r |= self.ext(atom, field)
                    return r
            return self.ext(atom, field)
        return EMPTY

    def read(self, val, field, st):
        if len(val) == 1:
            for a in val:
                return self.read1(a, field, st)
        r = EMPTY
        for a in val:
            r |= self.read1(a, field, st)
        return self.cap(r)

    def cap(self, v):
        """Bound the size of a value: fresh objects are merged (their types are kept), long paths shortened."""
        if len(v) <= MAXVAL:
            return v
        ns = [a for a in v if a[0] == 'n']
        if len(ns) > 6:
            # one representative per type (of the fresh objects)
            rep = {}
            for a in sorted(ns):
                rep.setdefault(frozenset(kinds(self.walk(a))), a)
            v = frozenset(a for a in v if a[0] != 'n') | frozenset(rep.values())
        if len(v) > MAXVAL:
            v = frozenset(a for a in v if a[0] != 'c') | {UNKC}
        if len(v) > MAXVAL:
            out = set()
            for a in v:
                if a[0] in 'pg' and len(a[2]) > 2 and a[2][-1] != '[:]':
                    out |= self.ext((a[0], a[1], a[2][:-1]), a[2][-1]) if len(a[2]) > K else {a}
                else:
                    out.add(a)
            v = frozenset(out)
        return v

    def write(self, targets, field, val, st, weak=False):
        tk = []
        for a in targets:
            if a[0] not in 'png':
                continue
            for t in self.walk(a):
                if type(t) is tuple and t[0] in ('inst', 'box'):
                    tk.append(('F', t[1], field))
        if tk:
            self.record_types(tk, val)
        real = [a for a in targets if a[0] in 'png']
        if len(real) == 1 and not weak:
            st.heap[(real[0], field)] = val
        else:
            for a in real:
                old = st.heap.get((a, field))
                if old is None:
                    if a[0] in 'pg':
                        old = self.ext(a, field)
                    else:
                        old = EMPTY
                st.heap[(a, field)] = self.cap(old | val)

    # ------------------------------------------------------------------ effects
    def can_mutate(self, a, kind):
        """False when every known type of the object rules the in-place change out (scalars; a list has no update())."""
        if kind in ('item', 'aug'):
            m = None
        elif kind.startswith('call:'):
            m = kind[5:]
        else:
            return True
        ts = kinds(self.types(a)) - {'none'}
        if not ts:
            return True
        for t in ts:
            if t in ('num', 'bool', 'str', 'none', 'rng'):
                continue
            if m is not None:
                fam = 'nd' if isinstance(t, tuple) and t[0] == 'nd' else t
                if fam in METHODS_OF and m not in METHODS_OF[fam]:
                    continue
            return True
        return False

    def mut(self, atoms, kind, node, chain=None):
        for a in atoms:
            if a[0] in 'pg' and self.can_mutate(a, kind):
                # a slice of a list is a copy; of an array, a view
                k = (a, kind)
                if k not in self.frame.muts:
                    self.frame.muts[k] = (self.loc(node),) + ((chain,) if chain else ())
            # mutation of fresh objects is not an effect

    def loc(self, node):
        f = self.frame.func
        return (f.file, getattr(node, 'lineno', 0), f.qual, self.frame.ctx.name if self.frame.ctx else None)

    # ------------------------------------------------------------------ function analysis
    def analyse(self, func, ctx, sig, key):
        fr = Frame(func, ctx, key)
        saved = self.frame
        fr.selfname = None
        if func.cls is not None and not func.static and func.params:
            fr.selfname = func.params[0]
        self.frame = fr
        self.events[key] = []
        self.unresolved[key] = []
        try:
            st = State()
            sigd = dict(sig)
            for p in func.all_params:
                if p in sigd:
                    st.env[p] = frozenset({sigd[p]})
                else:
                    st.env[p] = frozenset({('p', p, ())})
                    if p in SEED_TYPES and func.name in API_SEED:
                        self.addT(('P', key, p), SEED_TYPES[p])
            if func.classm and fr.selfname:
                st.env[fr.selfname] = frozenset({('k', ctx or func.cls)})
            if func.vararg:
                st.env[func.vararg] = frozenset({('p', func.vararg, ())})
            if func.kwarg:
                st.env[func.kwarg] = frozenset({('p', func.kwarg, ())})
            body = func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body,
                                                                                      lineno=func.node.lineno)]
            for p, d in func.defaults.items():
                if p not in sigd:
                    self.addT(('P', key, p), self.static_types(d, func.module))
            out = self.block(body, st)
            s = Summary()
            exits = [x[1] for x in fr.returns]
            ret = EMPTY
            for v, _ in fr.returns:
                ret |= v
            if out is not None:
                exits.append(out)
                ret |= {NONE}
            if fr.is_gen:
                site = self.site(func.node, 'gen')
                ga = ('n', site, ())
                self.addT(('S', site), {'list', ('box', site)})
                self.addT(('F', site, '[]'), self.vtypes(fr.yields))
                ret = frozenset({ga})
                fin = None
                for e in exits:
                    fin = join(fin, e)
                if fin is None:
                    fin = State()
                fin.heap[(ga, '[]')] = fr.yields
                exits = [fin]
            fin = None
            for e in exits:
                fin = join(fin, e)
            s.noreturn = fin is None
            s.muts = fr.muts
            s.ret = self.cap(ret)
            if fin is not None:
                heap = {}
                # keep n-rooted entries only when reachable from p/g entries or the return value
                reach = set(a for a in ret if a[0] == 'n')
                todo = []
                for (a, f), v in fin.heap.items():
                    if a[0] in 'pg' and len(a[2]) <= HP:
                        heap[(a, f)] = v
                        todo.extend(x for x in v if x[0] == 'n')
                todo.extend(reach)
                seen = set()
                byatom = {}
                for (a, f), v in fin.heap.items():
                    if a[0] == 'n':
                        byatom.setdefault(a, []).append((f, v))
                        # a parent root keeps its sub-path entries
                        if a[2]:
                            byatom.setdefault(('n', a[1], ()), [])
                roots = {}
                for a in byatom:
                    roots.setdefault(a[1], []).append(a)
                # an allocation matters to callers only if something of the caller is reachable through it
                # (otherwise its contents are described by the type store)
                hot = set()
                rev = {}
                for (a, f), v in fin.heap.items():
                    if a[0] == 'n':
                        for x in v:
                            if x[0] in 'pg' or (x[0] == 'f' and x[3]):
                                hot.add(a[1])
                            elif x[0] == 'n' and x[1] != a[1]:
                                rev.setdefault(x[1], set()).add(a[1])
                wl = list(hot)
                while wl:
                    x = wl.pop()
                    for y in rev.get(x, ()):
                        if y not in hot:
                            hot.add(y)
                            wl.append(y)
                while todo:
                    a = todo.pop()
                    if a[0] != 'n' or a[1] in seen or a[1] not in hot:
                        continue
                    seen.add(a[1])
                    for b in roots.get(a[1], ()):
                        for f, v in byatom[b]:
                            if len(b[2]) <= HP and any(x[0] in 'pgf' or (x[0] == 'n' and x[1] in hot) for x in v):
                                heap[(b, f)] = v
                                todo.extend(x for x in v if x[0] == 'n')
                s.heap = heap
            return s
        finally:
            self.frame = saved

    def site(self, node, tag):
        f = self.frame.func
        return '%s:%s:%s:%s' % (f.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)

    def new(self, node, tag, types, st, **fields):
        s = self.site(node, tag)
        a = ('n', s, ())
        if types:
            types = set(types)
            bk = types & BOXED
            if bk:
                types.add(('box', s))
                self.boxkind.setdefault(s, sorted(bk)[0])
            self.addT(('S', s), types)
        for f, v in fields.items():
            self.write([a], f, v, st)
        return a

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        lazy = self._lazy
        for s in stmts:
            if st is None:
                break
            st = self.stmt(s, st)
        self._lazy = lazy
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(s.value, ast.Call) and self._noreturn:
            self._noreturn = False
            return None
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        rhs = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            if old is None:
                old = self.name(t, st)
            hit = [a for a in old if a[0] in 'png' and self.aug_inplace(self.types(a), s.op)]
            if hit:
                self.mut(hit, 'aug', s)
                keep = frozenset(hit)
                for a in hit:
                    if 'list' in self.types(a):
                        self.write([a], '[]', self.read(rhs, '[]', st), st, weak=True)
            else:
                keep = EMPTY
            st.env[t.id] = keep | {self.new(s, 'aug', self.arith_types(old, rhs, s.op), st)}
        else:
            load = _as_load(t)
            old = self.ev(load, st)
            val = frozenset({self.new(s, 'aug', self.arith_types(old, rhs, s.op), st)})
            hit = [a for a in old if a[0] in 'png' and self.aug_inplace(self.types(a), s.op)]
            if hit:
                self.mut(hit, 'aug', s)
                val |= frozenset(hit)
                for a in hit:
                    if 'list' in self.types(a):
                        self.write([a], '[]', self.read(rhs, '[]', st), st, weak=True)
            self.assign(t, val, st, s)
        return st

    def arith_types(self, a, b, op=None):
        t1, t2 = self.vtypes(a), self.vtypes(b)
        r = set()
        for t in t1 | t2:
            if t == 'num' or t == 'bool':
                r.add('num')
            elif isinstance(t, tuple) and t[0] == 'nd':
                r.add(t)
            elif t in ('list', 'str', 'tuple'):
                # sequences combine with sequences (+) or repeat (*); everything else is an error or an array
                if op is None or isinstance(op, ast.Mult) or \
                        (isinstance(op, ast.Add) and t in t1 and (t in t2 or not t2)):
                    r.add(t)
            elif t == 'set' and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                r.add(t)
        return r

    @staticmethod
    def aug_inplace(ts, op):
        """May `x op= y` change the object x denotes (arrays, lists, sets) rather than rebind it?"""
        for t in ts:
            if isinstance(t, tuple) and t[0] == 'nd':
                return True
            if t in ('list', 'deque') and isinstance(op, (ast.Add, ast.Mult)):
                return True
            if t in ('set', 'dict') and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                return True
        return False

    @staticmethod
    def is_mutable_container(ts):
        for t in ts:
            if t in ('list', 'set', 'deque', 'dict') or (isinstance(t, tuple) and t[0] == 'nd'):
                return True
        return False

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self._globals():
                self.mut([('g', self.frame.func.module.name, ())], 'attr:' + t.id, node)
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.set_attr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.set_item(base, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, frozenset({self.new(e, 'star', {'list'}, st, **{'[]': self.read(v, '[]', st)})}),
                                st, node)
                else:
                    self.assign(e, self.unpack(v, i, st), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, i, st):
        r = EMPTY
        for a in v:
            h = st.heap.get((a, '#%d' % i))
            if h is not None:
                r |= h
            elif a[0] == 'n' and a[2] == () and self.T.get(('F', a[1], '#%d' % i)):
                r |= self.ext(a, '#%d' % i)
            else:
                r |= self.read1(a, '[]', st)
        return r

    def _globals(self):
        f = self.frame.func
        g = f.__dict__.get('_gl')
        if g is None:
            g = set()
            if not isinstance(f.node, ast.Lambda):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        g |= set(n.names)
            f.__dict__['_gl'] = g
        return g

    def set_attr(self, base, attr, v, st, node):
        plain = []
        for a in base:
            done = False
            if a[0] == 'k':
                self.mut([('g', a[1].qual, ())], 'attr:' + attr, node)
                continue
            if a[0] == 'x':
                self.mut([('g', a[1], ())], 'attr:' + attr, node)
                continue
            if a[0] in 'png':
                for c in self.inst_of(a):
                    f = c.find(attr, 'setters')
                    if f is not None:
                        self.apply(f, c, {f.params[0]: frozenset({a}),
                                          **({f.params[1]: v} if len(f.params) > 1 else {})}, st, node)
                        done = True
                if not done:
                    plain.append(a)
        if plain:
            if not ((attr in self._lazy) and self._empty_value(v, st)):
                self.mut(plain, 'attr:' + attr, node)
            self.write(plain, attr, v, st)

    def _empty_value(self, v, st):
        """None, False, zero or a fresh container without elements."""
        for a in v:
            if a[0] == 'c' and a[2] in ('None', 'False', '0', '0.0'):
                continue
            if a[0] == 'n' and a[2] == () and a[1].rsplit(':', 1)[1] in ('list', 'dict', 'set', 'tuple', 'deque') \
                    and not st.heap.get((a, '[]')):
                continue
            return False
        return True

    def inst_of(self, a):
        if a[0] == 'p' and a[1] == self.frame.selfname and a[2] == () and self.frame.ctx is not None:
            return [self.frame.ctx]
        return sorted((t[1] for t in self.types(a) if isinstance(t, tuple) and t[0] == 'inst'), key=lambda c: c.qual)

    def set_item(self, base, v, st, node, how='item'):
        plain = []
        for a in base:
            done = False
            if a[0] in 'png':
                for c in self.inst_of(a):
                    f = c.find('__setitem__')
                    if f is not None:
                        ps = f.params
                        self.apply(f, c, {ps[0]: frozenset({a}), **({ps[2]: v} if len(ps) > 2 else {})}, st, node)
                        done = True
                if not done:
                    plain.append(a)
        if plain:
            self.mut([self.strip_slice(a) for a in plain], how, node)
            for k in [k for k in st.heap if k[0] in plain and k[1].startswith('=')]:
                del st.heap[k]
            self.write([self.strip_slice(a) for a in plain], '[]', v, st, weak=True)

    @staticmethod
    def strip_slice(a):
        if a[0] in 'png' and a[2] and a[2][-1] == '[:]':
            p = a[2]
            while p and p[-1] == '[:]':
                p = p[:-1]
            return (a[0], a[1], p)
        return a

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                handled = False
                for a in base:
                    if a[0] in 'png':
                        for c in self.inst_of(a):
                            f = c.find(t.attr, 'deleters')
                            if f is not None:
                                self.apply(f, c, {f.params[0]: frozenset({a})}, st, t)
                                handled = True
                if not handled:
                    self.mut(base, 'attr:' + t.attr, t)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                self.ev(t.slice, st)
                self.mut([self.strip_slice(a) for a in base if a[0] in 'png'], 'item', t)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else frozenset({NONE})
        self.frame.returns.append((v, st))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        return st

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        t, f = self.branch(s.test, st)
        return t

    def s_If(self, s, st):
        self.ev(s.test, st)
        t, f = self.branch(s.test, st)
        lz = self._hasattr_of(s.test)
        saved_lazy = self._lazy
        if lz and lz[1] is False:
            self._lazy = saved_lazy | {lz[0]}
        o1 = self.block(s.body, t) if t is not None else None
        self._lazy = saved_lazy | {lz[0]} if lz and lz[1] is True else saved_lazy
        o2 = self.block(s.orelse, f) if f is not None else None
        self._lazy = saved_lazy
        if lz and (o1 is None and t is not None and lz[1] is True or o2 is None and f is not None and lz[1] is False):
            self._lazy = saved_lazy | {lz[0]}   # what follows is reached without the attribute only
        return join(o1, o2)

    def _attrs_tried(self, body, depth=0):
        """Attributes whose absence is the only AttributeError the statements can raise."""
        out = set()
        for x in [x for b in body for x in ast.walk(b)]:
            if isinstance(x, ast.Call):
                h = None
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and depth < 2 and not x.args and not x.keywords and \
                        self.frame.ctx is not None and x.func.value.id == getattr(self.frame, 'selfname', None):
                    h = self.frame.ctx.find(x.func.attr)
                if h is None:
                    return set()
                out |= self._attrs_tried([y for y in h.node.body if not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant))], depth + 1)
                out.discard(x.func.attr)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                out.add(x.attr)
            elif isinstance(x, (ast.Attribute, ast.Subscript, ast.BinOp, ast.For, ast.While)) or isinstance(x, ast.stmt) and not isinstance(
                    x, (ast.Return, ast.Expr, ast.Assign)):
                return set()
        return out

    @staticmethod
    def _hasattr_of(test):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'hasattr' and \
                len(test.args) == 2 and isinstance(test.args[1], ast.Constant):
            return test.args[1].value, not neg
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None and isinstance(test.left, ast.Call) and \
                isinstance(test.left.func, ast.Name) and test.left.func.id == 'getattr' and len(test.left.args) == 3 and \
                isinstance(test.left.args[1], ast.Constant) and isinstance(test.left.args[2], ast.Constant) and test.left.args[2].value is None:
            return test.left.args[1].value, isinstance(test.ops[0], ast.IsNot) != neg
        return None

    def branch(self, test, st):
        """States for the true and the false outcome (None: infeasible)."""
        r = self.truth(test, st)
        if r is True:
            return self.narrow(test, st.copy(), True), None
        if r is False:
            return None, self.narrow(test, st.copy(), False)
        return self.narrow(test, st.copy(), True), self.narrow(test, st.copy(), False)

    def truth(self, test, st):
        if isinstance(test, ast.Constant):
            return bool(test.value)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.truth(test.operand, st)
            return None if r is None else not r
        if isinstance(test, ast.BoolOp):
            rs = [self.truth(v, st) for v in test.values]
            if isinstance(test.op, ast.And):
                if any(r is False for r in rs):
                    return False
                return True if all(r is True for r in rs) else None
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if isinstance(test, ast.Name):
            v = st.env.get(test.id)
            return self.vtruth(v)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            v = st.env.get(test.left.id)
            op, c = test.ops[0], test.comparators[0]
            if v and isinstance(c, ast.Constant) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if all(a[0] == 'c' for a in v):
                    eq = {a[2] == repr(c.value) for a in v}
                    if len(eq) == 1:
                        e = eq.pop()
                        return e if isinstance(op, (ast.Is, ast.Eq)) else not e
                elif c.value is None and all(a[0] in 'nkf' and self.not_none(a) for a in v):
                    return isinstance(op, (ast.IsNot, ast.NotEq))
        return None

    def not_none(self, a):
        if a[0] == 'n':
            return a[2] == ()
        return True

    @staticmethod
    def vtruth(v):
        if not v:
            return None
        r = set()
        for a in v:
            if a[0] == 'c':
                r.add(a[2] not in ('None', 'False', '0', '0.0', "''"))
            else:
                return None
        return r.pop() if len(r) == 1 else None

    def narrow(self, test, st, out):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not out)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == out:
                for v in test.values:
                    st = self.narrow(v, st, out)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == out
            if isinstance(test.left, ast.Name) and test.left.id in st.env:
                v = st.env[test.left.id]
                if isnone:
                    # the object is None: nothing reachable from it can be mutated, but its identity is kept
                    st.env[test.left.id] = frozenset({NONE}) if not any(a[0] == 'p' and not a[2] for a in v) else v
                else:
                    w = v - {NONE}
                    if w:
                        st.env[test.left.id] = w
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and \
                len(test.args) == 2 and out and isinstance(test.args[0], ast.Name):
            pass
        return st

    def loop(self, body, orelse, st, head, test=None):
        """Generic loop: head(st) binds the target.  Three passes reach the bounded lattice in practice."""
        fr = self.frame
        exit_st = None
        cur = st
        for _ in range(3):
            fr.loops.append([None, None])
            if test is not None:
                self.ev(test, cur)
                t, f = self.branch(test, cur)
            else:
                t, f = cur.copy(), cur.copy()
            exit_st = join(exit_st, f)
            if t is None:
                fr.loops.pop()
                break
            b = head(t)
            b = self.block(body, b)
            brk, cont = fr.loops.pop()
            exit_brk = brk
            b = join(b, cont)
            exit_st = join(exit_st, None)
            if brk is not None:
                self._brk = join(getattr(self, '_brk', None), None)
            nxt = join(cur, b)
            if exit_brk is not None:
                exit_st = join(exit_st, exit_brk)
            if b is None:
                cur = nxt
                break
            if nxt.env == cur.env and nxt.heap == cur.heap:
                cur = nxt
                break
            cur = nxt
        if test is None:
            exit_st = join(exit_st, cur)
        else:
            self.ev(test, cur)
            _, f = self.branch(test, cur)
            exit_st = join(exit_st, f)
        if exit_st is not None and orelse:
            exit_st = self.block(orelse, exit_st)
        return exit_st

    def s_For(self, s, st):
        it = self.ev(s.iter, st)

        def head(b):
            self.assign(s.target, self.iter_elem(it, b), b, s)
            return b
        return self.loop(s.body, s.orelse, st, head)

    def iter_elem(self, it, st):
        r = EMPTY
        for a in it:
            if a[0] in 'png':
                done = False
                for c in self.inst_of(a):
                    f = c.find('__iter__')
                    if f is not None:
                        v = self.apply(f, c, {f.params[0]: frozenset({a})}, st, f.node)
                        r |= self.read(v, '[]', st)
                        done = True
                if not done:
                    r |= self.read1(self.strip_slice(a), '[]', st)
        return self.cap(r)

    def s_While(self, s, st):
        return self.loop(s.body, s.orelse, st, lambda b: b, s.test)

    def s_Break(self, s, st):
        if self.frame.loops:
            self.frame.loops[-1][0] = join(self.frame.loops[-1][0], st)
        return None

    def s_Continue(self, s, st):
        if self.frame.loops:
            self.frame.loops[-1][1] = join(self.frame.loops[-1][1], st)
        return None

    def s_Try(self, s, st):
        pre = st.copy()
        out = self.block(s.body, st)
        mid = join(pre, out.copy() if out is not None else None)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        # `try: return o.F / except AttributeError: o.F = <empty>` gives an attribute its default value on first use;
        # no reader can tell whether that happened, so the write is not an effect
        lazy = self._attrs_tried(s.body)
        none_falls = out is None
        saved_lazy = self._lazy
        for h in s.handlers:
            self._lazy = saved_lazy | (lazy if h.type is not None and ast.unparse(h.type) == 'AttributeError' else set())
            b = mid.copy()
            if h.name:
                b.env[h.name] = frozenset({self.new(h, 'exc', {'exc'}, b)})
            b = self.block(h.body, b)
            out = join(out, b)
        self._lazy = saved_lazy
        if none_falls and lazy and all(h.type is not None and ast.unparse(h.type) == 'AttributeError' for h in s.handlers):
            self._lazy = saved_lazy | lazy      # what follows is reached through the handlers only
        if s.finalbody:
            if out is None:
                # effects of the finally block still count
                self.block(s.finalbody, mid.copy())
                return None
            out = self.block(s.finalbody, out)
        return out

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = frozenset({self.closure(s, st)})
        return st

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = frozenset({('x', a.name if a.asname else a.name.split('.')[0])})
        return st

    def s_ImportFrom(self, s, st):
        m = self.frame.func.module
        base = s.module or ''
        if s.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            b = self.P.lookup(base, a.name) if base in self.P.modules else ('ext', base + '.' + a.name)
            st.env[a.asname or a.name] = self.binding(b) if b else EMPTY
        return st

    def closure(self, node, st):
        """Nested def / lambda: its effects are accounted where it is created, on the captured environment."""
        f = Func(node, self.frame.func.module, None, getattr(node, 'name', '<lambda>'))
        saved_ret, saved_loops = self.frame.returns, self.frame.loops
        self.frame.returns, self.frame.loops = [], []
        b = st.copy()
        for p in f.all_params:
            b.env[p] = frozenset({self.new(node, 'lam.' + p, (), b)})
        if isinstance(node, ast.Lambda):
            ret = self.ev(node.body, b)
        else:
            self.block(node.body, b)
            ret = EMPTY
            for v, s2 in self.frame.returns:
                ret |= v
        self.frame.returns, self.frame.loops = saved_ret, saved_loops
        return ('l', self.site(node, 'lam'), ret)

    # ------------------------------------------------------------------ expressions
    _noreturn = False

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return EMPTY
        return m(e, st)

    def e_Constant(self, e, st):
        return frozenset({('c', type(e.value).__name__, repr(e.value))})

    def name(self, e, st):
        v = st.env.get(e.id)
        if v is not None:
            return v
        b = self.P.lookup(self.frame.func.module.name, e.id)
        if b is None:
            return frozenset({('x', e.id)})
        return self.binding(b)

    def binding(self, b):
        if b[0] == 'func':
            return frozenset({('f', b[1], None, EMPTY)})
        if b[0] == 'class':
            return frozenset({('k', b[1])})
        if b[0] in ('mod', 'ext'):
            return frozenset({('x', b[1])})
        if b[0] == 'var':
            if isinstance(b[3], ast.Constant):
                return frozenset({('c', type(b[3].value).__name__, repr(b[3].value))})
            return frozenset({self.global_atom(b[1].name + '.' + b[2], b[3], b[1])})
        return EMPTY

    def e_Name(self, e, st):
        return self.name(e, st)

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.get_attr(base, e.attr, st, e)

    def get_attr(self, base, attr, st, node):
        r = EMPTY
        for a in base:
            k = a[0]
            if k == 'x':
                full = a[1] + '.' + attr
                if a[1] in self.P.modules:
                    b = self.P.lookup(a[1], attr)
                    r |= self.binding(b) if b else EMPTY
                else:
                    r |= {('x', full)}
            elif k == 'k':
                f = a[1].find_any(attr)
                if f is None:
                    if attr == '__name__':
                        r |= {('c', 'str', a[1].name)}
                    continue
                if f[0] == 'method':
                    r |= {('f', f[1], a[1], EMPTY)}
                elif f[0] == 'attr':
                    r |= self.class_attr_value(f, attr)
                elif f[0] == 'inner':
                    r |= {('k', f[1])}
            elif k in 'png':
                cl = self.inst_of(a)
                if attr == '__class__':
                    r |= frozenset(('k', c) for c in cl)
                    continue
                if attr in ('shape', 'ndim', 'size', 'dtype') and not cl and \
                        any(t == 'df' or (isinstance(t, tuple) and t[0] == 'nd') for t in self.types(a)):
                    if attr == 'shape':
                        nn = frozenset({self.new(node, 'dim', {'num'}, st)})
                        r |= {self.new(node, 'shape', {'tuple'}, st, **{'[]': nn})}
                    else:
                        r |= {self.new(node, attr, {'num'}, st)}
                    continue
                hit = False
                for c in cl:
                    f = c.find_any(attr)
                    if f is None:
                        continue
                    if f[0] == 'getter':
                        hit = True
                        r |= self.apply(f[1], c, {f[1].params[0]: frozenset({a})}, st, node)
                    elif f[0] == 'method':
                        hit = True
                        r |= {('f', f[1], c, frozenset({a}))}
                    elif f[0] == 'inner':
                        hit = True
                        r |= {('k', f[1])}
                    elif f[0] == 'attr' and isinstance(f[1], ast.Constant) and attr not in self.instance_writes(c)[1]:
                        hit = True
                        r |= {('c', type(f[1].value).__name__, repr(f[1].value))}
                if hit and len(cl) <= 1:
                    continue
                if attr in ALIAS_METHODS and not cl and (a, attr) not in st.heap and \
                        any(t == 'df' or (isinstance(t, tuple) and t[0] == 'nd') for t in self.types(a)):
                    r |= {a}
                elif not hit:
                    r |= self.read1(a, attr, st)
            elif k == 'f':
                pass
        return self.cap(r)

    def class_attr_value(self, f, attr):
        if isinstance(f[1], ast.Constant):
            return frozenset({('c', type(f[1].value).__name__, repr(f[1].value))})
        return frozenset({self.global_atom(f[2].qual + '.' + attr, f[1], f[2].module)})

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        self.ev(e.slice, st)
        r = EMPTY
        sl = e.slice
        fancy = isinstance(sl, ast.Slice) or (isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts))
        for a in base:
            if a[0] not in 'png':
                continue
            done = False
            for c in self.inst_of(a):
                f = c.find('__getitem__')
                if f is not None:
                    r |= self.apply(f, c, {f.params[0]: frozenset({a})}, st, e)
                    done = True
            if done:
                continue
            if fancy:
                ts = self.types(a)
                if ts and all(t in ('list', 'tuple', 'deque') for t in kinds(ts)):
                    n = self.new(e, 'slice', ts, st)
                    self.write([n], '[]', self.read1(a, '[]', st), st)
                    r |= {n}
                elif ts and all(t == 'str' for t in ts):
                    r |= {self.new(e, 'slice', {'str'}, st)}
                else:
                    r |= {slice_of(a)}
                    for ff in ('[]',):
                        h = st.heap.get((a, ff))
                        if h is not None:
                            st.heap[(slice_of(a), ff)] = h
            else:
                a2 = self.strip_slice(a)
                if isinstance(sl, ast.Constant) and isinstance(sl.value, int) and sl.value >= 0:
                    h = st.heap.get((a2, '#%d' % sl.value))
                    if h is not None:
                        r |= h
                        continue
                r |= self.read1(a2, '[]', st)
        return self.cap(r)

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return EMPTY

    def e_Tuple(self, e, st):
        a = self.new(e, 'tuple', {'tuple'}, st)
        allv = EMPTY
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                v = self.read(self.ev(x.value, st), '[]', st)
            else:
                v = self.ev(x, st)
                self.write([a], '#%d' % i, v, st)
            allv |= v
        self.write([a], '[]', allv, st)
        return frozenset({a})

    def e_List(self, e, st):
        a = self.new(e, 'list', {'list'}, st)
        allv = EMPTY
        for x in e.elts:
            v = self.ev(x.value if isinstance(x, ast.Starred) else x, st)
            if isinstance(x, ast.Starred):
                v = self.read(v, '[]', st)
            allv |= v
        self.write([a], '[]', allv, st)
        return frozenset({a})

    def e_Set(self, e, st):
        a = self.new(e, 'set', {'set'}, st)
        allv = EMPTY
        for x in e.elts:
            allv |= self.ev(x, st)
        self.write([a], '[]', allv, st)
        return frozenset({a})

    def e_Dict(self, e, st):
        a = self.new(e, 'dict', {'dict'}, st)
        allv = EMPTY
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, st)
                allv |= self.ev(x, st)
            else:
                allv |= self.read(self.ev(x, st), '[]', st)
        self.write([a], '[]', allv, st)
        return frozenset({a})

    def comp(self, e, st, elts, tag):
        b = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, b)
            self.assign(g.target, self.iter_elem(it, b), b, e)
            for c in g.ifs:
                self.ev(c, b)
        allv = EMPTY
        for x in elts:
            allv |= self.ev(x, b)
        # comprehension bodies may mutate through calls: keep the heap
        for k, v in b.heap.items():
            if k not in st.heap:
                st.heap[k] = v if k[0][0] == 'n' else _with_entry(k, v)
            elif st.heap[k] is not v:
                st.heap[k] = st.heap[k] | v
        a = self.new(e, tag, {tag}, st)
        self.write([a], '[]', allv, st)
        if len(elts) == 1 and isinstance(elts[0], (ast.Name, ast.Attribute)):
            root = elts[0]
            while isinstance(root, ast.Attribute):
                root = root.value
            bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            if isinstance(root, ast.Name) and root.id not in bound:
                self.note_shared(e, allv)
        return frozenset({a})

    def note_shared(self, e, vals):
        """The same mutable object occupies several positions of a container."""
        bad = []
        for x in vals:
            if x[0] in 'png':
                ts = kinds(self.types(x)) - {'none'}
                # a parameter that may be a number as well is used as a number here
                if ts and not ts & {'num', 'str', 'bool'} and any(
                        t in ('list', 'dict', 'set', 'deque') or (isinstance(t, tuple) and t[0] in ('inst', 'nd')) for t in ts):
                    bad.append(x)
                elif x[0] == 'n' and x[1].endswith(':deepcopy') and not x[2] and not ts & {'num', 'str', 'bool'}:
                    bad.append(x)
        if bad:
            self.events[self.frame.key].append(('shared', e, frozenset(bad)))

    def e_ListComp(self, e, st):
        return self.comp(e, st, [e.elt], 'list')

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, [e.elt], 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, [e.elt], 'set')

    def e_DictComp(self, e, st):
        self_k = e.key
        return self.comp(e, st, [e.value, self_k][:1], 'dict')

    def e_Lambda(self, e, st):
        return frozenset({self.closure(e, st)})

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        t, f = self.branch(e.test, st)
        r = EMPTY
        if t is not None:
            r |= self.ev(e.body, t)
        if f is not None:
            r |= self.ev(e.orelse, f)
        m = join(t, f)
        st.env, st.heap = m.env, m.heap
        return r

    def e_BoolOp(self, e, st):
        r = EMPTY
        for v in e.values:
            r |= self.ev(v, st)
        return r

    def e_BinOp(self, e, st):
        l, r = self.ev(e.left, st), self.ev(e.right, st)
        ty = self.arith_types(l, r, e.op)
        if isinstance(e.op, ast.Mod) and 'str' in self.vtypes(l):
            ty = {'str'}
        if isinstance(e.op, ast.Mult):
            # repetition of a list or tuple: the elements are shared, not copied
            for side in (l, r):
                if side and any(t in ('list', 'tuple') for t in self.vtypes(side)) and \
                        all(t in ('list', 'tuple') for t in kinds(self.vtypes(side))):
                    a = self.new(e, 'rep', {'list'}, st)
                    el = self.read(side, '[]', st)
                    self.write([a], '[]', el, st)
                    self.note_shared(e, el)
                    return frozenset({a})
        a = self.new(e, 'bin', ty, st)
        if 'list' in ty or 'tuple' in ty:
            self.write([a], '[]', self.read(l, '[]', st) | self.read(r, '[]', st), st)
        return frozenset({a})

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.operand, ast.Constant) and isinstance(e.op, ast.USub) and isinstance(e.operand.value, (int, float)):
            return frozenset({('c', type(e.operand.value).__name__, repr(-e.operand.value))})
        return frozenset({self.new(e, 'un', {'bool'} if isinstance(e.op, ast.Not) else self.arith_types(v, EMPTY), st)})

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return frozenset({self.new(e, 'cmp', {'bool'}, st)})

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return frozenset({self.new(e, 'fstr', {'str'}, st)})

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Yield(self, e, st):
        self.frame.is_gen = True
        if e.value is not None:
            self.frame.yields |= self.ev(e.value, st)
        return EMPTY

    def e_YieldFrom(self, e, st):
        self.frame.is_gen = True
        self.frame.yields |= self.iter_elem(self.ev(e.value, st), st)
        return EMPTY

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        fn = e.func
        # super()
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == 'super':
            return self.super_call(e, fn.attr, st)
        args, kwargs, star = self.args(e, st)
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value, st)
            return self.method_call(e, base, fn.attr, args, kwargs, star, st)
        fv = self.ev(fn, st)
        return self.call_val(e, fv, args, kwargs, star, st)

    def args(self, e, st):
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = True
                args.append(('*', self.read(self.ev(a.value, st), '[]', st)))
            else:
                args.append((None, self.ev(a, st)))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                named = {}
                if len(v) == 1:
                    a, = v
                    named = {f[1:]: w for (x, f), w in st.heap.items() if x == a and f.startswith('=')}
                if named:
                    kw.update(named)
                    continue
                star = True
                kw.setdefault('**', EMPTY)
                kw['**'] = kw['**'] | self.read(v, '[]', st)
            else:
                kw[k.arg] = v
        return [v for s, v in args if s is None], kw, ([v for s, v in args if s] or ([EMPTY] if star else []))

    def super_call(self, e, name, st):
        fr = self.frame
        args, kwargs, star = self.args(e, st)
        inner = e.func.value
        after = fr.func.cls
        if inner.args:
            b = self.P.resolve_expr(fr.func.module, inner.args[0])
            if b and b[0] == 'class':
                after = b[1]
        ctx = fr.ctx or fr.func.cls
        selfv = frozenset({('p', fr.selfname, ())}) if fr.selfname else EMPTY
        if ctx is None or after is None:
            return EMPTY
        f = ctx.find(name, after=after)
        if f is None:
            return frozenset({NONE})
        return self.invoke(f, ctx, selfv, args, kwargs, star, st, e)

    def invoke(self, f, ctx, recv, args, kwargs, star, st, node):
        """Bind arguments and apply the callee's summary."""
        if f.name == 'check_random_state' and f.cls is None:
            return self.seed_call(node, f.qual, args, kwargs, st)
        if f.qual == 'skmultiflow.core.base.clone':
            # fresh, untrained copy of an estimator (its own definition is a separate analysis entry)
            self.events[self.frame.key].append(('ext', 'skmultiflow.core.clone', node, args, kwargs))
            src = args[0] if args else kwargs.get('estimator', EMPTY)
            n = self.new(node, 'clone', self.vtypes(src), st)
            self._noreturn = False
            return frozenset({n})
        if f.name == 'get_params' and f.cls is not None and ctx is not None and f.cls.name == 'BaseEstimator' and len(recv) == 1:
            # parameter name -> value: the entries are the parameter attributes (the definition is a separate entry)
            init = ctx.find('__init__')
            if init is not None and not init.vararg:
                vals = {p: self.get_attr(recv, p, st, node) for p in init.all_params[1:]}
                n = self.new(node, 'get_params', {'dict'}, st)
                allv = EMPTY
                for p, v in vals.items():
                    self.write([n], '=' + p, v, st)
                    allv |= v
                self.write([n], '[]', allv, st)
                self._noreturn = False
                return frozenset({n})
        params = list(f.params)
        bound = {}
        if f.cls is not None and not f.static:
            if f.classm:
                bound[params[0]] = frozenset({('k', ctx or f.cls)})
                params = params[1:]
            elif recv:
                bound[params[0]] = recv
                params = params[1:]
        for p, v in zip(params, args):
            bound[p] = v
        if len(args) > len(params) and f.vararg:
            extra = EMPTY
            for v in args[len(params):]:
                extra |= v
            va = self.new(node, 'varargs', {'tuple'}, st, **{'[]': extra})
            bound[f.vararg] = frozenset({va})
        for k, v in kwargs.items():
            if k in f.all_params:
                bound[k] = v
        if star:
            u = EMPTY
            for v in star:
                u |= v
            u |= kwargs.get('**', EMPTY)
            for p in params + f.kwonly:
                if p not in bound:
                    bound[p] = u
        return self.apply(f, ctx if f.cls is not None else None, bound, st, node)

    def seed_call(self, node, full, args, kwargs, st):
        """check_random_state: a generator object is passed through, None means the process-wide generator, any
        other value seeds a private one (the function's own definition is verified separately)."""
        self.events[self.frame.key].append(('ext', full, node, args, kwargs))
        self._noreturn = False
        v = args[0] if args else (next(iter(kwargs.values())) if kwargs else EMPTY)
        r = set()
        for a in v:
            if a == NONE:
                if len(v) == 1:
                    self.addT(('G', 'numpy.random'), {'rng'})
                    r.add(('g', 'numpy.random', ()))
            elif a[0] in 'png' and 'rng' in self.types(a):
                r.add(a)
            elif a[0] == 'x' and a[1] in ('numpy.random', 'numpy.random.mtrand._rand'):
                self.addT(('G', 'numpy.random'), {'rng'})
                r.add(('g', 'numpy.random', ()))
        if not r or not all(a[0] in 'png' and 'rng' in self.types(a) for a in v):
            if not (r and v == frozenset({NONE})):
                r.add(self.new(node, 'rng', {'rng'}, st))
        return frozenset(r)

    def default_value(self, f, p):
        d = f.defaults.get(p)
        if d is None:
            return EMPTY
        if isinstance(d, ast.Constant):
            return frozenset({('c', type(d.value).__name__, repr(d.value))})
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            return frozenset({('c', type(d.operand.value).__name__, repr(-d.operand.value))})
        if isinstance(d, (ast.Attribute, ast.Name, ast.BinOp)):
            b = self.P.resolve_expr(f.module, d)
            if b:
                return self.binding(b)
            return frozenset({('c', 'expr', ast.unparse(d))})
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('float', 'int', 'str'):
            return frozenset({('c', 'expr', ast.unparse(d))})
        return frozenset({self.global_atom('default:%s:%s' % (f.qual, p), d, f.module)})

    def test_names(self, f):
        t = f.__dict__.get('_tests')
        if t is None:
            t = set()
            for n in ast.walk(f.node):
                tests = []
                if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                    tests.append(n.test)
                for x in tests:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            t.add(y.id)
                if isinstance(n, ast.Call):
                    for x in n.args + [k.value for k in n.keywords]:
                        if isinstance(x, ast.Name):
                            t.add(x.id)
            f.__dict__['_tests'] = t
        return t

    def apply(self, f, ctx, bound, st, node):
        fr = self.frame
        sig = []
        tn = self.test_names(f)
        full = {}
        for p in f.all_params:
            v = bound.get(p)
            if v is None:
                v = self.default_value(f, p)
            full[p] = v
            if p in tn and len(v) == 1:
                a = next(iter(v))
                if a[0] == 'c' and a[1] in ('bool', 'NoneType'):
                    sig.append((p, a))
        for p in (f.vararg, f.kwarg):
            if p:
                full[p] = bound.get(p, EMPTY)
        sig = tuple(sig)
        key = (f, ctx, sig)
        selfname = f.params[0] if (f.cls is not None and not f.static and f.params) else None
        # parameter types
        for p, v in full.items():
            if p == selfname and ctx is not None:
                continue
            self.record_types([('P', key, p)], v)
            # element types of records reachable one level down
        s = self.summary(f, ctx, sig)
        self.frame = fr
        self.events[fr.key].append(('call', f, ctx, node, bound))
        if s.noreturn and not s.ret:
            # effects up to the raise
            pass
        return self.instantiate(s, full, st, node, f)

    def instantiate(self, s, full, st, node, f):
        cache = {}

        def sub_atom(a):
            k = a[0]
            if k == 'p':
                r = cache.get(a)
                if r is None:
                    v = full.get(a[1], EMPTY)
                    for fld in a[2]:
                        if fld == '[:]':
                            v = frozenset(slice_of(x) if x[0] in 'png' else x for x in v)
                        else:
                            v = self.read(v, fld, st)
                    r = cache[a] = v
                return r
            if k == 'f' and a[3]:
                rv = EMPTY
                for x in a[3]:
                    rv |= sub_atom(x)
                return frozenset({('f', a[1], a[2], rv)})
            return frozenset({a})

        def sub(v):
            r = EMPTY
            for a in v:
                r |= sub_atom(a)
            return self.cap(r)

        here = self.loc(node)
        for (a, kind), where in s.muts.items():
            for t in sub_atom(a):
                if t[0] in 'pg' and self.can_mutate(t, kind):
                    k = (t, kind)
                    if kind in ('item', 'aug') or kind.startswith('call:'):
                        t2 = self.strip_slice(t)
                        k = (t2, kind)
                    if k not in self.frame.muts:
                        self.frame.muts[k] = (where[0], where[1:] and where[1] or None, here) if False else \
                            (where[0],) + tuple(where[1:])[:6] + (here,)
        # exit heap
        writes = []
        for (a, fld), v in s.heap.items():
            if a[0] == 'n':
                writes.append((frozenset({a}), fld, sub(v), True))
            else:
                writes.append((sub_atom(a), fld, sub(v), False))
        ret = sub(s.ret)
        for targets, fld, v, isn in writes:
            tg = [t for t in targets if t[0] in 'png']
            if not tg:
                continue
            if isn:
                a = tg[0]
                old = st.heap.get((a, fld))
                st.heap[(a, fld)] = v if old is None else self.cap(old | v)
            elif fld == '[]' and any(t[2] and t[2][-1] == '[:]' for t in tg):
                self.write([self.strip_slice(t) for t in tg], fld, v, st, weak=True)
            else:
                self.write(tg, fld, v, st, weak=(fld == '[]'))
        self._noreturn = s.noreturn and (not s.ret)
        return ret

    def construct(self, c, args, kwargs, star, st, node):
        a = self.new(node, 'inst.' + c.name, {('inst', c)}, st)
        f = c.find('__init__')
        if f is not None:
            self.invoke(f, c, frozenset({a}), args, kwargs, star, st, node)
            self._noreturn = False
        return frozenset({a})

    def call_val(self, e, fv, args, kwargs, star, st):
        r = EMPTY
        self._noreturn = False
        allnr = bool(fv)
        for a in fv:
            k = a[0]
            nr = False
            if k == 'f':
                self._noreturn = False
                r |= self.invoke(a[1], a[2] if a[1].cls is not None else None, a[3], args, kwargs, star, st, e)
                nr = self._noreturn
            elif k == 'k':
                r |= self.construct(a[1], args, kwargs, star, st, e)
            elif k == 'x':
                r |= self.ext_call(e, a[1], args, kwargs, star, st)
            elif k == 'l':
                r |= frozenset(x for x in a[2])
            elif k in 'png':
                ts = self.types(a)
                for t in sorted(ts, key=repr):
                    if isinstance(t, tuple) and t[0] == 'fn':
                        f = t[1]
                        recv = frozenset({(a[0], a[1], ())}) if f.cls is not None and not f.static else EMPTY
                        r |= self.invoke(f, t[2], recv, args, kwargs, star, st, e)
                    elif isinstance(t, tuple) and t[0] == 'cls':
                        r |= self.construct(t[1], args, kwargs, star, st, e)
                    elif isinstance(t, tuple) and t[0] == 'inst':
                        f = t[1].find('__call__')
                        if f is not None:
                            r |= self.invoke(f, t[1], frozenset({a}), args, kwargs, star, st, e)
                    elif isinstance(t, tuple) and t[0] == 'extref':
                        r |= self.ext_call(e, t[1], args, kwargs, star, st)
            allnr = allnr and nr
        self._noreturn = allnr
        if not r:
            r = frozenset({self.new(e, 'call', (), st)})
        return self.cap(r)

    def method_call(self, e, base, name, args, kwargs, star, st):
        r = EMPTY
        fallthrough = []
        self._noreturn = False
        allnr = bool(base)
        for a in base:
            k = a[0]
            if k == 'x':
                allnr = False
                full = a[1] + '.' + name
                if a[1] in self.P.modules:
                    b = self.P.lookup(a[1], name)
                    r |= self.call_val(e, self.binding(b) if b else EMPTY, args, kwargs, star, st)
                else:
                    r |= self.ext_call(e, full, args, kwargs, star, st)
                continue
            if k == 'k':
                f = a[1].find_any(name)
                if f and f[0] == 'method':
                    # C.method(obj, ...): the receiver is explicit
                    fn = f[1]
                    if fn.static or fn.classm:
                        r |= self.invoke(fn, a[1], EMPTY, args, kwargs, star, st, e)
                    elif args:
                        ctxs = sorted(self.insts(args[0]), key=lambda c: c.qual) or [a[1]]
                        for c in ctxs:
                            r |= self.invoke(fn, c if c.is_sub(a[1]) else a[1], args[0], args[1:], kwargs, star, st, e)
                elif f and f[0] == 'inner':
                    r |= self.construct(f[1], args, kwargs, star, st, e)
                allnr = allnr and self._noreturn
                continue
            if k in 'png':
                hit = False
                for c in self.inst_of(a):
                    f = c.find_any(name)
                    if f is None:
                        continue
                    if f[0] == 'method':
                        hit = True
                        self._noreturn = False
                        r |= self.invoke(f[1], c, frozenset({a}), args, kwargs, star, st, e)
                        allnr = allnr and self._noreturn
                    elif f[0] == 'inner':
                        hit = True
                        allnr = False
                        r |= self.construct(f[1], args, kwargs, star, st, e)
                    elif f[0] == 'getter':
                        hit = True
                        allnr = False
                        v = self.apply(f[1], c, {f[1].params[0]: frozenset({a})}, st, e)
                        r |= self.call_val(e, v, args, kwargs, star, st)
                if hit:
                    continue
                allnr = False
                # an attribute holding a callable
                v = st.heap.get((a, name))
                fns = [x for x in (v or ()) if x[0] in 'fklx']
                ts = self.step(self.types(a), name) if v is None else set()
                cal = [t for t in ts if isinstance(t, tuple) and t[0] in ('fn', 'cls', 'extref')]
                if fns:
                    r |= self.call_val(e, frozenset(fns), args, kwargs, star, st)
                    continue
                if cal:
                    r |= self.call_val(e, self.ext(a, name), args, kwargs, star, st)
                    continue
                fallthrough.append(a)
            elif k == 'c':
                allnr = False
                r |= {self.new(e, 'cm', {'str'} if a[1] == 'str' else (), st)}
            else:
                allnr = False
        if fallthrough:
            r |= self.builtin_method(e, fallthrough, name, args, kwargs, star, st)
        self._noreturn = allnr and not fallthrough
        if not r:
            r = frozenset({self.new(e, 'mcall', (), st)})
        self.events[self.frame.key].append(('mcall', name, base, e, args, kwargs))
        return self.cap(r)

    def builtin_method(self, e, atoms, name, args, kwargs, star, st):
        r = EMPTY
        allargs = EMPTY
        for v in args:
            allargs |= v
        for v in kwargs.values():
            allargs |= v
        for a in atoms:
            ts = self.types(a)
            isrng = 'rng' in ts
            if isrng and name in RNG_METHODS:
                self.mut([a], 'rng', e)
                if name in ('shuffle',) and args:
                    self.mut([self.strip_slice(x) for x in args[0] if x[0] in 'png'], 'item', e)
                if name in ('choice', 'permutation') and args:
                    n = self.new(e, 'rnd', (), st)
                    self.write([n], '[]', self.read(args[0], '[]', st), st)
                    r |= {n}
                    if name == 'choice':
                        r |= self.read(args[0], '[]', st)
                else:
                    r |= {self.new(e, 'rnd', {'num'}, st)}
                continue
            known_container = self.is_mutable_container(ts) or 'tuple' in ts or 'df' in ts or 'str' in ts
            if not known_container and (not ts or ts == {'none'} and (name in CONTRACT_MUT or name in CONTRACT_PURE)) and \
                    name not in BUILTIN_METHODS:
                # unknown receiver: interface contract, else class hierarchy analysis
                if name in CONTRACT_MUT:
                    self.mut([a], 'contract:' + name, e)
                    if name in CONTRACT_SELF:
                        r |= {a}
                    else:
                        r |= {self.new(e, 'ctr', (), st)}
                    continue
                if name in CONTRACT_PURE:
                    r |= {self.new(e, 'ctr', (), st)}
                    continue
                cands = [f for f in self.P.by_method.get(name, ()) if not f.abstract and
                         len(f.params) - 1 >= len(args) and f.cls is not None]
                if cands and not self.cha:
                    self.unresolved[self.frame.key].append((name, e.lineno))
                    r |= {self.new(e, 'unk', (), st)}
                    continue
                if cands and len(cands) <= 8:
                    for f in cands:
                        r |= self.invoke(f, f.cls, frozenset({a}), args, kwargs, star, st, e)
                    self._noreturn = False
                    continue
                if name in RNG_METHODS and self.looks_rng(a):
                    self.mut([a], 'rng', e)
                    if name == 'shuffle' and args:
                        self.mut([self.strip_slice(x) for x in args[0] if x[0] in 'png'], 'item', e)
                    r |= {self.new(e, 'rnd', {'num'}, st)}
                    continue
                self.unresolved[self.frame.key].append((name, e.lineno))
                r |= {self.new(e, 'unk', (), st)}
                continue
            if any(isinstance(t, tuple) and t[0] == 'ext' for t in ts) and name in CONTRACT_MUT:
                self.mut([a], 'contract:' + name, e)
                r |= {a} if name in CONTRACT_SELF else {self.new(e, 'ctr', (), st)}
                continue
            if name in LIST_MUT:
                t = a
                if a[2] and a[2][-1] == '[:]' if a[0] in 'png' else False:
                    if name in LIST_ONLY:
                        r |= {self.new(e, 'lm', (), st)}
                        continue
                    t = self.strip_slice(a)
                self.mut([t], 'call:' + name, e)
                if name in ADDERS:
                    if len(args) > ADDERS[name]:
                        self.events[self.frame.key].append(('add', e, t, args[ADDERS[name]]))
                        self.write([t], '[]', args[ADDERS[name]], st, weak=True)
                elif name in EXTENDERS and args:
                    self.write([t], '[]', self.read(args[0], '[]', st), st, weak=True)
                if name in ELEM_METHODS:
                    r |= self.read1(t, '[]', st)
                else:
                    r |= {NONE}
                continue
            inpl = kwargs.get('inplace')
            if inpl is not None and inpl != frozenset({FALSE}):
                self.mut([self.strip_slice(a)], 'call:' + name, e)
            if name in ('get', '__getitem__'):
                r |= self.read1(a, '[]', st)
                if len(args) > 1:
                    r |= args[1]
                elif name == 'get':
                    r |= {NONE}
            elif name == 'items':
                tp = self.new(e, 'item', {'tuple'}, st)
                v = self.read1(a, '[]', st)
                self.write([tp], '#1', v, st)
                self.write([tp], '#0', frozenset({self.new(e, 'key', (), st)}), st)
                self.write([tp], '[]', v, st)
                n = self.new(e, 'items', {'list'}, st)
                self.write([n], '[]', frozenset({tp}), st)
                r |= {n}
            elif name == 'values':
                if 'dict' in ts or not ts:
                    n = self.new(e, 'values', {'list'}, st)
                    self.write([n], '[]', self.read1(a, '[]', st), st)
                    r |= {n}
                else:
                    r |= {a}
            elif name == 'keys':
                r |= {self.new(e, 'keys', {'list'}, st)}
            elif name in ('copy', '__copy__'):
                n = self.new(e, 'copy', {t for t in ts}, st)
                self.write([n], '[]', self.nd_elems(a, ts, st), st)
                r |= {n}
            elif name == 'astype':
                if kwargs.get('copy') == frozenset({FALSE}):
                    r |= {a}
                r |= {self.new(e, 'astype', {t for t in ts if isinstance(t, tuple) and t[0] == 'nd'}, st)}
            elif name in ALIAS_METHODS:
                r |= {a}
            elif name in ('union', 'intersection', 'difference'):
                n = self.new(e, 'setop', {'set'}, st)
                self.write([n], '[]', self.read1(a, '[]', st) | self.read(allargs, '[]', st), st)
                r |= {n}
            elif name in ELEM_METHODS:
                r |= self.read1(a, '[]', st)
            else:
                r |= {self.new(e, 'bm.' + name, (), st)}
        self.ext_args(e, name, args, kwargs, st)
        return r

    def nd_elems(self, a, ts, st):
        if any(isinstance(t, tuple) and t[0] == 'nd' for t in ts) or not ts:
            return EMPTY
        return self.read1(a, '[]', st)

    def looks_rng(self, a):
        tail = a[2][-1] if a[2] else a[1]
        return isinstance(tail, str) and ('random' in tail or 'rng' in tail)

    def ext_args(self, e, name, args, kwargs, st):
        """Generic effects of an external callee on its arguments: out= and RNG objects."""
        o = kwargs.get('out')
        if o:
            self.mut([self.strip_slice(a) for a in o if a[0] in 'png'], 'item', e)
        short = name.split('.')[-1]
        if short in SCALAR_BUILTINS or short.endswith(('Error', 'Warning', 'Exception')) or short in (
                'deepcopy', 'copy', 'clone', 'warn', 'list', 'tuple', 'dict', 'append', 'getattr', 'format', 'extend',
                'insert', 'update', 'get_params'):
            return
        for v in list(args) + list(kwargs.values()):
            for a in v:
                if a[0] in 'png' and 'rng' in self.types(a):
                    self.mut([a], 'rng', e)

    def ext_call(self, e, full, args, kwargs, star, st):
        self._noreturn = False
        if full == 'builtins' or full.startswith('builtins.'):
            full = full[9:]
        short = full.split('.')[-1]
        if short == 'check_random_state':
            return self.seed_call(e, full, args, kwargs, st)
        self.events[self.frame.key].append(('ext', full, e, args, kwargs))
        if full.startswith('numpy.random.') or full.startswith('np.random.'):
            if short in ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'MT19937', 'PCG64'):
                return frozenset({self.new(e, 'rng', {'rng'}, st)})
            if full.endswith('mtrand._rand') or short == 'get_state':
                return EMPTY
            self.mut([('g', 'numpy.random', ())], 'rng', e)
            if short == 'shuffle' and args:
                self.mut([self.strip_slice(a) for a in args[0] if a[0] in 'png'], 'item', e)
            return frozenset({self.new(e, 'grnd', (), st)})
        if full.startswith('random.'):
            if short == 'Random':
                return frozenset({self.new(e, 'rng', {'rng'}, st)})
            self.mut([('g', 'random', ())], 'rng', e)
            if short == 'shuffle' and args:
                self.mut([self.strip_slice(a) for a in args[0] if a[0] in 'png'], 'item', e)
            if short in ('choice', 'sample', 'choices') and args:
                return self.read(args[0], '[]', st) | {self.new(e, 'grnd', (), st)}
            return frozenset({self.new(e, 'grnd', (), st)})
        if full in ARG_MUTATORS:
            i = ARG_MUTATORS[full]
            if len(args) > i:
                tg = [self.strip_slice(a) for a in args[i] if a[0] in 'png']
                if full in ('setattr', 'delattr') and len(args) > 1:
                    names = [a[2].strip('\'"') for a in args[1] if a[0] == 'c' and a[1] == 'str']
                    if names:
                        for nme in names:
                            if full == 'setattr' and len(args) > 2:
                                self.set_attr(args[i], nme, args[2], st, e)
                            else:
                                self.mut(tg, 'attr:' + nme, e)
                    else:
                        self.mut(tg, 'attr:?', e)
                elif full == 'next':
                    return self.read(args[0], '[]', st)
                else:
                    self.mut(tg, 'item', e)
            return frozenset({self.new(e, 'am', (), st)})
        self.ext_args(e, full, args, kwargs, st)
        if full in COPY_FUNCS:
            src = args[0] if args else EMPTY
            ts = self.vtypes(src)
            n = self.new(e, 'deepcopy', ts, st)
            self.record_types([('S', n[1])], src)
            return frozenset({n})
        if full == 'copy.copy':
            src = args[0] if args else EMPTY
            n = self.new(e, 'shallow', self.vtypes(src), st)
            real = frozenset(a for a in src if a[0] in 'png')
            if real:
                st.heap[(n, '*')] = real
            return frozenset({n})
        if full == 'numpy.array':
            src = args[0] if args else EMPTY
            if kwargs.get('copy') == frozenset({FALSE}):
                return src
            n = self.new(e, 'nd', {('nd', None)}, st)
            # object arrays keep references to contained objects
            inst = frozenset(x for x in self.read(src, '[]', st) if self.inst_of(x)) if src else EMPTY
            if inst:
                self.write([n], '[]', inst, st)
            return frozenset({n})
        if full in PASS_FUNCS and kwargs.get('copy') == frozenset({TRUE}):
            return frozenset({self.new(e, 'nd', {('nd', None)}, st)})
        if full in PASS_FUNCS:
            r = args[0] if args else EMPTY
            src = r
            if full.startswith('numpy.') and src:
                # lists are converted (copied), arrays are passed through
                ts = self.vtypes(src)
                if ts and all(t in ('list', 'tuple', 'num', 'deque', 'set', 'dict', 'str', 'bool') for t in kinds(ts)):
                    n = self.new(e, 'nd', {('nd', None)}, st)
                    return frozenset({n})
            return r or frozenset({self.new(e, 'pass', (), st)})
        if full in CONTAINER_FUNCS:
            kind = CONTAINER_FUNCS[full]
            n = self.new(e, kind, {kind}, st)
            src = args[-1] if args and full == 'filter' else (args[0] if args else EMPTY)
            v = self.iter_elem(src, st) if src else EMPTY
            if full == 'dict':
                # dict(pairs) / dict(mapping) / dict(k=v)
                for kw, x in kwargs.items():
                    v |= x
                tup = frozenset(a for a in v if a[0] in 'png' and 'tuple' in self.types(a))
                v = (v - tup) | self.read(tup, '#1', st)
                if any('dict' in self.types(a) for a in src if a[0] in 'png'):
                    v |= self.read(src, '[]', st)
            if full == 'collections.defaultdict' and args:
                v = EMPTY
                for a in args[0]:
                    if a[0] == 'l':
                        v |= a[2]
                    elif a[0] == 'k':
                        v |= self.construct(a[1], [], {}, [], st, e)
                    elif a[0] == 'x' and a[1] in CONTAINER_FUNCS:
                        v |= {self.new(e, 'dd', {CONTAINER_FUNCS[a[1]]}, st)}
            self.write([n], '[]', v, st)
            return frozenset({n})
        if full == 'enumerate':
            tp = self.new(e, 'enum', {'tuple'}, st)
            v = self.iter_elem(args[0], st) if args else EMPTY
            self.write([tp], '#0', frozenset({self.new(e, 'idx', {'num'}, st)}), st)
            self.write([tp], '#1', v, st)
            self.write([tp], '[]', v, st)
            n = self.new(e, 'enuml', {'list'}, st)
            self.write([n], '[]', frozenset({tp}), st)
            return frozenset({n})
        if full in ('zip', 'itertools.zip_longest', 'itertools.product'):
            tp = self.new(e, 'zip', {'tuple'}, st)
            allv = EMPTY
            for i, a in enumerate(args):
                v = self.iter_elem(a, st)
                self.write([tp], '#%d' % i, v, st)
                allv |= v
            for v in star:
                x = self.read(v, '[]', st)
                allv |= x
            self.write([tp], '[]', allv, st)
            n = self.new(e, 'zipl', {'list'}, st)
            self.write([n], '[]', frozenset({tp}), st)
            return frozenset({n})
        if full == 'map':
            # effects of the mapped function on the elements
            v = EMPTY
            if len(args) > 1:
                v = self.call_val(e, args[0], [self.iter_elem(a, st) for a in args[1:]], {}, [], st)
            n = self.new(e, 'map', {'list'}, st)
            self.write([n], '[]', v, st)
            return frozenset({n})
        if full in ('min', 'max'):
            r = EMPTY
            if len(args) == 1:
                r = self.iter_elem(args[0], st)
            else:
                for a in args:
                    r |= a
            return r | {self.new(e, 'mm', {'num'}, st)}
        if full == 'getattr' and len(args) >= 2:
            names = [a[2].strip('\'"') for a in args[1] if a[0] == 'c' and a[1] == 'str']
            r = EMPTY
            for nme in names:
                r |= self.get_attr(args[0], nme, st, e)
            if len(args) > 2:
                r |= args[2]
            if not names:
                for a in args[0]:
                    if a[0] in 'png':
                        r |= self.ext(a, '?')
            return r
        if full == 'type' and args:
            return frozenset(('k', c) for c in self.insts(args[0])) or frozenset({self.new(e, 'type', (), st)})
        if full in SCALAR_BUILTINS:
            if full == 'sum' and args:
                el = self.vtypes(self.iter_elem(args[0], st))
                return frozenset({self.new(e, 'sum', {t for t in el if isinstance(t, tuple) and t[0] == 'nd'} or {'num'}, st)})
            if full == 'float' and args and len(args[0]) == 1:
                a = next(iter(args[0]))
                if a[0] == 'c':
                    return frozenset({('c', 'float', 'float(%s)' % a[2])})
            ty = {'len': 'num', 'int': 'num', 'float': 'num', 'str': 'str', 'repr': 'str', 'abs': 'num', 'round': 'num',
                  'range': 'list', 'bool': 'bool', 'isinstance': 'bool', 'hasattr': 'bool'}.get(full)
            n = self.new(e, 'b.' + full, {ty} if ty else (), st)
            if full == 'range':
                self.write([n], '[]', frozenset({self.new(e, 'ri', {'num'}, st)}), st)
            return frozenset({n})
        if full.startswith('numpy.'):
            n = self.new(e, 'np', {('nd', None)} if short in NP_ARRAY else set(), st)
            if short in ('concatenate', 'append', 'vstack', 'hstack', 'stack', 'insert', 'delete', 'where', 'take') and args:
                # object arrays: references survive
                inst = frozenset(x for x in self.read(args[0], '[]', st) if x[0] in 'png' and self.inst_of(x))
                if inst:
                    self.write([n], '[]', inst, st)
            return frozenset({n})
        if full.startswith('pandas.') and short in ('DataFrame', 'Series'):
            n = self.new(e, 'df', {'df'}, st)
            src = args[0] if args else kwargs.get('data', EMPTY)
            # may share memory with the data it wraps
            alias = frozenset(a for a in src if a[0] in 'png' and
                              any(t == 'df' or (isinstance(t, tuple) and t[0] == 'nd') for t in self.types(a)))
            return frozenset({n}) | alias
        if full.startswith('pandas.'):
            return frozenset({self.new(e, 'df', {'df'}, st)})
        ts = set()
        if short[:1].isupper():
            ts = {('ext', full)}
        return frozenset({self.new(e, 'ext', ts, st)})


NP_ARRAY = {'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'array', 'asarray', 'concatenate', 'append', 'vstack',
            'hstack', 'stack', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'eye', 'identity', 'tile', 'repeat', 'insert',
            'delete', 'unique', 'argsort', 'sort', 'where', 'column_stack', 'diag', 'copy', 'resize', 'roll', 'flip', 'bincount',
            'array_split', 'cumsum', 'fliplr', 'flipud', 'dstack', 'r_', 'c_', 'matrix', 'mat'}


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body if False else t
    return _Loader().visit(_copy(t))


def _copy(n):
    import copy
    return copy.deepcopy(n)


class _Loader(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        if hasattr(node, 'ctx'):
            node.ctx = ast.Load()
        return node
