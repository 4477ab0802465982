"""C27: the library leaves process-wide settings, module state, classes and files alone."""
import ast

FLOORS = {'call_obligations': 3000, 'store_obligations': 1500}
SETTERS = {
    'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings',
    'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.random.seed', 'numpy.random.set_state', 'numpy.setbufsize',
    'numpy.set_string_function', 'random.seed', 'random.setstate', 'pandas.set_option', 'pandas.reset_option', 'matplotlib.use', 'matplotlib.rc',
    'matplotlib.rcdefaults', 'matplotlib.pyplot.rc', 'matplotlib.pyplot.rcdefaults', 'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff',
    'matplotlib.pyplot.switch_backend', 'matplotlib.style.use', 'matplotlib.pyplot.style.use', 'matplotlib.rcParams.update',
    'matplotlib.pyplot.rcParams.update', 'os.chdir', 'os.umask', 'os.putenv', 'os.unsetenv', 'os.environ.update', 'os.environ.setdefault',
    'os.environ.pop', 'os.nice', 'os.setpriority', 'os.sched_setaffinity', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval',
    'sys.path.append', 'sys.path.insert', 'sys.modules.pop', 'locale.setlocale', 'signal.signal', 'signal.alarm', 'logging.basicConfig',
    'logging.disable', 'logging.setLoggerClass', 'logging.captureWarnings', 'gc.disable', 'gc.enable', 'gc.set_threshold', 'gc.freeze',
    'atexit.register', 'faulthandler.enable', 'threading.stack_size', 'threading.settrace', 'multiprocessing.set_start_method',
    'sklearn.set_config', 'scipy.special.seterr', 'socket.setdefaulttimeout', 'time.tzset', 'sys.exit', 'os._exit', 'os.abort', 'os.kill'}
DESTROY = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.replace', 'os.renames', 'os.truncate', 'shutil.rmtree', 'shutil.move',
           'os.makedirs', 'os.mkdir', 'os.link', 'os.symlink', 'os.chmod', 'os.system', 'os.popen', 'subprocess.run', 'subprocess.call',
           'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen', 'shutil.copy', 'shutil.copyfile', 'shutil.copytree', 'tempfile.mkstemp',
           'tempfile.mkdtemp'}
FILE_FUNCS = {'open': 0, 'io.open': 0, 'codecs.open': 0, 'numpy.save': 0, 'numpy.savetxt': 0, 'numpy.savez': 0, 'matplotlib.pyplot.savefig': 0, 'joblib.dump': 1}
FILE_METHODS = {'to_csv', 'to_pickle', 'to_excel', 'to_json', 'savefig', 'tofile', 'write_text', 'write_bytes', 'to_hdf', 'to_parquet'}
MUT = {'append', 'extend', 'insert', 'pop', 'popleft', 'appendleft', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem',
       'fill', 'put', 'itemset', '__setitem__'}
GUARDS = {'warnings.catch_warnings': 'warnings.', 'numpy.errstate': 'numpy.seterr', 'matplotlib.pyplot.rc_context': 'matplotlib.',
          'matplotlib.rc_context': 'matplotlib.', 'numpy.printoptions': 'numpy.set_printoptions', 'pandas.option_context': 'pandas.'}


def skip(module):
    return '._demos' in module.name or module.name.endswith('setup')


def check(prog, res):
    res.rule('no function, and no import, changes process-wide settings (warning filters, numpy/pandas/matplotlib/logging configuration, '
             'global random state, environment, working directory, signal handlers, recursion limit) outside a context manager that restores them')
    res.rule('module-level variables, attributes of other modules, and class attributes are never rebound or mutated once imported')
    res.rule('files are only written where an argument or configured attribute says; nothing is deleted, renamed or executed')
    calls = guarded_calls(prog)
    for m in prog.modules.values():
        if skip(m):
            continue
        V = Visitor(prog, m, res, calls)
        V.body(m.tree.body, None, [], top=True)


ALIAS = {}      # imports made inside the function looked at


def dotted(prog, m, node, local):
    """Full external name of an expression, or None."""
    n, tail = node, []
    while isinstance(n, ast.Attribute):
        tail.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name) and n.id in ALIAS:
        return '.'.join([ALIAS[n.id]] + tail[::-1])
    if not isinstance(n, ast.Name) or n.id in local:
        return None
    b = prog.resolve_expr(m, node)
    if b is None and isinstance(node, ast.Name):
        import builtins
        return node.id if hasattr(builtins, node.id) else None
    if b is None:
        return None
    return b[1] if b[0] in ('ext', 'mod') else None


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n


def locals_of(f):
    names = set()
    glob = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.arg):
            names.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            pass
    return names - glob, glob


def guarded_calls(prog):
    """function name -> set of guard kinds (frozensets) under which it is called, over the whole program."""
    out = {}
    for m in prog.modules.values():
        if skip(m):
            continue

        def go(n, guards):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                g = guards | {GUARDS[d] for it in n.items if isinstance(it.context_expr, ast.Call)
                              for d in [dotted(prog, m, it.context_expr.func, ())] if d in GUARDS}
                for it in n.items:
                    go(it.context_expr, guards)
                for x in n.body:
                    go(x, g)
                return
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm:
                    out.setdefault(nm, []).append(frozenset(guards))
            for x in ast.iter_child_nodes(n):
                go(x, guards)
        go(m.tree, frozenset())
    return out


PAIRS = {'numpy.get_printoptions': 'numpy.set_printoptions', 'numpy.geterr': 'numpy.seterr', 'numpy.seterr': 'numpy.seterr',
         'numpy.random.get_state': 'numpy.random.set_state', 'random.getstate': 'random.setstate', 'sys.getrecursionlimit': 'sys.setrecursionlimit',
         'os.getcwd': 'os.chdir', 'pandas.get_option': 'pandas.set_option', 'locale.getlocale': 'locale.setlocale', 'signal.signal': 'signal.signal'}


def restores(prog, m, f, local):
    """Setter calls of f that are undone before f returns: the old value is saved in a variable and set again at the end."""
    save, sets = {}, []
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            d = dotted(prog, m, n.value.func, local)
            if d in PAIRS:
                save[n.targets[0].id] = (PAIRS[d], n.lineno)
        if isinstance(n, ast.Call):
            d = dotted(prog, m, n.func, local)
            if d in PAIRS.values():
                used = {x.id for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                sets.append((n.lineno, d, n, used))
    ok = set()
    finals = {x for t in ast.walk(f) if isinstance(t, ast.Try) for s in t.finalbody for x in ast.walk(s)}
    for var, (setter, line) in save.items():
        back = [(ln, c) for ln, d, c, used in sets if d == setter and var in used]
        if not back:
            continue
        last, node = max(back, key=lambda b: b[0])
        first = min([ln for ln, d, c, used in sets if d == setter])
        leaves = [r for r in ast.walk(f) if isinstance(r, ast.Return) and first < r.lineno < last]
        if leaves and node not in finals:
            continue
        ok |= {c for ln, d, c, used in sets if d == setter and ln <= last}
    return ok


class Visitor:
    def __init__(self, prog, m, res, calls):
        self.P, self.m, self.res, self.calls = prog, m, res, calls
        self.local, self.glob = set(), set()
        self.cls = self.func = None
        self.saved = set()

    def where(self):
        return '.'.join([self.m.name] + [c for c in self.cls or ()] + ([self.func.name] if self.func is not None else []))

    def owner(self):
        return '.'.join([self.m.name] + [c for c in self.cls or ()] + ([self.func.name] if self.func is not None and not self.cls else []))

    def body(self, stmts, func, guards, top=False):
        for s in stmts:
            self.go(s, frozenset(guards))

    def go(self, n, guards):
        if isinstance(n, ast.ClassDef):
            old = self.cls
            self.cls = (old or ()) + (n.name,)
            for x in n.body:
                self.go(x, guards)
            self.cls = old
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            old = (self.local, self.glob, self.func)
            loc, gl = locals_of(n)
            self.local = (self.local if self.func is not None else set()) | loc
            self.glob, self.func = gl, n
            for x in n.args.defaults + n.args.kw_defaults:
                if x is not None:
                    self.go(x, guards)
            had = dict(ALIAS)
            for x in ast.walk(n):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        ALIAS[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                    for a in x.names:
                        ALIAS[a.asname or a.name] = x.module + '.' + a.name
            self.saved = restores(self.P, self.m, n, self.local)
            for x in n.body:
                self.go(x, frozenset())
            ALIAS.clear()
            ALIAS.update(had)
            self.saved = set()
            self.local, self.glob, self.func = old
            return
        if isinstance(n, ast.With):
            g = guards | {GUARDS[d] for it in n.items if isinstance(it.context_expr, ast.Call)
                          for d in [dotted(self.P, self.m, it.context_expr.func, self.local)] if d in GUARDS}
            for it in n.items:
                self.go(it.context_expr, guards)
            for x in n.body:
                self.go(x, g)
            return
        if isinstance(n, ast.Call):
            self.call(n, guards)
        elif isinstance(n, (ast.Attribute, ast.Subscript, ast.Name)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.store(n)
        for x in ast.iter_child_nodes(n):
            self.go(x, guards)

    def covered(self, name, guards):
        """Is `name` used where a context manager restores what it sets (here, or at every call of this helper)?"""
        if any(name.startswith(g) for g in guards):
            return True
        if self.func is None:
            return False
        sites = self.calls.get(self.func.name, [])
        return bool(sites) and self.func.name.startswith('_') and not self.func.name.startswith('__') and \
            all(any(name.startswith(g) for g in s) for s in sites)

    def call(self, n, guards):
        self.res.count('call_obligations')
        d = dotted(self.P, self.m, n.func, self.local)
        at = (self.m.rel, n.lineno)
        if d in SETTERS and n not in self.saved and not self.covered(d, guards):
            self.res.add('process-setting', '%s %s' % (self.owner(), d), '%s calls %s, which changes the whole process' % (self.where(), d), at)
        if d in DESTROY:
            self.res.add('side-effect', '%s %s' % (self.where(), d), '%s calls %s' % (self.where(), d), at)
        meth = n.func.attr if isinstance(n.func, ast.Attribute) else None
        if d in FILE_FUNCS or d is None and meth in FILE_METHODS:
            pos = FILE_FUNCS.get(d, 0)
            path = n.args[pos] if len(n.args) > pos else next((k.value for k in n.keywords if k.arg in ('file', 'fname', 'path', 'path_or_buf', 'filename')), None)
            mode = n.args[1] if d == 'open' and len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            writes = d != 'open' or mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and
                                                              not set(mode.value) & set('wax+'))
            if writes and path is not None:
                self.res.count('file_obligations')
                if not self.named(path):
                    self.res.add('file', '%s' % self.where(), '%s writes the file %s, which no argument names' % (self.where(), ast.unparse(path)), at)
        # mutation through a method
        if meth in MUT:
            self.shared(n.func.value, n, 'calls .%s on' % meth)

    def named(self, path):
        """The path is an argument or a configured attribute (possibly through a local variable computed from one)."""
        ok = False
        for x in ast.walk(path):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and isinstance(path, ast.Constant):
                return False
            if isinstance(x, ast.Name) and x.id in self.local:
                ok = True
            if isinstance(x, ast.Call) and dotted(self.P, self.m, x.func, self.local) in ('os.getcwd', 'os.path.expanduser', 'tempfile.gettempdir', 'os.path.dirname'):
                return False
        return ok

    def store(self, n):
        self.res.count('store_obligations')
        if isinstance(n, ast.Name):
            if n.id in self.glob and self.func is not None:
                self.res.add('module-state', '%s %s' % (self.where(), n.id), '%s rebinds the module-level variable %s' % (self.where(), n.id), (self.m.rel, n.lineno))
            return
        self.shared(n.value, n, 'assigns into', n)

    def shared(self, base, n, verb, target=None):
        """base: expression whose object is changed."""
        at = (self.m.rel, n.lineno)
        r = root(base)
        text = ast.unparse(base)
        # type(self).x = ..., self.__class__.x = ...
        chain = base
        while isinstance(chain, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(chain, ast.Attribute) and chain.attr == '__class__' or \
                    isinstance(chain, ast.Call) and isinstance(chain.func, ast.Name) and chain.func.id == 'type' and len(chain.args) == 1:
                self.res.add('class-state', '%s %s' % (self.where(), text), '%s %s %s, shared by all objects of the class' % (self.where(), verb, text), at)
                return
            chain = chain.value if not isinstance(chain, ast.Call) else chain.func
        if not isinstance(r, ast.Name) or r.id in self.local:
            if isinstance(r, ast.Name) and self.func is not None and r.id == 'cls' and self.func.args.args and self.func.args.args[0].arg == 'cls':
                self.res.add('class-state', '%s %s' % (self.where(), text), '%s %s %s, shared by all objects of the class' % (self.where(), verb, text), at)
            return
        if self.func is None:
            return          # building up a module-level value at import
        b = self.P.lookup(self.m.name, r.id)
        if b is None:
            return
        if b[0] == 'class':
            self.res.add('class-state', '%s %s' % (self.where(), text), '%s %s %s, shared by all objects of the class' % (self.where(), verb, text), at)
        elif b[0] in ('mod', 'ext'):
            if verb.startswith('calls') and (isinstance(base, ast.Name) or self.P.resolve_expr(self.m, base) is None or
                                             dotted(self.P, self.m, base, ()) not in ('os.environ', 'sys.path', 'sys.modules', 'warnings.filters')):
                return      # np.append(...), copy.copy ...
            self.res.add('module-state', '%s %s' % (self.where(), text), '%s %s %s, state of another module' % (self.where(), verb, text), at)
        elif b[0] not in ('func',):
            self.res.add('module-state', '%s %s' % (self.where(), text), '%s %s the module-level value %s' % (self.where(), verb, text), at)
