"""Program model: modules, classes (with MRO), functions, imports.  Pure AST, nothing is executed."""
import ast
import os
from .desugar import Desugar
import re

REPO = os.environ.get('SKCHECK_REPO', '/repo')
PKG = 'skmultiflow'
SRC = os.path.join(REPO, 'src', PKG)

EXCLUDE_DIRS = {'_demos', 'tests', '__pycache__', 'libNearestNeighbors'}


class AnalysisBroken(Exception):
    """The tree cannot be analysed (vanished anchor, unparsable unit ...)."""


# ----------------------------------------------------------------------------------------------
# Cython front end: the two .pyx units are plain Python plus C type declarations.  Line count and
# line numbers are preserved.
_CT = (r'(?:unsigned\s+)?(?:int|long|double|float|bool|bint|void|object|str|dict|list|tuple|set|size_t|'
       r'np\.ndarray(?:\[[^\]]*\])?|np\.\w+|DTYPE_t|[A-Z]\w+)')
_CDEF_CLASS = re.compile(r'^(\s*)(?:cdef|cpdef)\s+(?:public\s+)?class\s+')
_CDEF_FUNC = re.compile(r'^(\s*)(?:cpdef|cdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*)$' % _CT)
_CDEF_VAR = re.compile(r'^(\s*)cdef\s+(?:public\s+|readonly\s+)?(.*)$')
_ARG = re.compile(r'^(\s*)(?:%s)\s+(\w+\s*(?:=.*)?)$' % _CT)


def _split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def _fix_args(args):
    res = []
    for a in _split_args(args):
        m = _ARG.match(a)
        res.append((m.group(1) + m.group(2)) if m else a)
    return ','.join(res)


def pyx_to_py(text):
    out = []
    lines = text.split('\n')
    i = 0
    infunc_cont = False
    while i < len(lines):
        line = re.sub(r'<\s*(?:unsigned\s+)?(?:int|long|double|float|bint|size_t|object|np\.\w+|DTYPE_t)\s*>(?=[\w(])',
                      '', lines[i])
        st = line.strip()
        if st.startswith('cimport ') or re.match(r'from\s+\S+\s+cimport\s', st) or st.startswith('ctypedef '):
            out.append(line[:len(line) - len(line.lstrip())] + 'pass')
            i += 1
            continue
        m = _CDEF_CLASS.match(line)
        if m:
            out.append(m.group(1) + 'class ' + line[m.end():])
            i += 1
            continue
        m = _CDEF_FUNC.match(line) if re.match(r'^\s*(cpdef|cdef)\s', line) and '(' in line and '=' not in line.split('(')[0] else None
        if m or re.match(r'^\s*def\s+\w+\s*\(', line):
            if m:
                head, rest = m.group(1) + 'def ' + m.group(2) + '(', m.group(3)
            else:
                k = line.index('(')
                head, rest = line[:k + 1], line[k + 1:]
            # gather the signature up to the closing parenthesis
            depth = 1
            buf = rest
            n_extra = 0
            while True:
                depth = 1
                end = None
                for idx, ch in enumerate(buf):
                    if ch == '(':
                        depth += 1
                    elif ch == ')':
                        depth -= 1
                        if depth == 0:
                            end = idx
                            break
                if end is not None:
                    break
                n_extra += 1
                if i + n_extra >= len(lines):
                    raise AnalysisBroken('unterminated signature in pyx line %d' % (i + 1))
                buf += ' ' + lines[i + n_extra].strip()
            args = _fix_args(buf[:end])
            tail = buf[end + 1:]
            tail = re.sub(r'^\s*except\s*[^:]*:', ':', tail)
            tail = re.sub(r'^\s*nogil\s*:', ':', tail)
            out.append(head + args + ')' + tail)
            out.extend([''] * n_extra)
            i += n_extra + 1
            continue
        m = _CDEF_VAR.match(line)
        if m:
            body = m.group(2)
            if '=' in body:
                m2 = re.match(r'^(?:%s)\s+(\w+\s*=.*)$' % _CT, body)
                out.append(m.group(1) + (m2.group(1) if m2 else 'pass'))
            else:
                out.append(m.group(1) + 'pass')
            i += 1
            continue
        out.append(line)
        i += 1
    return '\n'.join(out)


# ----------------------------------------------------------------------------------------------
class Func:
    __slots__ = ('name', 'node', 'module', 'cls', 'params', 'defaults', 'vararg', 'kwarg', 'kwonly',
                 'static', 'classm', 'kind', 'qual', 'abstract', 'lam', '__dict__')

    def __init__(self, node, module, cls, name=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        a = node.args
        pos = list(a.posonlyargs) + list(a.args)
        self.params = [x.arg for x in pos]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self.static = self.classm = self.abstract = False
        self.kind = 'method' if cls else 'func'
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            if s == 'staticmethod':
                self.static = True
            elif s == 'classmethod':
                self.classm = True
            elif s.endswith('abstractmethod'):
                self.abstract = True
            elif s == 'property' or s.endswith('cached_property'):
                self.kind = 'getter'
            elif s.endswith('.setter'):
                self.kind = 'setter'
            elif s.endswith('.deleter'):
                self.kind = 'deleter'
        self.qual = (cls.qual + '.' if cls else module.name + '.') + self.name
        if self.kind in ('setter', 'deleter'):
            self.qual += '@' + self.kind
        self.lam = False

    @property
    def file(self):
        return self.module.rel

    @property
    def all_params(self):
        return self.params + self.kwonly

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = (outer.qual if outer else module.name) + '.' + node.name
        self.methods, self.getters, self.setters, self.deleters = {}, {}, {}, {}
        self.class_attrs = {}
        self.inner = {}
        self.base_exprs = node.bases
        self.bases = []
        self.ext_bases = []
        self._mro = None
        self.subs = []

    def __repr__(self):
        return '<Class %s>' % self.name

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name, table='methods', after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in getattr(c, table):
                return getattr(c, table)[name]
            # a property or class attribute earlier in the MRO hides a later method
        return None

    def find_any(self, name, after=None):
        """First binding of name along the MRO: ('method'|'getter'|'attr', obj, cls)."""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.getters:
                return 'getter', c.getters[name], c
            if name in c.methods:
                return 'method', c.methods[name], c
            if name in c.inner:
                return 'inner', c.inner[name], c
            if name in c.class_attrs:
                return 'attr', c.class_attrs[name], c
        return None

    def is_sub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subs)
        return out

    def abstract_methods(self):
        out = set()
        for c in reversed(self.mro()):
            for n, f in list(c.methods.items()) + list(c.getters.items()):
                if f.abstract:
                    out.add(n)
                else:
                    out.discard(n)
        return out


def _c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([_c3(b) for b in cls.bases] + [cls.bases])


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.name.lstrip('_') + name
    return name


class Module:
    def __init__(self, name, path, text, tree, is_pkg):
        self.name, self.path, self.text, self.tree, self.is_pkg = name, path, text, tree, is_pkg
        self.rel = os.path.relpath(path, REPO)
        self.names = {}
        self.star = []


class _Mangler(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _m(self, n):
        if self.stack and n.startswith('__') and not n.endswith('__'):
            return '_' + self.stack[-1].lstrip('_') + n
        return n

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self._m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.name = self._m(node.name)
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        node.id = self._m(node.id)
        return node


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.root = self.src
        self.modules = {}
        self.classes = []
        self.funcs = []
        self.by_method = {}
        self._load()
        self._bind()
        self._link()

    # -- loading
    def _load(self):
        if not os.path.isdir(self.src):
            raise AnalysisBroken('source directory %s vanished' % self.src)
        for d, dirs, files in os.walk(self.src):
            dirs[:] = sorted(x for x in dirs if x not in EXCLUDE_DIRS)
            for f in sorted(files):
                if f == 'setup.py' or not f.endswith(('.py', '.pyx')):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.dirname(self.src))
                mod = rel[:-4] if f.endswith('.pyx') else rel[:-3]
                mod = mod.replace(os.sep, '.')
                pkg = False
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                    pkg = True
                with open(p, encoding='utf-8') as h:
                    text = h.read()
                code = pyx_to_py(text) if f.endswith('.pyx') else text
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(code)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))
                tree = Desugar().visit(_Mangler().visit(tree))
                self.modules[mod] = Module(mod, p, text, tree, pkg)
        import hashlib
        h = hashlib.sha256()
        for k in sorted(self.modules):
            h.update(k.encode() + b'\0' + self.modules[k].text.encode())
        self.digest = h.hexdigest()[:16]
        if len(self.modules) < 100 and not self.src.endswith('lawbook'):
            raise AnalysisBroken('only %d modules found under %s' % (len(self.modules), self.src))

    def _bind(self):
        for m in self.modules.values():
            self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        m.star.append(base)
                    else:
                        m.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.FunctionDef):
                f = Func(s, m, None)
                m.names[s.name] = ('func', f)
                self.funcs.append(f)
            elif isinstance(s, ast.ClassDef):
                c = self._mk_class(s, m, None)
                m.names[s.name] = ('class', c)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and s.value is not None:
                        m.names[t.id] = ('var', m, t.id, s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                for b in ('body', 'orelse', 'finalbody'):
                    self._bind_body(m, getattr(s, b, []) or [])
                for h in getattr(s, 'handlers', []):
                    self._bind_body(m, h.body)

    def _mk_class(self, node, m, outer):
        c = Class(node, m, outer)
        self.classes.append(c)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, m, c)
                tab = {'getter': c.getters, 'setter': c.setters, 'deleter': c.deleters}.get(f.kind, c.methods)
                tab[s.name] = f
                self.funcs.append(f)
            elif isinstance(s, ast.ClassDef):
                c.inner[s.name] = self._mk_class(s, m, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # alias of a method, e.g.  get_x = other
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
                        else:
                            c.class_attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.class_attrs[s.target.id] = s.value
        return c

    # -- name resolution
    def lookup(self, modname, name, seen=None):
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        b = m.names.get(name)
        if b is None:
            for s in m.star:
                r = self.lookup(s, name, seen)
                if r and r[0] != 'ext':
                    return r
            sub = modname + '.' + name
            if sub in self.modules:
                return ('mod', sub)
            return None
        if b[0] == 'from':
            full = b[1] + '.' + b[2]
            if b[1] in self.modules:
                r = self.lookup(b[1], b[2], seen)
                if r is not None:
                    return r
                if full in self.modules:
                    return ('mod', full)
                return ('ext', full)
            if full in self.modules:
                return ('mod', full)
            return ('ext', full)
        return b

    def resolve_expr(self, module, node):
        """Resolve a dotted expression at module scope to a binding."""
        if isinstance(node, ast.Name):
            return self.lookup(module.name, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            if b[0] == 'mod':
                if b[1] in self.modules:
                    return self.lookup(b[1], node.attr)
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'class' and node.attr in b[1].inner:
                return ('class', b[1].inner[node.attr])
        return None

    def _link(self):
        for c in self.classes:
            for e in c.base_exprs:
                b = self.resolve_expr(c.module, e)
                if b and b[0] == 'class':
                    c.bases.append(b[1])
                    b[1].subs.append(c)
                else:
                    c.ext_bases.append(ast.unparse(e))
        for c in self.classes:
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)

    def cls(self, name):
        r = [c for c in self.classes if c.name == name or c.qual == name]
        return r[0] if r else None

    def need_cls(self, name):
        c = self.cls(name)
        if c is None:
            raise AnalysisBroken('anchor vanished: class %s' % name)
        return c

    def concrete_subclasses(self, base):
        b = self.need_cls(base)
        return [c for c in self.classes if c is not b and c.is_sub(b) and not c.abstract_methods()]
