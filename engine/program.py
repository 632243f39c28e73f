"""Loading and name resolution of the analysed package (pure syntax, nothing imported)."""
import ast
import os


class ModuleInfo:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.bind = {}       # name -> list of ('func'|'class'|'import'|'from'|'assign', payload, node)
        self.is_pkg = path.endswith('__init__.py')
        self.globals_cache = {}
        self.gnames = set()


class FunctionInfo:
    def __init__(self, name, node, module, cls=None, kind='func', parent=None):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.parent = parent
        self.qual = module.name + ':' + ((cls.name + '.') if cls else '') + name
        if kind == 'setter':
            self.qual += '=setter'
        a = node.args
        self.posonly = [x.arg for x in getattr(a, 'posonlyargs', [])]
        self.params = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.abstract = False
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d

    def where(self):
        return '%s:%d' % (os.path.relpath(self.module.path, Program.ROOT), getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return '<fn %s>' % self.qual


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = module.name + ':' + name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self._mro = None
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kind = 'func'
            abstract = False
            for d in s.decorator_list:
                if isinstance(d, ast.Name) and d.id in ('property', 'cached_property'):
                    kind = 'property' if d.id == 'property' else 'cached_property'
                elif isinstance(d, ast.Attribute) and d.attr == 'cached_property':
                    kind = 'cached_property'
                elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                    kind = 'static'
                elif isinstance(d, ast.Name) and d.id == 'classmethod':
                    kind = 'classmethod'
                elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                    kind = 'setter'
                elif isinstance(d, ast.Attribute) and d.attr == 'abstractmethod' or isinstance(d, ast.Name) and d.id == 'abstractmethod':
                    abstract = True
            fi = FunctionInfo(s.name, s, self.module, self, kind)
            fi.abstract = abstract
            if kind == 'setter':
                self.setters[s.name] = fi
            else:
                self.methods[s.name] = fi
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.attrs[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for b in ast.iter_child_nodes(s):
                if isinstance(b, ast.stmt):
                    self._add(b)

    def __repr__(self):
        return '<cls %s>' % self.qual


class Program:
    ROOT = '/repo'

    def __init__(self, root='/repo', package='pyHalo'):
        Program.ROOT = root
        self.root, self.package = root, package
        self.modules = {}
        self.paths = {}
        for dp, dn, fn in os.walk(os.path.join(root, package)):
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in fn:
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel = rel[:-1]
                    self.paths['.'.join(rel)] = p
        self.classes_by_name = {}
        self.consulted = set()

    def module(self, name):
        m = self.modules.get(name)
        if m is None and name in self.paths:
            with open(self.paths[name], encoding='utf-8') as f:
                src = f.read()
            m = ModuleInfo(name, self.paths[name], ast.parse(src), src)
            self.modules[name] = m
            self._collect(m, m.tree.body)
        if m is not None:
            self.consulted.add(name)
        return m

    def load_all(self, skip=()):
        for n in sorted(self.paths):
            if not any(n.split('.')[-1].startswith(s) for s in skip):
                self.module(n)

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.bind.setdefault(s.name, []).append(('func', FunctionInfo(s.name, s, m), s))
            elif isinstance(s, ast.ClassDef):
                m.bind.setdefault(s.name, []).append(('class', ClassInfo(s.name, s, m), s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.bind.setdefault(a.asname, []).append(('import', a.name, s))
                    else:
                        m.bind.setdefault(a.name.split('.')[0], []).append(('import', a.name.split('.')[0], s))
            elif isinstance(s, ast.ImportFrom):
                mod = self.absmod(m, s)
                for a in s.names:
                    if a.name == '*':
                        m.bind.setdefault('*', []).append(('star', mod, s))
                    else:
                        m.bind.setdefault(a.asname or a.name, []).append(('from', (mod, a.name), s))
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.bind.setdefault(n.id, []).append(('assign', (t, s), s))
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect(m, getattr(s, f, []))
                for h in getattr(s, 'handlers', []):
                    self._collect(m, h.body)

    def absmod(self, m, node):
        if node.level == 0:
            return node.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def resolve(self, m, name, _seen=None):
        """-> ('func',fi)|('class',ci)|('mod',name)|('ext',dotted)|('assign',(m,target,stmt))|None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        bs = m.bind.get(name)
        if not bs:
            for k, mod, s in m.bind.get('*', []):
                if mod in self.paths:
                    r = self.resolve(self.module(mod), name, _seen)
                    if r:
                        return r
            sub = m.name + '.' + name
            if sub in self.paths:
                return ('mod', sub)
            import builtins
            for k, mod, s in m.bind.get('*', []):
                if mod not in self.paths and not hasattr(builtins, name):
                    return ('ext', {'np': 'numpy'}.get(name, '%s.%s' % (mod, name)))
            return None
        kind, payload, node = bs[-1]
        if kind == 'func':
            return ('func', payload)
        if kind == 'class':
            return ('class', payload)
        if kind == 'import':
            if payload in self.paths:
                return ('mod', payload)
            return ('ext', payload)
        if kind == 'from':
            mod, n = payload
            return self.resolve_from(mod, n, _seen)
        if kind == 'assign':
            return ('assign', (m,) + payload)

    def resolve_from(self, mod, n, _seen=None):
        if mod in self.paths:
            r = self.resolve(self.module(mod), n, _seen)
            if r is None and (mod + '.' + n) in self.paths:
                return ('mod', mod + '.' + n)
            return r
        if mod and (mod == self.package or mod.startswith(self.package + '.')):
            return None
        return ('ext', '%s.%s' % (mod, n))

    # ------------------------------------------------ classes
    def cls(self, dotted):
        """'pkg.mod:Name' -> ClassInfo"""
        mod, n = dotted.split(':')
        m = self.module(mod)
        if m is None:
            return None
        r = self.resolve(m, n)
        return r[1] if r and r[0] == 'class' else None

    def func(self, dotted):
        mod, n = dotted.split(':')
        m = self.module(mod)
        if m is None:
            return None
        if '.' in n:
            c, f = n.split('.')
            ci = self.cls(mod + ':' + c)
            return self.lookup(ci, f) if ci else None
        r = self.resolve(m, n)
        return r[1] if r and r[0] == 'func' else None

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            r = self.resolve_expr(ci.module, b)
            if r and r[0] == 'class':
                out.append(r[1])
            else:
                out.append(None)
        return out

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == 'mod':
                return self.resolve_from(r[1], e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
        return None

    def mro(self, ci):
        if ci._mro is None:
            seqs = []
            for b in self.bases(ci):
                if b is not None and b is not ci:
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in self.bases(ci) if b is not None and b is not ci])
            out = [ci]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in z[1:] for z in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if h in s:
                        s.remove(h)
            ci._mro = out
        return ci._mro

    def lookup(self, ci, name, after=None):
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def all_methods(self, ci):
        out = {}
        for c in reversed(self.mro(ci)):
            out.update(c.methods)
        return out

    def lookup_setter(self, ci, name):
        for c in self.mro(ci):
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def lookup_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def has_ext_base(self, ci):
        for c in self.mro(ci):
            if any(b is None for b in self.bases(c)):
                for e, b in zip(c.node.bases, self.bases(c)):
                    if b is None and not (isinstance(e, ast.Name) and e.id in ('object', 'ABC', 'Generic', 'Protocol')) and not (isinstance(e, ast.Attribute) and e.attr == 'ABC'):
                        return True
        return False

    def all_classes(self):
        for m in list(self.modules.values()):
            for bs in m.bind.values():
                for k, p, _ in bs:
                    if k == 'class':
                        yield p

    def subclasses(self, ci):
        return [c for c in self.all_classes() if c is not ci and ci in self.mro(c)]
