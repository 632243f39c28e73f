"""P17 seeding numpy makes every realization reproducible."""
from .common import *

EXPLAIN = ("Source and taint analysis over the whole package. Every reference to a function of an external module is resolved through imports, aliases and local "
           "imports. Sources that vary between runs (clock, process identity, operating system entropy, directory order, environment, other or own generators, "
           "reseeding, object identities and hashes) must not reach a result: their value may only flow into printing, logging or dictionary keys. Random draws "
           "must come from the global numpy generator (numpy.random functions, scipy.stats samplers without a generator of their own), must not be "
           "executed at import time or in default arguments, must not be memoized by caching decorators, and must not be stored in module or class state. "
           "Iterating over sets of objects or strings is reported.")
FLOOR = 40
# functions of the legacy global generator
GLOBAL = set('''rand randn randint random random_sample ranf sample choice bytes shuffle permutation beta binomial chisquare dirichlet exponential f gamma geometric gumbel
 hypergeometric laplace logistic lognormal logseries multinomial multivariate_normal negative_binomial noncentral_chisquare noncentral_f normal pareto poisson power rayleigh
 standard_cauchy standard_exponential standard_gamma standard_normal standard_t triangular uniform vonmises wald weibull zipf random_integers get_state mtrand'''.split())
MODULES = ('random', 'secrets', 'uuid', 'time', 'datetime', 'tempfile', 'socket', 'multiprocessing', 'threading', 'concurrent', 'asyncio')
FUNCS = ('os.urandom', 'os.getpid', 'os.getppid', 'os.times', 'os.listdir', 'os.scandir', 'os.walk', 'os.environ', 'os.getenv', 'os.cpu_count', 'os.stat', 'os.path.getmtime',
         'os.getrandom', 'glob.glob', 'glob.iglob', 'builtins.id', 'builtins.hash', 'platform.node', 'sys.getrefcount', 'gc.get_objects', 'numpy.empty', 'numpy.empty_like')
SINKS = {'print', 'warn', 'warning', 'info', 'debug', 'log', 'error', 'write', 'sleep'}
KEYUSE = {'get', 'setdefault', 'pop', 'add', 'append', '__contains__'}


def parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n


def scope_of(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module)):
        n = getattr(n, '_parent', None)
    return n


def owner(n):
    """name of the enclosing function, outermost first"""
    out = []
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
        n = getattr(n, '_parent', None)
    return '.'.join(reversed(out))


class Refs:
    """external names of a module, with local imports and aliases"""

    def __init__(self, P, m):
        self.P, self.m = P, m
        self.local, self._bound = {}, {}
        parents(m.tree)
        for n in ast.walk(m.tree):
            sc = scope_of(getattr(n, '_parent', None)) if not isinstance(n, ast.Module) else None
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.local.setdefault((sc, a.asname or a.name.split('.')[0]), a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = P.absmod(m, n)
                for a in n.names:
                    if mod and not str(mod).startswith(P.package):
                        self.local.setdefault((sc, a.asname or a.name), '%s.%s' % (mod, a.name))
        self.alias = {}
        for _ in range(2):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, (ast.Name, ast.Attribute)):
                    r = self.ext(n.value)
                    if r is None:
                        continue
                    t = n.targets[0]
                    if isinstance(t, ast.Name):
                        self.alias[scope_of(n), t.id] = r
                    elif isinstance(t, ast.Attribute):
                        self.alias['.', t.attr] = r

    def bound(self, sc):
        b = self._bound.get(sc)
        if b is None:
            a = sc.args
            b = self._bound[sc] = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.id for x in ast.walk(sc) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return b

    def ext(self, e):
        """dotted external name of an expression"""
        if isinstance(e, ast.Name):
            sc = scope_of(e)
            bound = False
            while sc is not None:
                for tab in (self.local, self.alias):
                    if (sc, e.id) in tab:
                        return tab[sc, e.id]
                if isinstance(sc, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    if e.id in self.bound(sc):
                        bound = True
                        break
                sc = scope_of(getattr(sc, '_parent', None)) if not isinstance(sc, ast.Module) else None
            if bound:
                return None
            r = self.P.resolve(self.m, e.id)
            if r is not None:
                return r[1] if r[0] == 'ext' else None
            return 'builtins.' + e.id if e.id in ('id', 'hash', 'set', 'frozenset') else None
        if isinstance(e, ast.Attribute):
            if ('.', e.attr) in self.alias and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
                return self.alias['.', e.attr]
            b = self.ext(e.value)
            return None if b is None else b + '.' + e.attr
        return None


def chains(tree):
    """outermost name/attribute chains"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
            p = getattr(n, '_parent', None)
            if isinstance(p, ast.Attribute) and p.value is n:
                continue
            if isinstance(getattr(n, 'ctx', None), ast.Load):
                yield n


def variable(d):
    """does this external name vary between runs (or reseed)?"""
    d = d.replace('numpy.random.mtrand.', 'numpy.random.')
    if d.startswith('numpy.random.'):
        return d.split('.')[2] not in GLOBAL
    top = d.split('.')[0]
    if top in MODULES:
        return d not in MODULES and d not in ('datetime.timedelta', 'concurrent.futures', 'time.sleep', 'threading.Lock', 'threading.RLock')
    if d.startswith(('scipy.stats.qmc', 'scipy.optimize.differential_evolution', 'scipy.optimize.dual_annealing')):
        return True
    return any(d == f or d.startswith(f + '.') for f in FUNCS if not f.startswith('numpy.empty'))


def is_draw(d):
    d = d.replace('numpy.random.mtrand.', 'numpy.random.')
    if d.startswith('numpy.random.'):
        return d.split('.')[2] in GLOBAL - {'get_state', 'mtrand'} or d.split('.')[2] in ('default_rng', 'RandomState', 'Generator')
    return d.startswith('random.') or d.startswith('scipy.stats.') and d.endswith('.rvs')


EFFECT = ('seed', 'set_state', 'setstate')


def leaks(node, keys_ok, depth=0, seen=None):
    """where a value reaches something other than printing (and dictionary keys), or None"""
    seen = seen if seen is not None else set()
    p = getattr(node, '_parent', None)
    while p is not None:
        if isinstance(p, ast.Call):
            f = p.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if node is f or any(node is x for x in ast.walk(f)):
                node, p = p, getattr(p, '_parent', None)
                continue
            if nm in SINKS:
                return None
            if nm in ('round', 'int', 'float', 'str', 'format', 'abs', 'tuple', 'timedelta', 'repr') or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant):
                node, p = p, getattr(p, '_parent', None)
                continue
            if keys_ok and nm in KEYUSE:
                return None
            return p
        if isinstance(p, ast.Expr):
            return None
        if isinstance(p, ast.Subscript) and keys_ok and p.slice is node:
            return None
        if isinstance(p, ast.Compare) and keys_ok and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in p.ops):
            return None
        if isinstance(p, (ast.BinOp, ast.UnaryOp, ast.FormattedValue, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict, ast.Attribute, ast.Subscript, ast.Starred, ast.keyword, ast.IfExp)):
            if isinstance(p, ast.IfExp) and p.test is node:
                return p
            node, p = p, getattr(p, '_parent', None)
            continue
        if isinstance(p, (ast.DictComp,)) and keys_ok and p.key is node:
            return None
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            names = []
            for t in ts:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if not isinstance(x, ast.Name):
                        return p
                    names.append(x.id)
            sc = scope_of(p)
            if isinstance(sc, ast.Module):
                return p
            for nm in names:
                if (sc, nm) in seen or depth > 6:
                    continue
                seen.add((sc, nm))
                for x in ast.walk(sc):
                    if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load):
                        r = leaks(x, keys_ok, depth + 1, seen)
                        if r is not None:
                            return r
            return None
        return p
    return None


def callee_names(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                yield n.func.id
            elif isinstance(n.func, ast.Attribute):
                yield n.func.attr


def functions(P):
    for mn, m in sorted(P.modules.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, n


def run(ctx):
    P = program()
    R = {mn: Refs(P, m) for mn, m in sorted(P.modules.items())}
    draws = {}          # function node -> direct draw
    n_ref = n_draw = 0
    for mn, m in sorted(P.modules.items()):
        rel = os.path.relpath(m.path, P.root)
        bad = 0
        for e in chains(m.tree):
            d = R[mn].ext(e)
            if d is None:
                continue
            n_ref += 1
            w = '%s:%d (%s)' % (rel, e.lineno, owner(e))
            if d.startswith('scipy.stats.') and d.endswith('.rvs') or isinstance(e, ast.Attribute) and e.attr == 'rvs':
                c = getattr(e, '_parent', None)
                kw = {k.arg: k.value for k in c.keywords} if isinstance(c, ast.Call) else {}
                rs = kw.get('random_state')
                n_draw += 1
                if rs is not None and not (isinstance(rs, ast.Constant) and rs.value is None) and R[mn].ext(rs) not in ('numpy.random', 'numpy.random.mtrand._rand'):
                    bad += 1
                    ctx.violation('generator:%s:%s' % (mn, owner(e)), w, '%s draws from a generator of its own (random_state=%s)' % (d, ast.unparse(rs)[:60]),
                                  'draws come from the global numpy generator')
                else:
                    ctx.ok('draw:%s:%s:%s' % (mn, owner(e), d), w, 'global numpy generator')
                draws.setdefault(scope_of(e), d)
                continue
            if is_draw(d):
                draws.setdefault(scope_of(e), d)
            if variable(d):
                tail = d.split('.')[-1]
                if tail in EFFECT and d.startswith(('numpy.random', 'random')):
                    if d.startswith('random.'):
                        continue            # seeding a generator whose use is reported itself
                    bad += 1
                    ctx.violation('reseed:%s:%s:%s' % (mn, owner(e), d), w, '%s: the library changes the state of the generator' % d, 'nothing reseeds the global generator')
                    continue
                node = e
                leak = leaks(node, d in ('builtins.id', 'builtins.hash'))
                if leak is not None and isinstance(leak, ast.ImportFrom):
                    leak = None
                if leak is not None:
                    bad += 1
                    ctx.violation('source:%s:%s:%s' % (mn, owner(e), d), w, '%s varies between runs and its value reaches %s' % (d, ast.unparse(leak)[:120]),
                                  'nothing but the global numpy generator varies between runs')
                else:
                    ctx.ok('source:%s:%s:%s' % (mn, owner(e), d), w, 'value only printed, or used as a dictionary key')
            elif is_draw(d):
                n_draw += 1
                ctx.ok('draw:%s:%s:%s:%d' % (mn, owner(e), d, n_draw), w, 'global numpy generator')
        bad += sets(ctx, P, mn, m, R[mn], rel)
        if not bad:
            ctx.ok('module:%s' % mn, rel, 'no other source of variation')
    # functions that reach a draw (by callee name; only for functions of the package)
    byname = {}
    for m, f in functions(P):
        byname.setdefault(f.name, []).append(f)
    for mn, m in sorted(P.modules.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                        byname.setdefault(n.name, []).append(s)
    direct = {f for f in draws if f is not None and not isinstance(f, ast.Module)}
    # lambdas and nested functions count for their enclosing function
    for f in list(direct):
        q = scope_of(getattr(f, '_parent', None)) if getattr(f, '_parent', None) is not None else None
        while q is not None and not isinstance(q, ast.Module):
            direct.add(q)
            q = scope_of(getattr(q, '_parent', None))
    calls = {f: {g for c in callee_names(f) if c not in COMMON and len(byname.get(c, ())) == 1 for g in byname[c]} for m, f in functions(P)}
    reach = set(direct)
    while True:
        new = {f for f, cs in calls.items() if f not in reach and cs & reach}
        if not new:
            break
        reach |= new
    if not direct:
        raise Broken('no random draws found')
    for mn, m in sorted(P.modules.items()):
        rel = os.path.relpath(m.path, P.root)
        state(ctx, P, mn, m, R[mn], rel, reach, byname)
    ctx.ok('summary', '', '%d references to external names, %d draws, %d functions reach a draw' % (n_ref, n_draw, len(reach)))


# names too common to be resolved by name alone
COMMON = {'get', 'update', 'append', 'copy', 'sum', 'min', 'max', 'mean', 'split', 'join', 'items', 'keys', 'values', 'index', 'sort', 'draw', 'render', '__init__'}


def draws_in(node, refs, reach, byname):
    """a draw executed when the expression is evaluated"""
    todo = [node]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, ast.Call):
            d = refs.ext(n.func)
            if d is not None and (is_draw(d) or d.endswith('.rvs')):
                return d
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if nm == 'rvs':
                return nm
            if d is None and nm and nm not in COMMON and len(byname.get(nm, ())) == 1 and byname[nm][0] in reach:
                return nm
        todo.extend(ast.iter_child_nodes(n))
    return None


def state(ctx, P, mn, m, refs, rel, reach, byname):
    bad = 0

    def report(kind, n, what, rule):
        nonlocal bad
        bad += 1
        ctx.violation('%s:%s:%s' % (kind, mn, owner(n) or 'module'), '%s:%d' % (rel, n.lineno), what, rule)

    def body(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.ClassDef):
                body(s.body)
                continue
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
                continue
            d = draws_in(s, refs, reach, byname)
            if d:
                report('import', s, 'a random draw (%s) is executed when the module is imported' % d, 'draws happen when realizations are made')
    body(m.tree.body)
    globs = {n for n, bs in m.bind.items() if any(b[0] == 'assign' for b in bs)}
    classes = {n for n, bs in m.bind.items() if any(b[0] == 'class' for b in bs)} | {n for n, bs in m.bind.items() if bs[-1][0] == 'from' and (P.resolve(m, n) or ('',))[0] == 'class'}
    singletons = {x.value.func.id for x in m.tree.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name)}
    for n in ast.walk(m.tree):
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        a = n.args
        for dflt in a.defaults + [x for x in a.kw_defaults if x is not None]:
            d = draws_in(dflt, refs, reach, byname)
            if d:
                report('default', n, 'a default argument is a random draw (%s), made once at import' % d, 'draws happen when realizations are made')
        for dec in n.decorator_list:
            f = dec.func if isinstance(dec, ast.Call) else dec
            x = refs.ext(f) or ''
            if x in ('functools.lru_cache', 'functools.cache') and n in reach:
                report('memoized', n, 'a function that draws random numbers is memoized across realizations', 'draws are not remembered between realizations')
        enclosing = n._parent if isinstance(n._parent, ast.ClassDef) else None
        class_attrs = {t.id for x in (enclosing.body if enclosing else ()) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        mutable_defaults = {x.arg for x, y in list(zip(reversed(a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults))
                            if isinstance(y, (ast.Dict, ast.List, ast.Set, ast.Call))}
        local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        glob = {g for x in ast.walk(n) if isinstance(x, ast.Global) for g in x.names}
        stores = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob
        tainted = set()
        for _ in range(4):
            for s in ast.walk(n):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                    if draws_in(s.value, refs, reach, byname) or any(isinstance(x, ast.Name) and x.id in tainted for x in ast.walk(s.value)):
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                                if isinstance(x, ast.Name):
                                    tainted.add(x.id)

        def is_tainted(v):
            return draws_in(v, refs, reach, byname) or any(isinstance(x, ast.Name) and x.id in tainted for x in ast.walk(v))

        def shared(t, inplace=False):
            """is this a place shared by all realizations of the process?"""
            if isinstance(t, ast.Name):
                return t.id in glob
            deep = isinstance(t, ast.Subscript)
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Name) and t.id in mutable_defaults:
                return True
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and a.args and t.value.id == a.args[0].arg and enclosing is not None:
                if enclosing.name in singletons:
                    return True
                if deep or inplace:
                    return t.attr in class_attrs and not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == t.attr for x in ast.walk(enclosing))
            if isinstance(t, ast.Name):
                return t.id in globs and t.id not in local and t.id not in stores
            if isinstance(t, ast.Attribute):
                v = t.value
                if isinstance(v, ast.Name):
                    return v.id == 'cls' or v.id in classes and v.id not in stores and v.id not in local or v.id == n.name
                if isinstance(v, ast.Attribute):
                    return v.attr == '__class__'
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                    return v.func.id == 'type'
            return False
        for s in ast.walk(n):
            if isinstance(s, (ast.Assign, ast.AugAssign)) and is_tainted(s.value):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if shared(x):
                            report('state', s, 'a random draw is kept in %s, shared by all realizations of the process' % ast.unparse(x), 'draws are not remembered between realizations')
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'setdefault', 'update', 'extend', 'add', 'insert', 'appendleft'):
                if shared(s.func.value, True) or isinstance(s.func.value, ast.Name) and s.func.value.id in globs and s.func.value.id not in local and s.func.value.id not in stores:
                    if any(is_tainted(v) for v in s.args):
                        report('state', s, 'a random draw is kept in %s, shared by all realizations of the process' % ast.unparse(s.func.value), 'draws are not remembered between realizations')
    if not bad:
        ctx.ok('state:%s' % mn, rel, 'no draw at import time, in defaults, memoized or kept in shared state')


def sets(ctx, P, mn, m, refs, rel):
    """iteration over sets of objects or strings"""
    bad = 0

    def is_set(e):
        return isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and refs.ext(e.func) in ('builtins.set', 'builtins.frozenset')
    named = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and is_set(n.value):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    named[scope_of(n), t.id] = n.value
                elif isinstance(t, ast.Attribute):
                    named['.', t.attr] = n.value

    def setval(e):
        if is_set(e):
            return e
        if isinstance(e, ast.Name):
            return named.get((scope_of(e), e.id))
        if isinstance(e, ast.Attribute):
            return named.get(('.', e.attr))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            a, b = setval(e.left), setval(e.right)
            return a or b
        return None

    def objects(s):
        """are the elements (as far as can be seen) strings or objects hashed by identity?"""
        for x in ast.walk(s):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                return True
            if isinstance(x, ast.Attribute) and x.attr in ('halos', 'mdef', 'lens_model_names', 'lens_model_list'):
                p = getattr(x, '_parent', None)
                if isinstance(p, ast.comprehension) and isinstance(getattr(p, '_parent', None), (ast.SetComp, ast.ListComp, ast.GeneratorExp)):
                    elt = p._parent.elt
                    if isinstance(elt, ast.Name):
                        return True
                    continue
                return True
            if isinstance(x, ast.Name) and x.id in ('halos', 'halo_list'):
                return True
        return False
    for n in ast.walk(m.tree):
        its = []
        if isinstance(n, (ast.For, ast.comprehension)):
            its.append(n.iter)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'iter', 'zip', 'map', 'next'):
            its += n.args
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('array', 'asarray', 'fromiter', 'pop', 'join'):
            its += [n.func.value] if n.func.attr == 'pop' and not n.args else n.args
        elif isinstance(n, ast.Starred):
            its.append(n.value)
        for e in its:
            s = setval(e)
            if s is None or not objects(s):
                continue
            p = getattr(n, '_parent', None)
            while isinstance(p, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                p = getattr(p, '_parent', None)
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('sorted', 'set', 'len', 'sum', 'any', 'all', 'min', 'max', 'frozenset'):
                continue
            ln = getattr(n, 'lineno', getattr(e, 'lineno', 0))
            bad += 1
            ctx.violation('set:%s:%s' % (mn, owner(e)), '%s:%d' % (rel, ln), 'the order of the set %s depends on hashes that vary between runs' % ast.unparse(s)[:80],
                          'no order depends on hashes')
    return bad
