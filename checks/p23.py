"""P23 every name, attribute, import and call signature resolves."""
import builtins
import glob
import multiprocessing
import re
import signal
from .common import *
from .halos import *
from . import p01, p02, p03, p12, p14

EXPLAIN = ("Name resolution over the whole package. (1) For every function and class body, each name read is bound in an enclosing scope, in the module "
           "(including its imports) or as a builtin. (2) Every import from the package names an existing module and binding; imports of and attributes read on "
           "installed external modules are looked up in the source or stub text of those modules. (3) Every attribute read anywhere is defined by some class of the "
           "package, or by builtin, numpy or the imported external packages. (4) Every method call by name fits the signature of a method of that "
           "name. (5) Abstract evaluation of every public function and of every method of every concrete class (its own and inherited ones, on an object built from "
           "symbolic constructor arguments) and of every preset with its default arguments, reporting attributes that the object at hand does not have, "
           "names unbound on a path, calls its callee cannot accept, missing dictionary entries and calls of non-callables.")
FLOOR = 300
SLOW = 40
BAD = {'badname', 'badattr', 'badcall', 'badimport', 'badkey', 'badmodattr', 'notcallable', 'typedattr', 'unbound'}
PREFIX = 'in:'


# ---------------------------------------------------------------- scopes
class Scopes(ast.NodeVisitor):
    """names read that no enclosing scope binds"""

    def __init__(self, P, m):
        self.P, self.m = P, m
        self.stack, self.where, self.bad, self.units = [], [], [], 0

    @staticmethod
    def bound(node):
        out = set()
        a = getattr(node, 'args', None)
        if isinstance(a, ast.arguments):
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                out.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out.add(x.asname or x.name.split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        return out

    def scoped(self, node, name):
        b = self.bound(node)
        a = getattr(node, 'args', None)
        for x in ([*a.defaults, *[d for d in a.kw_defaults if d]] if isinstance(a, ast.arguments) else []):
            self.visit(x)
        for x in getattr(node, 'decorator_list', []):
            self.visit(x)
        self.stack.append((b, isinstance(node, ast.ClassDef)))
        self.where.append(name)
        if name != 'lambda':
            self.units += 1
        for x in (node.body if isinstance(node.body, list) else [node.body]):
            self.visit(x)
        self.where.pop()
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.scoped(n, n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.scoped(n, 'lambda')

    def visit_ClassDef(self, n):
        for b in n.bases + [k.value for k in n.keywords]:
            self.visit(b)
        self.scoped(n, n.name)

    def comp(self, n):
        b = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.stack.append((b, False))
        self.generic_visit(n)
        self.stack.pop()
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            return
        for i, (b, cls) in enumerate(reversed(self.stack)):
            if n.id in b and not (cls and i > 0):
                return
        if hasattr(builtins, n.id) or n.id in ('__file__', '__name__', '__doc__', '__class__'):
            return
        if n.id in self.m.bind or n.id in self.m.gnames or self.P.resolve(self.m, n.id) is not None:
            return
        self.bad.append((n.id, '.'.join(self.where), n.lineno))


# ---------------------------------------------------------------- external modules
_site = None


def ext_file(mod):
    """source or stub files of an installed external module (never imported), or None"""
    global _site
    if _site is None:
        _site = glob.glob('/opt/venv/lib/python3*/site-packages') + glob.glob('/usr/lib/python3/dist-packages') + [os.path.dirname(os.__file__)]
    parts = mod.split('.')
    for s in _site:
        b = os.path.join(s, *parts)
        if os.path.isdir(b) and os.path.isdir(os.path.join(s, parts[0])):
            fs = [f for f in (b + '/__init__.pyi', b + '/__init__.py') if os.path.exists(f)]
            return b, fs
        fs = [f for f in (b + '.pyi', b + '.py') if os.path.exists(f)] + glob.glob(b + '.cpython*.so')
        if fs:
            return None, fs
        if os.path.exists(os.path.join(s, parts[0])) or os.path.exists(os.path.join(s, parts[0] + '.py')):
            return (None, [])        # the package is installed, the module is not part of it
    return None


_txt = {}


def ext_has(mod, name, seen=()):
    """True / False / None (cannot tell)"""
    f = ext_file(mod)
    if f is None or mod in seen:
        return None
    d, fs = f
    if not fs and d is None:
        return None
    if d and (os.path.isdir(os.path.join(d, name)) or glob.glob(os.path.join(d, name + '.*'))):
        return True
    if any(x.endswith('.so') for x in fs):
        return None
    res = False
    for x in fs:
        if x not in _txt:
            _txt[x] = open(x, encoding='utf-8', errors='replace').read()
        t = _txt[x]
        if re.search(r'\b%s\b' % re.escape(name), t):
            return True
        if re.search(r'import\s+\*|def __getattr__|__dir__|globals\(\)|exec\(', t) and not any(y.endswith('.pyi') for y in fs):
            res = None
    return res


# ---------------------------------------------------------------- attribute universe
BUILTIN = set()
for _t in (int, float, complex, str, bytes, list, tuple, dict, set, frozenset, object, type, BaseException, ValueError, property, range, slice, type(re), type(BUILTIN.add), open):
    BUILTIN |= set(dir(_t))
BUILTIN |= {'__name__', '__dict__', '__code__', '__defaults__', 'co_varnames', '__wrapped__', 'cache_clear', 'cache_info', 'func', 'args', 'keywords'}
NUMPY = {'shape', 'size', 'ndim', 'dtype', 'T', 'flat', 'real', 'imag', 'astype', 'sum', 'mean', 'std', 'var', 'min', 'max', 'argmin', 'argmax', 'argsort', 'sort', 'reshape', 'ravel',
         'flatten', 'squeeze', 'transpose', 'tolist', 'item', 'copy', 'dot', 'cumsum', 'cumprod', 'prod', 'any', 'all', 'clip', 'round', 'nonzero', 'repeat', 'take', 'fill',
         'searchsorted', 'conj', 'trace', 'diagonal', 'swapaxes', 'view', 'itemsize', 'nbytes', 'base', 'ptp', 'put', 'resize', 'itemset', 'tobytes', 'strides', 'flags'}


# attributes of objects of external packages that are not installed here (lenstronomy, matplotlib)
EXTERNAL = set('''alpha2rho0 rho02alpha rho0_c rhoc_z rho2sigma sigma2rho r200_M M_r200 rho02kappa density density_2d density_lens mass_3d mass_2d mass_2d_lens mass_3d_lens
 derivatives hessian function alpha kappa gamma critical_curve_caustics redshift_list lens_model_list ray_shooting ray_shooting_partial ray_shooting_partial_comoving potential
 arrival_time magnification fermat_potential lens_redshift_list z_source multi_plane critical_curve_caustics rho_s k r_s rhoc h3 c profile_main nfwParam_physical
 annotate bone errorbar plot scatter imshow hist hist2d contour contourf text legend savefig show close figure subplots subplot colorbar axvline axhline fill_between loglog semilogx
 semilogy axis grid tight_layout gca gcf add_subplot add_axes get_xlim get_ylim set set_aspect set_title set_xlabel set_ylabel set_zlabel xlabel ylabel title xlim ylim xscale yscale
 xticks yticks cm rcParams set_size_inches set_xlim set_xscale set_xticklabels set_xticks set_ylim set_yscale set_yticklabels set_yticks set_zlim set_zticklabels set_zticks
 view_init tick_params spines set_visible twinx twiny invert_xaxis invert_yaxis set_color set_label suptitle subplots_adjust add_patch add_artist viridis jet gist_heat'''.split())


def universe(P):
    """attribute names that some class or module of the package defines"""
    U = set()
    for m in P.modules.values():
        U |= set(m.bind)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                U.add(n.attr)
            elif isinstance(n, ast.ClassDef):
                for s in ast.walk(n):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        U.add(s.name)
                    elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        U.add(s.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                U.add(n.args[1].value)
    return U


_words = None


def ext_words(P):
    """identifiers in the installed external packages that the package imports (for attribute names outside the package)"""
    global _words
    if _words is None:
        _words = set()
        tops = set()
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    tops |= {a.name.split('.')[0] for a in n.names}
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    tops.add(n.module.split('.')[0])
        rx = re.compile(r'\b(?:def|class|self\.|cls\.)\s*([A-Za-z_]\w*)|^\s*([A-Za-z_]\w*)\s*[:=]|[\'"]([A-Za-z_]\w*)[\'"]', re.M)
        for t in sorted(tops - {P.package}):
            f = ext_file(t)
            if f is None:
                continue
            files = f[1] if f[0] is None else [os.path.join(dp, x) for dp, dn, fn in os.walk(f[0]) if 'tests' not in dp for x in fn if x.endswith(('.py', '.pyi'))]
            for x in files:
                try:
                    _words |= {w for ws in rx.findall(open(x, encoding='utf-8', errors='replace').read()) for w in ws if w}
                except OSError:
                    pass
    return _words


def lexical(ctx, P):
    U = universe(P)
    methods = {}
    for m in P.modules.values():
        for bs in m.bind.values():
            for b in bs:
                if b[0] == 'func':
                    methods.setdefault(b[1].name, []).append((b[1], 0))
                elif b[0] == 'class':
                    for k, f in b[1].methods.items():
                        methods.setdefault(k, []).append((f, 0 if f.kind == 'static' else 1))
    fields = set()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                fields.add(n.attr)
    nat = ncall = 0
    for mn, m in sorted(P.modules.items()):
        rel = os.path.relpath(m.path, P.root)
        sc = Scopes(P, m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.gnames |= set(n.names)
        sc.stack.append((set(m.bind), False))
        for s in m.tree.body:
            sc.visit(s)
        for nm, fn, line in sc.bad:
            ctx.violation('name:%s:%s:%s' % (mn, fn, nm), '%s:%d (%s)' % (rel, line, fn), 'the name %s is not defined' % nm, 'every name read is bound')
        if not sc.bad:
            ctx.ok('names:%s' % mn, rel, '%d scopes: every name read is bound' % sc.units)
        # imports and module attributes
        bad = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                mod = P.absmod(m, n)
                for a in n.names:
                    if mod in P.paths or mod == P.package or str(mod).startswith(P.package + '.'):
                        ok = mod in P.paths and (a.name == '*' or P.resolve_from(mod, a.name) is not None)
                    else:
                        ok = True if a.name == '*' else ext_has(mod, a.name)
                        if ok is None and ext_file(mod) == (None, []):
                            ok = False
                    if ok is False:
                        bad += 1
                        ctx.violation('import:%s:%s.%s' % (mn, mod, a.name), '%s:%d' % (rel, n.lineno), 'from %s import %s does not resolve' % (mod, a.name), 'imports resolve')
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == P.package and a.name not in P.paths or ext_file(a.name) == (None, []):
                        bad += 1
                        ctx.violation('import:%s:%s' % (mn, a.name), '%s:%d' % (rel, n.lineno), 'import %s does not resolve' % a.name, 'imports resolve')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = P.resolve_expr(m, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if r is not None and r[0] == 'ext' and isinstance(n.value, ast.Name):
                    if ext_file(r[1]) not in (None, (None, [])) and ext_has(r[1], n.attr) is False:
                        bad += 1
                        ctx.violation('ext:%s:%s.%s' % (mn, r[1], n.attr), '%s:%d' % (rel, n.lineno), 'the module %s has no attribute %s' % (r[1], n.attr), 'module attributes exist')
                if r is not None:
                    continue
                nat += 1
                if n.attr not in U and n.attr not in BUILTIN and n.attr not in NUMPY and n.attr not in EXTERNAL and n.attr not in ext_words(P):
                    bad += 1
                    ctx.violation('attr:%s:%s' % (mn, n.attr), '%s:%d' % (rel, n.lineno), 'no class defines the attribute %s' % n.attr, 'attributes exist')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                nm = n.func.attr
                r = P.resolve_expr(m, n.func.value) if isinstance(n.func.value, (ast.Name, ast.Attribute)) else None
                if r is not None and r[0] == 'ext' or nm not in methods or nm in BUILTIN or nm in NUMPY or nm in EXTERNAL or nm in fields:
                    continue
                ncall += 1
                if not any(fits(f, skip, n) for f, skip in methods[nm]) and not isinstance(n.func.value, ast.Call):
                    bad += 1
                    ctx.violation('call:%s:%s' % (mn, nm), '%s:%d' % (rel, n.lineno), 'no function %s accepts these arguments: %s' % (nm, ast.unparse(n)[:120]), 'call signatures fit')
        if not bad:
            ctx.ok('references:%s' % mn, rel, 'imports, attributes and method signatures resolve')
    ctx.ok('attributes read', '', '%d attribute reads and %d method calls by name' % (nat, ncall))


def fits(f, skip, call):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return True
    params = f.params
    for s in {skip, 0} if skip else {0}:
        ps = params[s:]
        n = len(call.args)
        if n > len(ps) and not f.vararg:
            continue
        kws = {k.arg for k in call.keywords}
        if not f.kwarg and kws - set(ps) - set(f.kwonly):
            continue
        if kws & set(ps[:n]):
            continue
        if any(p not in f.defaults and p not in kws for p in ps[n:] + f.kwonly):
            continue
        return True
    return False


# ---------------------------------------------------------------- evaluation
def entries(P):
    out = []
    for mn, m in sorted(P.modules.items()):
        for n, bs in sorted(m.bind.items()):
            for b in bs:
                if b[0] == 'func':
                    out.append((b[1].qual, None, 'sym'))
                    if mn.startswith('pyHalo.PresetModels') or mn.startswith('pyHalo.simple_setup'):
                        out.append((b[1].qual, None, 'default'))
                elif b[0] == 'class':
                    ci = b[1]
                    for k, f in sorted(ci.methods.items()):
                        if k != '__init__':
                            out.append((f.qual, None, 'sym'))
                    base = bool(P.subclasses(ci)) and ci.name.startswith('_') or any(f.abstract for f in P.all_methods(ci).values())
                    if base:
                        continue
                    for k, f in sorted(P.all_methods(ci).items()):
                        if f.abstract or f.kind in ('static', 'classmethod') or k.startswith('_') and not k.startswith('__'):
                            continue
                        out.append((ci.qual, k, 'built'))
    return out


def string_choice(g):
    """the path is taken for a particular string value of an argument"""
    todo = [g]
    while todo:
        t = todo.pop()
        if isinstance(t, T):
            if t.op == 'eq' and any(isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str) for a in t.args):
                return True
            todo.extend(a for a in t.args if isinstance(a, T))
    return False


def one(qual, meth, mode):
    P = program()
    if meth is not None:
        ci = P.cls(qual)
        fi = P.lookup(ci, meth)
    else:
        ci, fi = None, p14.find(P, qual)
    S = Session(p14.config(fi) if fi.qual.startswith('pyHalo.PresetModels') else Config(maxdepth=8))
    I = S.I

    def args(f, skip, tag, default=False):
        a = [S.sym(PREFIX + tag + p) for p in f.params if p != skip and not (default and p in f.defaults)]
        k = [(k, S.sym(PREFIX + tag + k)) for k in f.kwonly if not (default and k in f.defaults)]
        if f.kwarg and not default:
            k.append((None, S.sym(PREFIX + tag + f.kwarg)))
        return a, k
    if mode == 'built':
        init = P.lookup(ci, '__init__')
        a, k = args(init, init.params[0], 'ctor.') if init is not None else ([], [])
        me = I.instantiate(ci, a, k, S.st)
        if fi.name != '__init__' and not S.st.dead:
            a, k = args(fi, fi.params[0], '')
            if fi.kind in ('property', 'cached_property'):
                I.get_attr(me, fi.name, S.st)
            else:
                I.invoke(fi, [me] + a, k, S.st)
    elif fi.kind == 'classmethod':
        a, k = args(fi, fi.params[0], '')
        I.invoke(fi, [mk('cls', fi.cls.qual)] + a, k, S.st)
    else:
        a, k = args(fi, None, '', mode == 'default')
        I.invoke(fi, a, k, S.st)
    return problems(I, mode), sorted(I.visited)


def supported(g):
    """can the condition hold for a supported configuration (some documented value of every model name)?"""
    atoms, todo = [], [g]
    while todo:
        t = todo.pop()
        if isinstance(t, T):
            if t.op == 'eq' and any(isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str) for a in t.args) and t not in atoms:
                atoms.append(t)
            todo.extend(a for a in t.args if isinstance(a, T))
    subj = {}
    for a in atoms:
        subj.setdefault([x for x in a.args if not (x.op == 'const' and isinstance(x.args[0], str))][:1] and
                        [x for x in a.args if not (x.op == 'const' and isinstance(x.args[0], str))][0] or a, []).append(a)
    if len(subj) > 3:
        return False
    worlds = [{}]
    for s, ats in subj.items():
        worlds = [{**w, **{x: (TRUE if x is a else FALSE) for x in ats}} for w in worlds for a in ats]
    for w in worlds:
        h = TM.subst(g, lambda t: w.get(t)) if w else g
        if h is FALSE:
            continue
        st, info = decide.verdict(ite(h, ONE, ZERO), ZERO, None, 400)
        if st == 'differ':
            return True
    return False


def problems(I, mode):
    P = I.prog
    out = []
    for e in I.events:
        if e.kind not in BAD:
            continue
        d = e.data
        if e.kind == 'typedattr':
            ci, n = d
            if n in ext_words(P) or any(n in known_fields(P, c) for c in P.mro(ci)) or P.has_ext_base(ci) or n.startswith('__') or n in ('keys', 'items', 'shape', 'size'):
                continue
        if e.kind == 'unbound':
            if not supported(band(e.guard, d[1])):
                continue
            d = d[0]
        if e.kind in ('badcall', 'badkey', 'notcallable') and string_choice(e.guard):
            continue
        txt = d if isinstance(d, str) else ' '.join(getattr(y, 'qual', None) or (TM.show(y, 2) if isinstance(y, T) else str(y)) for y in d) if isinstance(d, tuple) else TM.show(d, 2) if isinstance(d, T) else str(getattr(d, 'qual', d))
        x = (e.kind, re.sub(r'ref\(\d+\)', 'dict', txt)[:120], e.where())
        if x not in out:
            out.append(x)
    return out


_kf = {}


def known_fields(P, ci):
    if ci.qual not in _kf:
        s = set(ci.methods) | set(ci.attrs)
        for f in ci.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    s.add(n.attr)
        _kf[ci.qual] = s
    return _kf[ci.qual]


def _job(job):
    signal.signal(signal.SIGALRM, p14._late)
    signal.alarm(SLOW)
    try:
        if job[0] == 'variant':
            return job, variant(*job[1:]), None
        if job[0] == 'operation':
            return job, convert(*job[1:]), None
        if job[0] == 'halo':
            return job, halo_reads(*job[1:]), None
        return job, one(*job), None
    except Exception as e:
        return job, None, '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)


# concentration relations that are made for the presets with suppressed structure, and those that need the arguments of one preset
WARM = {'WDM_HYPERBOLIC', 'WDM_POLYNOMIAL', 'BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022', 'LUDLOW_WDM'}


def preset_variants(P):
    """(preset, argument, documented model name): every name a preset can be given"""
    out = []
    for mn, m in sorted(P.modules.items()):
        if not mn.startswith('pyHalo.PresetModels'):
            continue
        for n, bs in sorted(m.bind.items()):
            for b in bs:
                if b[0] != 'func' or n == 'CDMBinned':
                    continue
                for p in b[1].params:
                    if 'kwargs' in p:
                        continue
                    if 'concentration_model' in p:
                        d = b[1].defaults.get(p)
                        warm = isinstance(d, ast.Constant) and d.value in WARM
                        vals = [v for v in p12.CONC if (v in WARM) == warm]
                    elif 'truncation_model' in p:
                        vals = p12.TRUNC
                    elif 'mass_function_model' in p:
                        vals = p12.MASSF
                    elif 'infall_redshift_model' in p:
                        vals = p12.INFALL
                    else:
                        continue
                    out += [(b[1].qual, p, v) for v in vals]
    return out


def variant(q, p, v):
    P = program()
    fi = p14.find(P, q)
    S = Session(p14.config(fi))
    S.I.invoke(fi, [], [(x, const(v) if x == p else S.sym(PREFIX + x)) for x in fi.params if x == p or x not in fi.defaults], S.st)
    return [x for x in problems(S.I, 'default') if not x[1].startswith('missing argument')], sorted(S.I.visited)


CONVERT = ('add_globular_clusters', 'add_primordial_black_holes', 'add_black_holes')


def convert(label, name, src):
    """an operation on a realization with concrete halos"""
    S = p03.sess()
    H = [p03.halo(S, t, s) for t, s in zip(p03.TAGS, (TRUE, FALSE))]
    par, oth = p01.parent(S, S.py(H)), p01.parent(S, S.py([p03.halo(S, t, TRUE) for t in 'BC']))
    E = S.new(S.prog.cls(p01.EX), par)
    env = dict(E=E, R=par, R2=oth, h=H[0], h2=H[1], **{x: S.sym(x) for x in p02.SYMS + ('mt', 'rx', 'ry', 'zm', 'a', 'lm', 'x0', 'x1', 'y0', 'y1', 'mb', 'z0')})
    if src is None:
        fi = S.prog.lookup(S.prog.cls(p01.EX), name)
        S.meth(E, name, *[S.sym(p) for p in fi.params[1:]])
    else:
        S.expr(src, env)
    return problems(S.I, 'sym'), sorted(S.I.visited)


def operations():
    out = [(l, l.split(':')[0], s.replace('[h]', '[h, h2]')) for l, s in p02.conversions().items()]
    out += [(n, n, None) for n in CONVERT]
    out += [('SIS_injection:' + g, 'SIS_injection', "E.SIS_injection(mt, '%s')" % g) for g in ('GNFW', 'SIS')]
    for name, src in (('filter', 'R.filter(a, lm, [x0, x1], [y0, y1])'), ('filter_subhalos', 'R.filter_subhalos(a, lm, [x0, x1], [y0, y1])'),
                      ('filter_bound_mass', 'R.filter_bound_mass(mb)'), ('halos_at_z', 'R.halos_at_z(z0)'), ('split_at_z', 'R.split_at_z(z0)'),
                      ('shift_background_to_source', 'R.shift_background_to_source(rx, ry, zm)'), ('join', 'R.join(R2, True)'), ('lensing_quantities', 'R.lensing_quantities(False)')):
        out.append((name, name, src))
    return out


def halo_reads(q, sub):
    P = program()
    ci = P.cls(q)
    S = hsession()
    h = make(S, ci, sub)
    for n in readable(ci):
        S.I.get_attr(h, n, S.st)
    return problems(S.I, 'sym'), sorted(S.I.visited)


WHAT = {'badname': 'undefined name', 'badattr': 'missing attribute', 'badcall': 'call does not fit', 'badimport': 'import does not resolve', 'badkey': 'missing dictionary key',
        'badmodattr': 'missing module attribute', 'notcallable': 'not callable', 'typedattr': 'missing attribute', 'unbound': 'unassigned variable'}


def run(ctx):
    P = program()
    lexical(ctx, P)
    jobs = sorted(entries(P), key=lambda j: not ('external' in j[0] or 'SingleHalo' in j[0] or 'PresetModels' in j[0]))
    jobs += [('variant',) + v for v in preset_variants(P)] + [('operation',) + o for o in operations()]
    jobs += [('halo', c.qual, s) for c in halo_classes() for s in subs_of(c)]
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_job, jobs, chunksize=1)
    sites = {}
    for job, r, err in res:
        pre = ''
        if job[0] == 'variant':
            name, mode = '%s(%s=%s)' % (job[1].split(':')[-1], job[2], job[3]), 'variant'
            pre = 'variant:%s:%s=%s:' % (job[1].split(':')[-1], job[2], job[3])
        elif job[0] == 'operation':
            name, mode = job[1], 'operation'
        elif job[0] == 'halo':
            name, mode = '%s(%s)' % (job[1].split(':')[-1], hlabel(program().cls(job[1]), job[2])), 'quantities'
        else:
            q, meth, mode = job
            name = q.split(':')[-1] + ('.' + meth if meth else '')
        if err:
            ctx.undetermined('%s:%s' % (name, mode), '', err)
            continue
        out, seen = r
        ctx.functions |= set(seen)
        for kind, txt, w in out:
            sites.setdefault((pre + kind, txt, w), name)
        if not out:
            ctx.ok('%s:%s' % (name, mode), '', 'names, attributes, keys and calls resolve on every path')
    for (kind, txt, w), name in sorted(sites.items(), key=lambda x: (x[0][2], x[0][1])):
        fn = w[w.rfind('(') + 1:].rstrip(')')
        ctx.violation('%s:%s:%s' % (kind, fn, txt), w, '%s: %s (evaluating %s)' % (WHAT[kind.split(':')[-1]], txt, name), 'names, attributes, keys and calls resolve')
