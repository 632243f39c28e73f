"""P25 the answer to a query does not depend on earlier queries."""
import ast
from .common import *
from engine.decide import cases, show_asg
from engine.ri import evaluate

EXPLAIN = ("Objects that answer queries (cosmology, geometry, lens cosmology, infall models, concentration relations, profile utilities) are built abstractly; each public query is evaluated on symbolic arguments "
           "first on the fresh object and again after another query with different symbolic arguments that writes to anything that outlives the call (attributes, containers, class or module variables). "
           "The two result terms must agree for every combination of arguments, including the cases where some but not all arguments of the two queries coincide. The same is required when the earlier query was made on another object.")
ASSUME = ['external library functions are deterministic functions of their arguments', 'external results that are remembered are not None',
          'interpolated concentration tables grow with the history; their nodes and their use are decided by P22', 'scalar arguments: the vectorised branches are compared as they are written']
FLOOR = 30
M_TOTAL = '_M_total_generalized_NFW_Truncated_dimensionless'
SKIP = {'setup_infall_model', 'mthermal_to_halfmode', 'volume_MPC3'}


class Hist:
    """one abstract execution"""
    def __init__(self, opaque=(), classes=()):
        self.S = S = Session(Config(opaque=list(opaque) + ['_evaluate_concentration_from_table'], opaque_classes=list(classes), arrays=True))
        S.I.on_ext = self.ext

    def ext(self, name, args, kwargs, st):
        if name == 'numpy.ndim' and len(args) == 1:
            a = self.S.I.reify(args[0], st)
            if a.op in ('sym', 'num', 'poly', 'term', 'attr'):
                return ZERO
        if name == 'numpy.arange':
            # a table of a few nodes
            saved, self.S.st = self.S.st, st
            try:
                return self.S.expr('np.array(l)', {'l': self.S.py([self.S.sym('node%d' % i) for i in range(3)])})
            finally:
                self.S.st = saved
        if name in ('numpy.isscalar',) and len(args) == 1 and args[0].op in ('sym', 'num'):
            return TRUE
        return None

    def snap(self):
        st = self.S.st
        return dict(st.heap), dict(st.ov)

    def wrote(self, snap):
        """persistent locations written since"""
        st = self.S.st
        heap, ov = snap
        out = []
        for i, o in st.heap.items():
            old = heap.get(i, self.S.I.base_heap.get(i))
            if old is not None and old is not o:
                names = [f for f in set(o.fields) | set(old.fields) if o.fields.get(f) is not old.fields.get(f)]
                if o.items != old.items or o.segs is not old.segs:
                    names.append('[contents]')
                out += ['%s.%s' % (o.cls.name if o.cls else o.kind, n) for n in names]
        out += [k[1][1:] for k, v in st.ov.items() if ov.get(k) is not v]
        return sorted(set(out))


def tidy(t, raises):
    """remembered external results are not None; every failing lookup fails or none does"""
    def nonnull(u):
        return u.op in ('meth', 'attr', 'call', 'num', 'poly', 'term', 'idx', 'fold', 'while', 'sym', 'tup', 'seq') and not (u.op == 'call' and 'get' == u.args[0])

    def fix(u):
        if u.op == 'ite':
            return TM.ite(fix_(u.args[0]), fix_(u.args[1]), fix_(u.args[2]))
        if u.op == 'exc':
            return TRUE if raises else FALSE
        if u.op == 'bm':
            return sym('bm:%s' % str(u.args[0]))  # a query of the same object: decided on its own
        if u.op == 'eq' and NONE in u.args:
            a = u.args[0] if u.args[1] is NONE else u.args[1]
            a = fix_(a)
            return isnone(a)
        if u.op == 'eq' and u.args[0].op == 'tup' and u.args[1].op == 'tup':
            a, b = fix_(u.args[0]).args, fix_(u.args[1]).args
            return FALSE if len(a) != len(b) else band(*[TM.eq(x, y) for x, y in zip(a, b)])
        return None

    def isnone(a):
        if a.op == 'ite':
            return bor(band(a.args[0], isnone(a.args[1])), band(bnot(a.args[0]), isnone(a.args[2])))
        if a is NONE:
            return TRUE
        if nonnull(a):
            return FALSE
        return TM.eq(a, NONE)
    memo = {}

    def fix_(u):
        return TM.subst(u, fix, memo)
    return fix_(t)


def build(H, kind):
    """(object, class) under test"""
    S, P = H.S, program()
    cosmo = lambda n='astropy': S.new(P.cls('pyHalo.Cosmology.cosmology:Cosmology'), notnone(S, n))
    if kind[0] == 'Cosmology':
        return cosmo()
    if kind[0] == 'Geometry':
        return S.new(P.cls('pyHalo.Cosmology.geometry:Geometry'), S.sym('C', 'pyHalo.Cosmology.cosmology:Cosmology'), S.sym('zl'), S.sym('zs'), S.sym('angle'), const(kind[1]))
    if kind[0] == 'LensCosmo':
        return S.new(P.cls('pyHalo.Halos.lens_cosmo:LensCosmo'), S.sym('zl'), S.sym('zs'), notnone(S, 'C', 'pyHalo.Cosmology.cosmology:Cosmology'))
    ci = P.cls(kind[0])
    if ci is None:
        raise Broken('class %s not found' % kind[0])
    kw = {}
    init = P.lookup(ci, '__init__')
    for p in (init.params[1:] if init else ()):
        if p in kind[1]:
            kw[p] = kind[1][p](S) if callable(kind[1][p]) else kind[1][p]
        elif p not in init.defaults:
            kw[p] = S.sym('P_' + p)
    return S.new(ci, **kw)


def notnone(S, n, q=None):
    a = S.sym(n, q) if q else S.sym(n)
    S.st.assume(bnot(TM.eq(a, NONE)))
    return a


def cosmo_sym(S):
    return notnone(S, 'C', 'pyHalo.Cosmology.cosmology:Cosmology')


CON = 'pyHalo.Halos.concentration:'
ACC = 'pyHalo.Halos.accretion:'


def kinds():
    P = program()
    out = [('Cosmology',), ('LensCosmo',)] + [('Geometry', t) for t in ('DOUBLE_CONE', 'CYLINDER', 'CONE')]
    for c in sorted(P.all_classes(), key=lambda c: c.qual):
        if c.name.startswith('_') or any(x in c.qual for x in ('Base',)):
            continue
        if c.qual.startswith(CON) and P.lookup(c, '__init__') is not None and c.name not in ('BinnedHaloMass',):
            kw = dict(cosmo=cosmo_sym, scatter=FALSE, use_interpolation_table=FALSE)
            if P.lookup(c, '__init__').params.__contains__('concentration_cdm_class'):
                kw['concentration_cdm_class'] = mk('cls', CON + 'ConcentrationDiemerJoyce')
                kw['kwargs_cdm'] = lambda S: S.py({'use_interpolation_table': False})
            out.append((c.qual, kw))
        elif c.qual.startswith('pyHalo.Halos.tidal_truncation:') or c.qual.startswith('pyHalo.Halos.galacticus_truncation.interp'):
            out.append((c.qual, dict(lens_cosmo=lambda S: S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo'))))
        elif c.qual.startswith(ACC):
            out.append((c.qual, {}))
        elif c.qual.startswith('pyHalo.utilities:'):
            out.append((c.qual, {}))
    return out


def queries(H, o):
    P = program()
    ob = H.S.I.obj(H.S.st, o)
    ci = ob.cls
    seen = {}
    for c in P.mro(ci):
        for n, fi in c.methods.items():
            seen.setdefault(n, fi)
    out = []
    for n, fi in sorted(seen.items()):
        if n.startswith('_') and n != '__call__' or n in SKIP or fi.kind in ('setter', 'classmethod') or fi.vararg and n != '__call__':
            continue
        if any(p in ('halo', 'func') for p in fi.params) or fi.abstract:
            continue
        out.append((n, fi))
    return out


def ask(H, o, n, fi, tag):
    S = H.S
    if fi.kind == 'property':
        return S.r(S.attr(o, n))
    ps = list(fi.params[0 if fi.kind == 'staticmethod' else 1:])
    a = []
    for p in ps:
        d = fi.defaults.get(p)
        if d is not None:
            break  # further arguments are optional
        a.append(S.sym('%s_%s' % (p, tag)))
    opt = {}
    for p in ps[len(a):]:
        d = fi.defaults.get(p)
        dv = getattr(d, 'value', None)
        if isinstance(dv, float) or isinstance(dv, int) and not isinstance(dv, bool):
            opt[p] = S.sym('%s_%s' % (p, tag))
    if n == '__call__' and fi.vararg:
        a.append(S.sym('m_' + tag))
    return S.r(S.meth(o, n, *a, **opt))


def random(t):
    return any(u.op in ('rnd', 'draw') or u.op == 'call' and str(u.args[0]).split('.')[-1] in ('rvs', 'uniform', 'normal', 'lognormal', 'poisson', 'rand', 'randn', 'choice') for u in TM.walk(t))


def sweep(ctx, kind):
    raises = (False, True) if kind[0] == 'Cosmology' else (False,)
    label = kind[0].split(':')[-1] + ('[%s]' % kind[1] if kind[0] == 'Geometry' else '')
    CDM = ['ConcentrationLudlow', 'ConcentrationDiemerJoyce', 'ConcentrationPeakHeight']
    classes = [] if kind[0] == 'Cosmology' else ['Cosmology'] + CDM if kind[0] in ('Geometry', 'LensCosmo') else ['Cosmology', 'LensCosmo']  # decided on their own
    if kind[0].startswith(CON) and kind[0].split(':')[1] not in CDM:
        classes += CDM
    H = Hist((), classes)
    o = build(H, kind)
    qs = queries(H, o)
    base = {}
    writers = []
    # the answers on a fresh object and what each query leaves behind
    for n, fi in qs:
        H = Hist((), classes)
        o = build(H, kind)
        s = H.snap()
        try:
            base[n] = ask(H, o, n, fi, 'B')
        except RecursionError:
            continue
        wr = H.wrote(s)
        if wr:
            writers.append((n, fi, wr))
        elif not random(base[n]):
            ctx.ok('%s.%s leaves nothing behind' % (label, n), where_fn(fi), 'the query writes nothing that outlives it')
        ctx.saw(H.S)
    remembers = {n for n, fi, wr in writers}
    for n, fi, wr in writers:
        for other in (False, True):
            for m, gi in qs:
                if m not in base or random(base[m]):
                    continue
                H = Hist((), classes)
                o = first = build(H, kind)
                if other:
                    if m != n:
                        continue
                    first = another(H, kind)
                    if first is None:
                        continue
                ask(H, first, n, fi, 'A')
                got = ask(H, o, m, gi, 'B')
                again = ask(H, o, m, gi, 'B') if m in remembers else got
                for r in raises:
                    if again is not got:
                        ctx.equal('%s.%s repeated after %s%s%s' % (label, m, n, ' of another object' if other else '', ' (outside the tables)' if r else ''), tidy(again, r), tidy(base[m], r), where_fn(gi),
                                  'a repeated query has the same answer (%s is remembered)' % ', '.join(wr))
                    ctx.equal('%s.%s after %s%s%s' % (label, m, n, ' of another object' if other else '', ' (outside the tables)' if r else ''), tidy(got, r), tidy(base[m], r), where_fn(gi),
                              'the answer does not depend on an earlier query (%s is remembered)' % ', '.join(wr))
        ctx.saw(H.S)


def another(H, kind):
    S, P = H.S, program()
    if kind[0] == 'Cosmology':
        return S.new(P.cls('pyHalo.Cosmology.cosmology:Cosmology'), notnone(S, 'astropy2'))
    if kind[0] == 'LensCosmo':
        return S.new(P.cls('pyHalo.Halos.lens_cosmo:LensCosmo'), S.sym('zl2'), S.sym('zs2'), notnone(S, 'C2', 'pyHalo.Cosmology.cosmology:Cosmology'))
    if kind[0] == 'Geometry':
        return S.new(P.cls('pyHalo.Cosmology.geometry:Geometry'), S.sym('C2', 'pyHalo.Cosmology.cosmology:Cosmology'), S.sym('zl2'), S.sym('zs2'), S.sym('angle2'), const(kind[1]))
    return None


# ------------------------------------------------------------------------ module level tables
def modular(ctx, qual, opaque):
    P = program()
    fi = P.func(qual)
    if fi is None:
        return
    wh = where_fn(fi)

    def run_(H, tag):
        S = H.S
        return S.r(S.I.invoke(fi, [S.sym('%s_%s' % (p, tag)) for p in fi.params], [], S.st, None))

    def ranges(t):
        """the range of a table may grow with the history: one name for all ranges"""
        def f(u):
            if u.op == 'call' and u.args[0] == 'while':
                return sym('RANGE')
            if u.op == 'call' and u.args[0].split('.')[-1] in ('geomspace', 'logspace', 'linspace'):
                return sym('NODES')
            return None
        return TM.subst(t, f)
    H = Hist(opaque)
    s = H.snap()
    base = run_(H, 'B')
    wr = H.wrote(s)
    name = qual.split(':')[1]
    if not wr:
        ctx.ok(name + ' leaves nothing behind', wh, 'the query writes nothing that outlives it')
        return
    H = Hist(opaque)
    run_(H, 'A')
    got = run_(H, 'B')
    ctx.equal('%s after %s' % (name, name), tidy(ranges(got), False), tidy(ranges(base), False), wh, 'a table built for one profile is not used for another (%s is remembered)' % ', '.join(wr))
    ctx.saw(H.S)
    # a table built earlier is used only inside its range
    B = sym('M_B') if 'M' in fi.params else None
    if B is None:
        return

    def loops(u):
        if u.op == 'call' and u.args[0].split('.')[-1] in ('min', 'max', 'amin', 'amax') and len(u.args[1].args) == 1:
            return TM.subst(u.args[1].args[0], loops)  # one mass
        return sym(('WB%d' if TM.contains(u, B) else 'WA%d') % u.id) if u.op == 'call' and u.args[0] == 'while' else None

    def side(q):
        """+1 / -1 when q grows / falls with the mass, None when it does not depend on it"""
        if not TM.contains(q, B):
            return None

        def at(x):
            def f(u):
                if u is B:
                    return x
                if u.op == 'call' and u.args[0].split('.')[-1] in ('min', 'max', 'amin', 'amax') and len(u.args[1].args) == 1:
                    return TM.subst(u.args[1].args[0], f)
                if u.op != 'num' and not TM.contains(u, B) and u.op not in ('poly', 'term', 'args', 'kw'):
                    return num(Fraction(3, 2))
                return None
            return evaluate(TM.subst(q, f), 1, {})
        a, b = at(num(Fraction(1, 10**12))), at(num(10**12))
        if a != a or b != b or abs(a - b) < 1e-9:
            return 0
        return 1 if (b - a).real > 0 else -1
    n, bad = 0, None
    for leaf, asg in cases(tidy(TM.subst(got, loops), False)):
        old = [u for u in TM.walk(leaf) if u.op == 'call' and u.args[0].split('.')[-1] == 'interp1d' and not any(x is B or x.op == 'sym' and str(x.args[0]).startswith('WB') for x in TM.walk(u))]
        if not old:
            continue
        n += 1
        bounds = set()
        for (k, q), v in asg.items():
            if k == 'sgn' and side(q) and v != 0:
                bounds.add(side(q) * v)
            elif k == 'sgn' and side(q) and v == 0:
                bounds.update((1, -1))
        if len(bounds) != 2:
            bad = bad or show_asg(asg)
    key, why = '%s uses a remembered table inside its range' % name, 'a table built by an earlier query is used only when the query lies between its ends'
    if bad:
        ctx.violation(key, wh, why + ': also when ' + bad[:300])
    elif n:
        ctx.ok(key, wh, why)


def changing(f):
    """attributes of the object that a method other than the constructor assigns"""
    out = set()
    for n, g in (f.cls.methods.items() if f.cls is not None else ()):
        if not n.startswith('_'):
            out |= {t.attr for t in ast.walk(g.node) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)}
    return out


def memoised(ctx):
    """functions whose results are kept by a decorator are functions of their arguments"""
    P = program()
    for m in P.modules.values():
        for name, binds in m.bind.items():
            f = P.func('%s:%s' % (m.name, name))
            c = P.cls('%s:%s' % (m.name, name))
            for f in ([f] if f is not None else []) + (list(c.methods.values()) if c is not None else []):
                node = getattr(f, 'node', None)
                if f.module is not m or node is None or not getattr(node, 'decorator_list', None):
                    continue
                names = [ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1] for d in node.decorator_list]
                if not any(n in ('lru_cache', 'cache', 'memoize') for n in names):
                    continue
                H = Hist([])
                S = H.S
                s = H.snap()
                t = S.r(S.I.invoke(f, [S.sym(p + '_B') for p in f.params], [], S.st, None))
                wr = H.wrote(s)
                ctx.saw(S)
                free = sorted({u.args[1] for u in TM.walk(t) if u.op == 'attr' and u.args[1] in changing(f)} | ({'random numbers'} if random(t) else set()), key=str)
                key = 'memoised %s is a function of its arguments' % f.name
                if free or wr:
                    ctx.violation(key, where_fn(f), 'its result also depends on %s, which a remembered result ignores' % ', '.join([str(x) for x in free] + wr))
                else:
                    ctx.ok(key, where_fn(f), 'only its arguments enter')


def run(ctx):
    for k in kinds():
        ctx.guard(str(k[0]), sweep, ctx, k)
    T = 'pyHalo.Halos.galacticus_truncation.transfer_function_density_profile:'
    ctx.guard('memo', memoised, ctx)
    ctx.guard('table', modular, ctx, T + '_Truncation_Radius', [M_TOTAL])
    ctx.guard('table', modular, ctx, 'pyHalo.Halos.batch_halo_util:_truncation_radius_cached', [M_TOTAL])
    ctx.guard('table', modular, ctx, T + 'compute_r_te_and_f_t', [M_TOTAL, '_M_enclosed_generalized_NFW_dimensionless', '_R_max_generalized_NFW_dimensionless', '_f_t_Du_2024', 'Convert_to_reference_model'])
    ctx.guard('table', modular, ctx, 'pyHalo.Halos.batch_halo_util:compute_r_te_and_f_t_vectorized', [M_TOTAL, '_M_enclosed_generalized_NFW_dimensionless', '_R_max_generalized_NFW_dimensionless', '_f_t_Du_2024', 'Convert_to_reference_model'])
