"""P28 precomputed halos equal halos evaluated on demand."""
import ast
from .common import *
from engine import arrays, decide
from .halos import make, HM

EXPLAIN = ("Each batch routine is executed abstractly on a list of two symbolic halos (distinct masses, positions, redshifts), element by element through its array operations; the public quantities of each halo are then "
           "read and compared with those of an identical halo that was not precomputed and evaluates them on demand. Random draws are compared as laws (standard variates with their transformation), and draws of different halos "
           "must be different variates. External interpolators and lensing profiles act element by element.")
ASSUME = ['lenstronomy NFWParam: rhoc_z = rhoc*efunc(z)**2, r200_M = (3M/(4 pi rhoc_z 200))**(1/3), rho0_c = 200/3 rhoc_z c**3/(log(1+c)-c/(1+c))',
          'scipy truncnorm(a, b) and johnsonsu(a, b) variates are loc + scale*ndtri(U(ndtr a, ndtr b)) and sinh((N - a)/b)', 'external functions and interpolators act element by element', 'tabulated and cached distances equal the distances of the cosmology (other properties decide the caches and tables)']
FLOOR = 20
BU = 'pyHalo.Halos.batch_halo_util:'
TT = 'pyHalo.Halos.tidal_truncation:'
CC = 'pyHalo.Halos.concentration:'
TF = {'_M_enclosed_generalized_NFW_dimensionless', '_R_max_generalized_NFW_dimensionless', '_f_t_Du_2024', '_r_te_Du_2024', 'Convert_to_reference_model', '_M_total_generalized_NFW_Truncated_dimensionless'}
SOLVE = {'_Truncation_Radius', '_truncation_radius_cached'}
VEC = {'__call__', 'efunc', 'mass_3d', 'density', 'density_lens', 'angular_diameter_distance', 'angular_diameter_distance_z1z2', 'evaluate'}


def func(n):
    fi = program().func(BU + n)
    if fi is None:
        raise Broken('%s%s not found' % (BU, n))
    return fi


class Rig:
    def __init__(self, infall='HYBRID_INFALL', ages=True, opaque=(), radii=False):
        self.S = S = Session(Config(arrays=True, opaque=[] + list(opaque), opaque_classes=['Geometry'], draws=[]))
        S.I.cfg.floats = True
        self.radii = radii
        self.k, self.ages, self.refs = 0, {}, {}
        S.I.on_call, S.I.on_ext, S.I.on_ometh = self.call, self.ext, self.ometh
        ast_ = S.sym('ASTROPY')
        S.st.assume(bnot(TM.eq(ast_, NONE)))
        C = S.new('pyHalo.Cosmology.cosmology:Cosmology', ast_)
        self.zl, self.zs = S.sym('z_lens'), S.sym('z_source')
        self.lc = S.new('pyHalo.Halos.lens_cosmo:LensCosmo', self.zl, self.zs, C, infall, S.py({'log_m_host': S.sym('H')}))
        S.st.assume(TM.lt(num(14), S.sym('H')))
        S.st.assume(TM.lt(S.sym('H'), num(15)))

    # ---- draws
    def variate(self, name, *law):
        self.k += 1
        return mk('call', 'DRAW', mk('args', TM.const(name), *law, num(self.k)), mk('kw'))

    def arr(self, xs, st):
        return arrays.build(self.S.I, [(TRUE, x) for x in xs], st)

    def draw(self, f, params, size, st):
        """f(values of the parameters) -> one draw, broadcast"""
        I = self.S.I
        one = lambda *a: f(*a)
        if size is not None and size is not NONE:
            n = int(size.args[0]) if size.op == 'num' else int(size.args[0].args[0]) if size.op == 'tup' and len(size.args) == 1 else None
            if n is None:
                return None
            if not arrays.any_array(I, params, st):
                return self.arr([one(*[I.reify(p, st) for p in params]) for _ in range(n)], st)
        return arrays.mapn(I, one, params, st)

    def ext(self, name, args, kwargs, st):
        S, I = self.S, self.S.I
        short = name.split('.')[-1]
        if name in ('scipy.stats.truncnorm.rvs', 'scipy.stats.johnsonsu.rvs', 'numpy.random.normal', 'numpy.random.lognormal', 'numpy.random.uniform', 'numpy.random.standard_normal', 'numpy.random.rand', 'numpy.random.random', 'scipy.stats.norm.rvs'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            N = lambda: self.variate('normal')
            sig = {'truncnorm.rvs': ('a', 'b', 'loc', 'scale', 'size'), 'johnsonsu.rvs': ('a', 'b', 'loc', 'scale', 'size'), 'random.normal': ('loc', 'scale', 'size'), 'norm.rvs': ('loc', 'scale', 'size'),
                   'random.lognormal': ('mean', 'sigma', 'size'), 'random.uniform': ('low', 'high', 'size'), 'random.standard_normal': ('size',), 'random.rand': ('size',), 'random.random': ('size',)}['.'.join(name.split('.')[-2:])]
            d = dict(zip(sig, pos), **kw)
            g = lambda k, e: d.get(k, e)
            size = d.get('size')
            call = lambda n, *a: mk('call', n, mk('args', *a), mk('kw'))
            if short == 'rvs' and 'truncnorm' in name:
                return self.draw(lambda a, b, l, s: add(l, mul(s, call('scipy.special.ndtri', self.variate('uniform', call('scipy.special.ndtr', a), call('scipy.special.ndtr', b))))), [d['a'], d['b'], g('loc', ZERO), g('scale', ONE)], size, st)
            if short == 'rvs' and 'johnsonsu' in name:
                return self.draw(lambda a, b, l, s: add(l, mul(s, self.np1('sinh', TM.div(sub(N(), a), b), st))), [d['a'], d['b'], g('loc', ZERO), g('scale', ONE)], size, st)
            if short in ('normal', 'standard_normal') or name == 'scipy.stats.norm.rvs':
                return self.draw(lambda l, s: add(l, mul(s, N())), [g('loc', ZERO), g('scale', ONE)], size, st)
            if short == 'lognormal':
                return self.draw(lambda m, s: power(TM.EUL, add(m, mul(s, N()))), [g('mean', ZERO), g('sigma', ONE)], size, st)
            return self.draw(lambda l, h: self.variate('uniform', l, h), [g('low', ZERO), g('high', ONE)], size, st)
        if name in ('id', 'builtins.id') and len(args) == 1 and args[0].op == 'ref':
            return num(1000 + self.refs.setdefault(args[0], len(self.refs)))
        if name == 'inspect.getsource' and len(args) == 1:
            a = I.reify(args[0], st)
            fi = find_fn(a)
            if fi is not None:
                return TM.const(ast.unparse(fi.node))
        if name == 'numpy.isfinite' and args and arrays.entries(I, args[0], st) is not None:
            return self.arr([TRUE] * len(arrays.entries(I, args[0], st)), st)
        if name == 'numpy.ndim' and len(args) == 1:
            return num(arrays.ndim(I, args[0], st))
        if name in ('numpy.logspace', 'numpy.geomspace', 'numpy.linspace') and self.radii:
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            a = [I.reify(x, st) for x in pos] + [kw[k] for k in sorted(kw)]
            if any(u.op == 'sym' for x in a for u in TM.walk(x)):
                return self.arr([mk('call', name + str(i), mk('args', *a), mk('kw')) for i in range(2)], st)
        if name in ('numpy.trapezoid', 'numpy.trapz', 'scipy.integrate.trapezoid'):
            return self.trapezoid(args, kwargs, st)
        if name == 'numpy.squeeze' and len(args) == 1:
            return args[0]
        return None

    def trapezoid(self, args, kwargs, st):
        I = self.S.I
        pos, star, kw, _ = I.expand_args(args, kwargs, st)
        y, x = pos[0], pos[1] if len(pos) > 1 else kw.get('x')
        ys, xs = arrays.entries(I, y, st), arrays.entries(I, x, st) if x is not None else None
        if ys is None or xs is None:
            return None
        one = lambda u, v: self.rule([a for _, a in u], [a for _, a in v])
        if arrays.ndim(I, y, st) == 1:
            return one(ys, xs)
        ax = kw.get('axis')
        if ax is None or ax.op != 'num' or int(ax.args[0]) in (1, -1):
            rows = [arrays.entries(I, a, st) for _, a in ys]
            return self.arr([one(r, xs if arrays.ndim(I, x, st) == 1 else arrays.entries(I, xs[i][1], st)) for i, r in enumerate(rows)], st)
        return None

    @staticmethod
    def rule(y, x):
        return add(*[mul(TM.div(add(y[i], y[i + 1]), num(2)), sub(x[i + 1], x[i])) for i in range(len(x) - 1)])

    def np1(self, f, x, st):
        saved, self.S.st = self.S.st, st
        try:
            return self.S.r(self.S.expr('np.%s(x)' % f, dict(x=x)))
        finally:
            self.S.st = saved

    def call(self, fi, args, kwargs, st, node):
        I = self.S.I
        if fi.name == '_evaluate_concentration' and fi.cls is not None and not fi.abstract:
            env = I.bind(fi, args, kwargs, st, node)
            ps = [p for p in fi.params[1:]]
            o = env[fi.params[0]]
            tag = TM.const(I.obj(st, o).cls.name if o.op == 'ref' else fi.cls.name)
            return arrays.mapn(I, lambda *a: mk('call', 'EVAL', mk('args', tag, *a), mk('kw')), [env[p] for p in ps], st)
        if self.radii and fi.name in ('NFW_params_physical', 'nfw_params_physical_vectorized'):
            # compared on their own; positive
            env = I.bind(fi, args, kwargs, st, node)
            q = [p for p in fi.params if p not in ('self', 'lens_cosmo')]
            one = lambda k: arrays.mapn(I, lambda *a: power(num(10), mk('call', 'LOG_' + k, mk('args', *a), mk('kw'))), [env[p] for p in q], st)
            return mk('tup', one('RHOS'), one('RS'), one('R200'))
        if self.radii and hasattr(self, 'lc') and fi.cls is not None and fi.name in ('D_A_z', 'D_A', 'kpc_proper_per_asec'):
            # cached and tabulated distances: decided elsewhere
            env = I.bind(fi, args, kwargs, st, node)
            a = [env[p] for p in fi.params[1:]]
            if fi.name == 'kpc_proper_per_asec':
                return arrays.mapn(I, lambda z: mk('call', 'KPC_PER_ARCSEC', mk('args', z), mk('kw')), a, st)
            return arrays.mapn(I, lambda *z: mk('attr', mk('meth', self.astropy(), 'angular_diameter_distance_z1z2', mk('args', *z), mk('kw')), 'value'), ([ZERO] if fi.name == 'D_A_z' else []) + a, st)
        if fi.cls is None and (fi.name in TF or fi.name in SOLVE):
            env = I.bind(fi, args, kwargs, st, node)
            ps = [env[p] for p in fi.params]
            name = fi.name
            if name in SOLVE:
                name = 'TRUNCATION'
                ps += [num(1), num(3), num(1), num(2)][:max(0, 6 - len(ps))]
            out = lambda *a: mk('call', name, mk('args', *a), mk('kw'))
            if name == 'Convert_to_reference_model':
                r = out(*[I.reify(p, st) for p in ps])
                return mk('tup', mk('call', 'first', mk('args', r), mk('kw')), mk('call', 'second', mk('args', r), mk('kw')))
            return arrays.mapn(I, out, ps, st)
        return None

    def ometh(self, r, st):
        """external objects act element by element; a table of points row by row"""
        if r in self.ages:
            return self.ages[r]
        o, name, a, kw = r.args[0], r.args[1], r.args[2], r.args[3]
        if name == 'r200_M' and len(a.args) == 2:
            return self.S.expr('(3*M/(4*np.pi*rhoc*200))**(1./3)', dict(M=a.args[0], rhoc=self.rhoc_z(o, a.args[1])))
        if name == 'rho0_c' and len(a.args) == 2:
            return self.S.expr('200./3*rhoc*c**3/(np.log(1+c) - c/(1+c))', dict(c=a.args[0], rhoc=self.rhoc_z(o, a.args[1])))
        if name == 'rhoc_z' and len(a.args) == 1:
            return self.rhoc_z(o, a.args[0])
        if name == 'angular_diameter_distance' and len(a.args) == 1:
            o, name, a = o, 'angular_diameter_distance_z1z2', mk('args', ZERO, *a.args)
            r = mk('meth', o, name, a, kw)
            return self.ometh(r, st) or r
        if name == 'density_lens' and len(a.args) == 5:
            R, Rs, al, rc, rt = a.args
            I, oo = self.S.I, o
            rho = mk('meth', o, 'alpha2rho0', mk('args', al, Rs, rc, rt), mk('kw'))
            return arrays.mapn(I, lambda x: mk('meth', oo, 'density', mk('args', x, Rs, rho, rc, rt), mk('kw')), [R], st)
        if name not in VEC:
            return None
        grid = o.op == 'call' and o.args[0].split('.')[-1] == 'RegularGridInterpolator'
        vals = list(a.args)
        I = self.S.I
        if grid and len(vals) == 1:
            rows = arrays.entries(I, vals[0], st)
            if rows is None or not rows or any(arrays.entries(I, x, st) is None for _, x in rows):
                return None
            out = []
            for c, x in rows:
                p = [v for _, v in arrays.entries(I, x, st)]
                out.append((c, mk('meth', o, name, mk('args', mk('tup', *[I.reify(v, st) for v in p])), kw)))
            return arrays.build(I, out, st)
        if arrays.any_array(I, vals, st):
            try:
                one = lambda *x: mk('meth', o, name, mk('args', *x), kw)
                return arrays.mapn(I, lambda *x: self.ages.get(one(*x), one(*x)), vals, st)
            except arrays.No:
                return None
        return None

    def rhoc_z(self, o, z):
        return self.S.expr('rhoc*E**2', dict(rhoc=mk('attr', o, 'rhoc'), E=mk('meth', self.astropy(), 'efunc', mk('args', z), mk('kw'))))

    def astropy(self):
        return self.S.r(self.S.expr('L.cosmo.astropy', dict(L=self.lc)))

    def halos(self, n, cls, sub, trunc=None, conc=None, args=None, mass=None, same_z=False):
        S = self.S
        out = []
        for i in range(n):
            t = str(i + 1)
            q = S.sym('q' + t)
            m = S.expr(mass or '10**(H - q)', dict(H=S.sym('H'), q=q))
            for c in ('q > 0.5', 'q < 5', '10**(-q) > 10**-5', '10**(-q) < 10**-0.5', '1 - 10**5*10**(-q) < 0', '10*10**(-q) - 10**0.5 < 0'):
                S.st.assume(S.expr(c, dict(q=q)))
            given = dict(mass=m)
            if same_z:
                given['z'] = S.sym('z1')
            elif i:
                S.st.assume(bnot(TM.eq(S.sym('z1'), S.sym('z2'))))
            h = make(S, program().cls(HM + cls), sub[i] if isinstance(sub, list) else sub, trunc, conc[i] if isinstance(conc, list) else conc, args(i) if args else S.py({}), t, self.lc, given=given)
            S.I.idents.pop(h, None)
            out.append(h)
        return out


def find_fn(a):
    if a.op == 'attr' and a.args[1] == 'fget':
        a = a.args[0]
    if a.op != 'fn' or ':' not in str(a.args[0]):
        return None
    m, rest = str(a.args[0]).split(':')
    P = program()
    if '.' not in rest:
        return P.func(a.args[0])
    c = P.cls('%s:%s' % (m, rest.split('.')[0]))
    return P.all_methods(c).get(rest.split('.')[1]) if c is not None else None


GRIDS = {}
PLAIN = {}


def plain(t, choice=False):
    """draws by their law; interpolators by name; a choice of the larger of two values as such"""
    if (t, choice) in PLAIN:
        return PLAIN[t, choice]
    def f(u):
        if u.op == 'call' and u.args[0] == 'DRAW':
            return mk('call', 'DRAW', mk('args', *[plain(x, choice) for x in u.args[1].args[:-1]]), mk('kw'))
        if u.op == 'call' and u.args[0] == 'float' and len(u.args[1].args) == 1:
            return plain(u.args[1].args[0], choice)
        if u.op == 'call' and str(u.args[0]).endswith(('RegularGridInterpolator', 'interp1d')):
            return TM.sym('INTERPOLATOR%d' % GRIDS.setdefault(u, len(GRIDS)))
        if choice and u.op == 'ite':
            c, x, y = [plain(x, choice) for x in u.args]
            for a, b in ((x, y), (y, x)):
                # b < a -> a: the larger one;  a < b -> a: the smaller one
                if c in (TM.lt(b, a), TM.le(b, a)):
                    name = 'LARGER' if a is x else 'SMALLER'
                    return mk('call', name, mk('args', *sorted((x, y), key=id)), mk('kw'))
            return ite(c, x, y)
        return None
    PLAIN[t, choice] = r = TM.subst(t, f)
    return r


def draws(t):
    return {u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'DRAW'}


def index(u):
    return u.args[1].args[-1]


GETS = {'profile_args': 'profile_args', 'rescale': '_rescale_norm'}


def read(S, h, attr):
    v = S.attr(h, GETS.get(attr, attr))
    return decide.simp(as_term(S, v), facts(S.st.pc), {})


def facts(pc):
    """what the path condition says about its own atoms"""
    out = {}
    todo = list(pc)
    while todo:
        c = todo.pop()
        if c.op == 'and':
            todo += list(c.args)
        elif c.op in ('neg', 'pos', 'zero'):
            out[decide.atom_key(c)] = {'neg': -1, 'pos': 1, 'zero': 0}[c.op]
        elif c.op == 'eq':
            out[decide.atom_key(c)] = True
        elif c.op == 'not' and c.args[0].op == 'eq':
            out[decide.atom_key(c.args[0])] = False
    return out


def as_term(S, v):
    """a value as one term, with lists and arrays spelled out"""
    e = arrays.entries(S.I, v, S.st)
    if e is not None and all(c is TRUE for c, _ in e):
        return mk('tup', *[as_term(S, x) for _, x in e])
    if v.op == 'tup':
        return mk('tup', *[as_term(S, x) for x in v.args])
    return S.r(v)


def compare(ctx, key, *a, **k):
    ctx.guard(key, compare_, ctx, key, *a, **k)


def compare_(ctx, key, rig, build, batch, attrs, where, rule, n=2, known=(), choice=False):
    """the values of the halos after `batch` against the same halos asked one by one, without it"""
    R = rig()
    hs = build(R)
    batch(R, hs)
    ctx.saw(R.S)
    got = [[plain_of(read(R.S, h, a), choice) for a in attrs] for h in hs]
    pc = band(*R.S.st.pc)
    own = []
    for i in range(n):
        R2 = rig()
        h2 = build(R2)
        want = [plain_of(read(R2.S, h2[i], a), choice) for a in attrs]
        raises(ctx, '%s:%d' % (key, i + 1), [x for x, _ in got[i]], [y for y, _ in want], where)
        for a, (x, _), (y, _) in zip(attrs, got[i], want):
            if x.op == y.op == 'tup' and len(x.args) == len(y.args):
                prs = list(zip(x.args, y.args))
            else:
                prs = [(x, y)]
            for j, (u, v) in enumerate(prs):
                k = '%s:%s%s:%d' % (key, a, '[%d]' % j if len(prs) > 1 else '', i + 1)
                ctx.equal(k, ite(pc, u, ZERO), ite(pc, v, ZERO), where, rule=rule, known=known)
        dx = set().union(*[d for _, d in got[i]]) if attrs else set()
        dy = set().union(*[d for _, d in want]) if attrs else set()
        own.append({index(d) for d in dx})
        px, py = len({plain(d) for d in dx}), len({plain(d) for d in dy})
        if px == py and py == len(dy):
            ctx.require('%s:draws:%d' % (key, i + 1), len(dx) == px, where, 'the values of one halo use %d draws where %d independent ones are needed' % (len(dx), px), 'the quantities of a halo share their draws')
    for i in range(n):
        for j in range(i):
            ctx.require('%s:independent:%d,%d' % (key, j + 1, i + 1), not (own[i] & own[j]), where, 'two halos share a random draw', 'different halos get different draws')


def absent(ts):
    """look-ups of a key that the mapping does not have"""
    return {str(u.args[0]) for t in ts for u in TM.walk(t) if u.op == 'unknown' and str(u.args[0]).startswith('key ')}


def raises(ctx, key, got, want, where):
    bad = absent(got) - absent(want)
    if bad:
        ctx.violation(key + ':raises', where, 'the batch looks up %s, which the halo does not have and does not need' % ', '.join(sorted(bad)), 'the batch evaluates what the halo evaluates')


def plain_of(t, choice=False):
    return plain(t, choice), draws(t)


def conc_of(R, kind='cdm', cc='cc'):
    S = R.S
    C = lambda n, *a, **kw: S.new(CC + n, S.sym('ast'), *a, **kw)
    cls = lambda n: mk('cls', CC + n)
    return {'cdm': lambda: C('ConcentrationDiemerJoyce', S.sym('scat'), S.sym('dex')), 'peak': lambda: C('ConcentrationPeakHeight', S.sym('c0'), S.sym('zeta'), S.sym('beta'), S.sym('scat')),
            'ludlow': lambda: C('ConcentrationLudlow', TRUE), 'exact': lambda: C('ConcentrationDiemerJoyce', FALSE),
            'wdm': lambda: C('ConcentrationWDMPolynomial', cls('ConcentrationDiemerJoyce'), S.sym('mc'), scatter=S.sym('scat')),
            'hyperbolic': lambda: C('ConcentrationWDMHyperbolic', cls('ConcentrationPeakHeight'), S.sym('mc'), S.sym('a'), S.sym('b'), kwargs_cdm=S.py({'c0': S.sym('c0'), 'zeta': S.sym('zeta'), 'beta': S.sym('beta')})),
            'ludlow_wdm': lambda: C('ConcentrationLudlowWDM', S.sym('mc'), S.sym('dlog')), 'constant': lambda: C('ConcentrationConstant', S.sym(cc)),
            'binned': lambda: C('BinnedHaloMass', S.py([[5, 10], [10, 15]]), S.py([S.sym('n1'), S.sym('n2')]), S.py([S.sym('b1'), S.sym('b2')]), S.py([S.sym('t1'), S.sym('t2')]))}[kind]()


SUB, FIELD = 'TNFW:TNFWSubhalo', 'TNFW:TNFWFieldHalo'


def trunc_of(R, name, **kw):
    return R.S.new(TT + name, R.lc, *[R.S.sym(k) for k in kw.get('args', ('ch',))])


def infall(ctx):
    fi = func('precompute_infall_times')
    for model in ('HYBRID_INFALL', 'DIRECT_INFALL', 'MilkyWay200kpc'):
        for mass in (None, '10**(H - 7)', '10**H/2'):
            rig = lambda: Rig(model)
            if mass is None:
                kept(ctx, 'infall:' + model, rig, lambda R: R.halos(2, SUB, TRUE, trunc_of(R, 'TruncationGalacticus'), conc_of(R)), 'z_infall', lambda R, hs: R.S.call(fi, R.S.py(hs), R.lc), where_fn(fi))
            compare(ctx, 'infall:%s:%s' % (model, mass or 'inside'), rig, lambda R: R.halos(2, SUB, TRUE, trunc_of(R, 'TruncationGalacticus'), conc_of(R), mass=mass),
                    lambda R, hs: R.S.call(fi, R.S.py(hs), R.lc), ('z_infall', 'time_since_infall'), where_fn(fi), 'infall redshift and elapsed time as on demand')


def concentrations(ctx):
    fi = func('precompute_concentrations')
    for kind in ('cdm', 'exact', 'peak', 'ludlow', 'wdm', 'hyperbolic', 'ludlow_wdm', 'constant', 'binned'):
        if kind in ('cdm', 'wdm'):
            kept(ctx, 'c:' + kind, Rig, lambda R: R.halos(2, FIELD, FALSE, trunc_of(R, 'Multiple_RS', args=('tau',)), conc_of(R, kind), same_z=True), 'c', lambda R, hs: R.S.call(fi, R.S.py(hs)), where_fn(fi))
        for n, same in ((2, True), (2, False), (1, False)):
            def build(R):
                c = conc_of(R, kind)
                return R.halos(n, FIELD, FALSE, trunc_of(R, 'Multiple_RS', args=('tau',)), c, same_z=same)
            if n == 2:
                def partly(R, hs):
                    # the first halo has been asked before
                    R.S.r(R.S.attr(hs[0], 'c'))
                    R.S.call(fi, R.S.py(hs))
                compare(ctx, 'c:%s:asked%s' % (kind, 's' if same else ''), Rig, build, partly, ('c',), where_fn(fi), 'concentration as on demand')
            compare(ctx, 'c:%s:%d%s' % (kind, n, 's' if same else ''), Rig, build, lambda R, hs: R.S.call(fi, R.S.py(hs)), ('c',), where_fn(fi), 'concentration as on demand', n=n)


def scale(ctx):
    fi = func('precompute_nfw_params')
    for cls, sb in ((FIELD, FALSE), ('coreTNFW:TNFWCFieldHaloSIDM', FALSE), ('NFW_core_trunc:TNFWCHaloEvolving', FALSE), ('ULDM:ULDMFieldHalo', FALSE)):
        if program().cls(HM + cls) is None:
            continue
        compare(ctx, 'nfw:' + cls, Rig, lambda R: R.halos(2, cls, sb, trunc_of(R, 'Multiple_RS', args=('tau',)), conc_of(R), args=lambda i: R.S.sym('args%d' % i)),
                lambda R, hs: R.S.call(fi, R.S.py(hs)), ('c', 'nfw_params'), where_fn(fi), 'concentration, density, scale radius and virial radius as on demand')


def fallen(R, hs, same=False):
    """infall redshifts given: different from one another, or equal"""
    S = R.S
    zi = [S.sym('zi1' if same else 'zi%d' % (i + 1)) for i in range(len(hs))]
    if not same and len(hs) > 1:
        S.st.assume(bnot(TM.eq(zi[0], zi[1])))
    for h, z in zip(hs, zi):
        S.meth(h, 'set_infall_redshift', z)
    return hs


REGIMES = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def regime(R, hs, t, reg):
    """concentration, elapsed time or redshift and host concentration inside, above or below the tabulated range"""
    S = R.S
    a = lambda c, **kw: S.st.assume(S.expr(c, dict(cc=S.sym('cc'), ch=S.sym('ch'), zl=R.zl, **kw)))
    for c in ({0: ('cc > 2', 'cc < 384'), 1: ('cc > 384', 'cc > 2'), -1: ('cc < 2', 'cc < 384', 'cc > 0')}[reg[0]] + {0: ('ch > 4', 'ch < 8', 'ch < 9'), 1: ('ch > 4', 'ch > 8', 'ch < 9'), -1: ('ch < 4', 'ch < 8', 'ch < 9')}[reg[2]]):
        a(c)
    for i, h in enumerate(hs):
        t_ = S.sym('t%d' % (i + 1))
        if t.endswith('Zinfall'):
            x = S.sym('zi%d' % (i + 1))
            for c in {0: ('x - zl > 0.001', 'x - zl < 9.5', 'x - zl > 0', 'x - zl < 8.1'), 1: ('x - zl > 9.5', 'x - zl > 0.001', 'x - zl > 0', 'x - zl > 8.1'), -1: ('x - zl < 0.001', 'x - zl < 9.5', 'x - zl < 8.1', 'x - zl > 0')}[reg[1]]:
                a(c, x=x)
        else:
            for c in {0: ('x > 0', 'x < 8.1'), 1: ('x > 0', 'x > 8.1'), -1: ('x > 0', 'x < 8.1')}[reg[1]]:
                a(c, x=t_)
        S.st.assume(TM.lt(ZERO, t_))
        S.I.set_attr(h, '_time_since_infall', t_, S.st, None)
    return hs


def kept(ctx, key, rig, build, attr, batch, where):
    """a random quantity that has been reported stays what it was"""
    def go():
        for i in (0, 1):
            R = rig()
            hs = build(R)
            was = read(R.S, hs[i], attr)
            batch(R, hs)
            ctx.saw(R.S)
            now = read(R.S, hs[i], attr)
            pc = band(*R.S.st.pc)
            ctx.equal('%s:kept:%s:%d' % (key, attr, i + 1), ite(pc, now, ZERO), ite(pc, was, ZERO), where, rule='a value that a halo has reported is not replaced')
    ctx.guard(key + ':kept', go)


def subhalos(ctx):
    fi = func('precompute_tnfw_subhalos')
    for t in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
        for reg in REGIMES:
            if t == 'TruncationGalacticus' and reg == (0, -1, 0):
                continue
            compare(ctx, 'sub:%s:%d%d%d' % ((t,) + reg), Rig, lambda R: regime(R, fallen(R, R.halos(2, SUB, TRUE, trunc_of(R, t), conc_of(R, 'constant'))), t, reg), lambda R, hs: R.S.call(fi, R.S.py(hs), R.S.attr(hs[0], '_truncation_class')),
                    ('c', 'z_infall', 'time_since_infall', 'bound_mass_galacticus_definition', 'profile_args', 'nfw_params', 'rescale'), where_fn(fi), 'subhalo properties as on demand')
        for at in ('bound_mass_galacticus_definition', 'profile_args', 'c', 'z_infall'):
            def known(R):
                hs = R.halos(2, SUB, TRUE, trunc_of(R, t), conc_of(R, 'constant' if at != 'c' else 'cdm'))
                return regime(R, hs if at == 'z_infall' else fallen(R, hs), t, (0, 0, 0))
            kept(ctx, 'sub:%s' % t, lambda: Rig(radii=at == 'profile_args'), known, at, lambda R, hs: R.S.call(fi, R.S.py(hs), R.S.attr(hs[0], '_truncation_class')), where_fn(fi))
        for i in (0, 1):
            def partly(R, hs):
                # one of the halos has answered a query before
                R.S.r(R.S.attr(hs[i], 'bound_mass_galacticus_definition'))
                R.S.call(fi, R.S.py(hs), R.S.attr(hs[0], '_truncation_class'))
            compare(ctx, 'sub:%s:asked:%d' % (t, i + 1), Rig, lambda R: regime(R, fallen(R, R.halos(2, SUB, TRUE, trunc_of(R, t), conc_of(R, 'constant'))), t, (0, 0, 0)), partly,
                    ('c', 'z_infall', 'time_since_infall', 'bound_mass_galacticus_definition', 'profile_args', 'nfw_params', 'rescale'), where_fn(fi), 'subhalo properties as on demand')


def evolving(ctx):
    fi = func('precompute_sidm_evolving_profiles')
    for sb in (TRUE, FALSE):
        for reg, conds in (('early', ('t < 1', 't < 1.6')), ('late', ('t > 1', 't < 1.6')), ('collapsed', ('t > 1', 't > 1.6'))):
            def build(R):
                S = R.S
                arg = lambda i: S.py(dict({k: S.sym('%s%d' % (k, i + 1)) for k in ('rt_kpc', 'mass_conservation', 'sidm_timescale')}, **({'lambda_t': S.sym('lambda%d' % (i + 1))} if sb is TRUE else {})))
                hs = R.halos(2, 'NFW_core_trunc:TNFWCHaloEvolving', sb, trunc_of(R, 'Multiple_RS', args=('tau',)), [conc_of(R, 'constant'), conc_of(R, 'constant', 'cc2')], args=arg)
                if sb is TRUE:
                    fallen(R, hs)
                for i, h in enumerate(hs):
                    z, zi = S.r(S.attr(h, 'z')), S.sym('zi%d' % (i + 1))
                    for c in ('z < 10', 'z < zi', 'zi < 10'):
                        S.st.assume(S.expr(c, dict(z=z, zi=zi)))
                    for c in conds:
                        S.st.assume(S.expr(c, dict(t=S.attr(h, 't_over_tc'))))
                return hs
            compare(ctx, 'sidm:%s:%s' % ('sub' if sb is TRUE else 'field', reg), lambda: Rig(radii=True), build, lambda R, hs: R.S.call(fi, R.S.py(hs)), ('c', 'halo_effective_age', 't_over_tc', 'profile_args'), where_fn(fi), 'evolving profile as on demand', choice=True)


def mixed(ctx):
    """subhalos and field halos in one list"""
    fi = func('precompute_sidm_evolving_profiles')
    for order in ([TRUE, FALSE], [FALSE, TRUE]):
        def build(R):
            S = R.S
            keys = ('rt_kpc', 'mass_conservation', 'sidm_timescale')
            arg = lambda i: S.py({k: S.sym('%s%d' % (k, i + 1)) for k in keys + (('lambda_t',) if order[i] is TRUE else ())})
            hs = R.halos(2, 'NFW_core_trunc:TNFWCHaloEvolving', order, trunc_of(R, 'Multiple_RS', args=('tau',)), [conc_of(R, 'constant'), conc_of(R, 'constant', 'cc2')], args=arg)
            for i, j in ((1, 2), (2, 1)):
                S.st.assume(bnot(TM.eq(S.sym('z%d' % i), S.sym('zi%d' % j))))
            for i, h in enumerate(hs):
                z, zi = S.sym('z%d' % (i + 1)), S.sym('zi%d' % (i + 1))
                if order[i] is TRUE:
                    S.meth(h, 'set_infall_redshift', zi)
                for c in ('z < 10', 'z < zi', 'zi < 10'):
                    S.st.assume(S.expr(c, dict(z=z, zi=zi)))
                for c in ('t < 1', 't < 1.6'):
                    S.st.assume(S.expr(c, dict(t=S.attr(h, 't_over_tc'))))
            return hs
        compare(ctx, 'sidm:mixed:%s' % ('sf' if order[0] is TRUE else 'fs'), lambda: Rig(radii=True), build, lambda R, hs: R.S.call(fi, R.S.py(hs)), ('c', 'halo_effective_age', 't_over_tc', 'profile_args'), where_fn(fi), 'evolving profile as on demand', choice=True)


def timed(ctx):
    """as above at given fractions of the timescale, where the evolution is a number"""
    fi = func('precompute_sidm_evolving_profiles')

    def halos_(R, sb, ts):
        S = R.S
        keys = ('rt_kpc', 'mass_conservation', 'sidm_timescale') + (('lambda_t',) if sb is TRUE else ())
        for i in (1, 2):
            for c in ('z < 10', 'z < zi', 'zi < 10', 'z > 0'):
                S.st.assume(S.expr(c, dict(z=S.sym('z%d' % i), zi=S.sym('zi%d' % i))))
        arg = lambda i: S.py({k: ts[i] if k == 'sidm_timescale' else S.sym('%s%d' % (k, i + 1)) for k in keys})
        hs = R.halos(2, 'NFW_core_trunc:TNFWCHaloEvolving', sb, trunc_of(R, 'Multiple_RS', args=('tau',)), [conc_of(R, 'constant'), conc_of(R, 'constant', 'cc2')], args=arg)
        return fallen(R, hs) if sb is TRUE else hs
    for sb in (TRUE, FALSE):
        R = Rig(radii=True)
        ages = [S_age(R, h) for h in halos_(R, sb, [ONE, ONE])]
        if any(a is None for a in ages):
            ctx.undetermined('sidm:timed', where_fn(fi), 'the effective age is not linear in the age at the redshift of the halo')
            continue
        for t in ('0.3', '0.97', '1.04', '1.45', '1.57', '1.7', '40'):
            def rig():
                R = Rig(radii=True)
                R.ages = {u: v for u, v, _ in ages}
                return R

            def build(R):
                return halos_(R, sb, [R.S.expr('a/%s' % t, dict(a=a)) for _, _, a in ages])
            compare(ctx, 'sidm:%s:%s' % ('sub' if sb is TRUE else 'field', t), rig, build, lambda R, hs: R.S.call(fi, R.S.py(hs)), ('t_over_tc', 'profile_args'), where_fn(fi), 'evolving profile as on demand', choice=True)


def S_age(R, h):
    """the table value whose choice makes the effective age of the halo a free positive number: (call, value, age)"""
    age = R.S.r(R.S.attr(h, 'halo_effective_age'))
    z = R.S.r(R.S.attr(h, 'z'))
    for u in TM.walk(age):
        if u.op == 'meth' and u.args[1] == '__call__' and u.args[2].args == (z,):
            x = R.S.sym('X')
            f = TM.subst(age, {u: x}.get)
            k = sub(TM.subst(f, {x: ONE}.get), TM.subst(f, {x: ZERO}.get))
            A = R.S.expr('10**a', dict(a=TM.sym('logage_%s' % show(z, 2))))
            v = TM.div(sub(A, TM.subst(f, {x: ZERO}.get)), k)
            if TM.subst(age, {u: v}.get) is A:
                return u, v, A
    return None


def field(ctx):
    fi = func('precompute_tnfw_field_halos')
    for t, a in (('Multiple_RS', ('tau',)), ('TruncationRN', ('N',)), ('ConstantTruncationArcsec', ('rt',)), ('TruncationSplashBack', ())):
        def build(R):
            return R.halos(2, FIELD, FALSE, trunc_of(R, t, args=a), conc_of(R))
        compare(ctx, 'field:' + t, Rig, build, lambda R, hs: R.S.call(fi, R.S.py(hs), R.S.attr(hs[0], '_truncation_class')), ('c', 'profile_args', 'nfw_params'), where_fn(fi), 'field halo properties as on demand')


def bound(ctx):
    """the bound mass stored on a halo is the one a subhalo reports by itself"""
    fi = func('precompute_tnfw_bound_masses')
    P = program()
    for t in ('Multiple_RS', 'TruncationGalacticus'):
        def build(R):
            hs = R.halos(2, SUB, TRUE, trunc_of(R, t, args=('tau',) if t == 'Multiple_RS' else ('ch',)), conc_of(R, 'constant'))
            return regime(R, fallen(R, hs), t, (0, 0, 0))
        R = Rig()
        hs = build(R)
        R.S.call(fi, R.S.py(hs))
        for i, h in enumerate(hs):
            base = P.lookup(P.cls('pyHalo.Halos.halo_base:Halo'), 'bound_mass')
            if base is None:
                raise Broken('Halo.bound_mass not found')
            got = plain(R.S.r(R.S.I.invoke(base, [h], [], R.S.st, None)))
            own = plain(read(R.S, h, 'bound_mass'))
            R2 = Rig()
            h2 = build(R2)[i]
            want = plain(read(R2.S, h2, 'bound_mass'))
            pc = band(*R.S.st.pc)
            ctx.equal('bound:%s:%d' % (t, i + 1), ite(pc, got, ZERO), ite(pc, want, ZERO), where_fn(fi), rule='the stored bound mass is that of the halo')
            ctx.equal('bound:%s:reported:%d' % (t, i + 1), ite(pc, own, ZERO), ite(pc, want, ZERO), where_fn(fi), rule='a subhalo reports the same bound mass')


KINDS = ('tnfw', 'given', 'emulator', 'other', 'field', 'otherfield', 'sidm', 'core', 'nfw')


def population(R, common):
    """a realization's halos of every kind, and its halo model"""
    S = R.S
    ts, tf, to = trunc_of(R, 'TruncationGalacticus'), trunc_of(R, 'Multiple_RS', args=('tau',)), trunc_of(R, 'TruncationRN', args=('N',))
    if common:
        tf = ts
    c = conc_of(R, 'constant')
    P = program()
    sub_, = R.halos(1, SUB, TRUE, ts, c)
    regime(R, fallen(R, [sub_]), 'TruncationGalacticus', (0, 0, 0))
    tag = lambda k: S.sym('tag_' + k)
    p = {k: S.sym('in_' + k) for k in ('rv', 'rs', 'rhos', 'r_trunc_kpc', 'z_infall')}
    S.st.assume(bnot(TM.eq(p['z_infall'], NONE)))
    given = S.I.instantiate(P.cls(HM + 'TNFWFromParams:TNFWFromParams'), [S.sym('m3'), S.sym('x3'), S.sym('y3'), S.sym('r3'), S.sym('z1'), TRUE, R.lc, S.py(p), tag('given')], [], S.st)
    emu = S.I.instantiate(P.cls(HM + 'TNFWemulator:TNFWSubhaloEmulator'), [S.sym('m4'), S.sym('x4'), S.sym('y4'), S.sym('b4'), S.sym('c4'), S.sym('z1'), R.lc, tag('emu')], [], S.st)
    new = lambda cls, sb, t, k, args=None: make(S, P.cls(HM + cls), sb, t, c, args if args is not None else S.py({}), k, R.lc, given=dict(z=S.sym('z1'), mass=S.expr('10**(H - q%s)' % k, {'H': S.sym('H'), 'q' + k: S.sym('q' + k)})))
    other = new(SUB, TRUE, to, '5')
    fallen(R, [other], same=True)
    fld = new(FIELD, FALSE, tf, '6')
    arg = S.py({k: S.sym(k) for k in ('rt_kpc', 'mass_conservation', 'sidm_timescale')})
    sidm = new('NFW_core_trunc:TNFWCHaloEvolving', FALSE, tf, '7', arg)
    nfw = new('NFW:NFWFieldHalo', FALSE, None, '8')
    otherfield = new(FIELD, FALSE, to, '9')
    core = new('NFW_core_trunc:TNFWCHaloParametric', FALSE, tf, '10', S.py({k: S.sym(k + '_') for k in ('rt_kpc', 'mass_conservation', 'x_core_halo')}))
    for h in (given, emu, other, fld, otherfield, sidm, core, nfw):
        S.I.idents.pop(h, None)
    S.st.assume(S.expr('z < 10', dict(z=S.sym('z1'))))
    for q in ('t < 1', 't < 1.6'):
        S.st.assume(S.expr(q, dict(t=S.attr(new('NFW_core_trunc:TNFWCHaloEvolving', FALSE, tf, '7', arg), 't_over_tc'))))
    hs = [sub_, given, emu, other, fld, otherfield, sidm, core, nfw]
    model = dict(concentration_model_subhalos=c, concentration_model_field_halos=c, kwargs_density_profile=S.py({}))
    model.update(dict(truncation_model=ts) if common else dict(truncation_model_subhalos=ts, truncation_model_field_halos=tf))
    return hs, S.py(model)


READS = {'tnfw': ('c', 'profile_args', 'nfw_params', 'rescale', 'z_infall'), 'given': ('c', 'profile_args', 'nfw_params', 'rescale', 'z_infall'), 'emulator': ('c', 'profile_args', 'rescale'),
         'other': ('c', 'profile_args', 'nfw_params', 'rescale'), 'field': ('c', 'profile_args', 'nfw_params', 'rescale'), 'otherfield': ('c', 'profile_args', 'nfw_params', 'rescale'), 'sidm': ('c', 'profile_args', 'rescale'), 'core': ('c', 'profile_args', 'rescale'), 'nfw': ('c', 'profile_args', 'nfw_params', 'rescale')}


def realization(ctx):
    fi = func('precompute_realization')
    for given in (False, True):
        def world():
            R = Rig(radii=True, opaque=['pyHalo.Halos.lens_cosmo:LensCosmo.nfw_physical2angle'])
            hs, km = population(R, False)
            S = R.S
            real = S.meth(mk('cls', 'pyHalo.single_realization:Realization'), 'from_halos', S.py(hs), R.lc, km, TRUE, S.py([]))
            return R, hs, km, real
        R, hs, km, real = world()
        R.S.call(fi, real, *([km] if given else []))
        ctx.saw(R.S)
        got = {k: [plain_of(read(R.S, h, a), True)[0] for a in READS[k]] for k, h in zip(KINDS, hs)}
        pc = band(*R.S.st.pc)
        for i, k in enumerate(KINDS):
            R2, h2, _, _ = world()
            for a, u in zip(READS[k], got[k]):
                v = plain_of(read(R2.S, h2[i], a), True)[0]
                raises(ctx, 'real:%s:%s:%s' % ('given' if given else 'own', k, a), [u], [v], where_fn(fi))
                prs = list(zip(u.args, v.args)) if u.op == v.op == 'tup' and len(u.args) == len(v.args) else [(u, v)]
                for j, (x, y) in enumerate(prs):
                    ctx.equal('real:%s:%s:%s[%d]' % ('given' if given else 'own', k, a, j), ite(pc, x, ZERO), ite(pc, y, ZERO), where_fn(fi), rule='every halo of a precomputed realization as on demand')


def run(ctx):
    ctx.budget = 3000
    for f in (infall, concentrations, scale, subhalos, evolving, mixed, timed, field, bound, realization):
        ctx.guard(f.__name__, f, ctx)
