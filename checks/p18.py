"""P18 mass functions draw within their limits and with their stated normalization."""
from .common import *

EXPLAIN = ("Every mass function is constructed on symbolic normalization, slope and limits; the sampled value is expressed as a term in the "
           "uniform variate u and compared with the quantile function of the stated power law on [mlow, mhigh] (so it lies inside the limits for "
           "every u), the number of variates with a Poisson draw of (or the rounded) expected number, and the expected number, first moment and "
           "density with the integrals of the same normalization, slope, suppression and limits; line-of-sight factories are evaluated on a "
           "symbolic redshift and geometry and compared with the documented fit times comoving volume.")
FLOOR = 40
MFB = 'pyHalo.Rendering.MassFunctions.mass_function_base:'
DP = 'pyHalo.Rendering.MassFunctions.density_peaks:'
ARGS = ['lo', 'hi', 'idx', 'pois', 'norm']
SUPP = ['mc', 'a', 'b', 'c']
LAWS = {'CDMPowerLaw': [], 'WDMPowerLaw': SUPP, 'MixedWDMPowerLaw': SUPP + ['frac']}
FACT = {'ShethTormen': [], 'ShethTormenTurnover': SUPP, 'ShethTormenMixedWDM': SUPP + ['frac']}
SPEC = {'CDMPowerLaw': '1.0', 'WDMPowerLaw': '(1 + a*(10**mc/m)**b)**c',
        'MixedWDMPowerLaw': '(frac + (1 - frac)*((1 + a*(10**mc/m)**b)**c)**0.5)**2'}
KW = {'mc': 'log_mc', 'a': 'a_wdm', 'b': 'b_wdm', 'c': 'c_wdm', 'frac': 'mixed_DM_frac'}
# uniform variates on [0, 1)
UNI = {'rand': (None,), 'random': (None,), 'random_sample': (None,), 'sample': (None,), 'ranf': (None,), 'uniform': (ZERO, ONE)}


def cls_(q):
    ci = program().cls(q)
    if ci is None:
        raise Broken('%s not found' % q)
    return ci


def uniform01(t):
    """size of a standard uniform variate, or None when t is something else"""
    if t.op != 'rnd' or t.args[0] not in UNI:
        return None
    a, kw = t.args[1].args, t.args[2].args
    if kw:
        return None
    if t.args[0] == 'uniform':
        lo, hi = (a[0] if len(a) > 0 else ZERO), (a[1] if len(a) > 1 else ONE)
        if lo is not ZERO or hi is not ONE:
            return None
        return a[2] if len(a) > 2 else NONE
    return a[0] if a else NONE


def variates(t):
    return [u for u in TM.walk(t) if u.op == 'rnd']


def unint(t):
    """int() and repeated rounding of a Poisson variate or of a rounded number change nothing"""
    def f(u):
        if u.op == 'call' and u.args[0] == 'int' and len(u.args[1].args) == 1:
            return TM.subst(u.args[1].args[0], f)
        if u.op == 'call' and u.args[0] in ROUND and len(u.args[1].args) == 1:
            x = TM.subst(u.args[1].args[0], f)
            return x if x.op == 'call' and x.args[0] == 'round' or x.op == 'rnd' and x.args[0] == 'poisson' else \
                mk('call', 'round', mk('args', x), mk('kw'))
        return None
    return TM.subst(t, f)


ROUND = ('round', 'np.round', 'np.rint', 'numpy.rint', 'numpy.round', 'numpy.around')


def law(name, empty=False, pois=None, S=None):
    S = S or Session()
    ci = cls_(MFB + name)
    env = {x: S.sym(x) for x in ARGS + LAWS[name]}
    S.st.assume(TM.lt(env['lo'], env['hi']) if not empty else TM.le(env['hi'], env['lo']))
    if pois is not None:
        env['pois'] = const(pois)
    M = S.new(ci, *[env[x] for x in ARGS + LAWS[name]])
    return S, ci, env, M


def w(ci, n):
    f = program().lookup(ci, n)
    if f is None:
        raise Broken('%s.%s not found' % (ci.name, n))
    return where_fn(f)


def integral(ctx, key, S, got, env, integrand, where, rule):
    """a one-dimensional integral between the mass limits of the given integrand"""
    q = [u for u in TM.walk(got) if u.op == 'call' and u.args[0] == 'scipy.integrate.quad']
    if not q:
        want = S.r(S.expr('norm*(hi - lo)*np.log(10) if idx + n + 1 == 0 else norm*(10**(hi*(1+n+idx)) - 10**(lo*(1+n+idx)))/(1+n+idx)',
                          dict(env)))
        return ctx.equal(key, got, want, where, rule)
    if len(q) > 1:
        return ctx.undetermined(key, where, '%d integrals' % len(q))
    q = q[0]
    a = list(q.args[1].args)
    extra = [a[3]] if len(a) > 3 else []
    kw = {k: v for k, v in zip(q.args[2].args[::2], q.args[2].args[1::2])}
    extra = extra or [v for k, v in kw.items() if (k.args[0] if isinstance(k, TM.T) else k) == 'args']
    fargs = []
    if extra:
        if extra[0].op != 'tup':
            return ctx.undetermined(key, where, 'arguments of the integrand')
        fargs = list(extra[0].args)
    m = env['m']
    fv = S.r(S.I.apply(S.quad_fn(a[0]), [m] + fargs, [], S.st))
    I0 = S.sym('Q')
    shape = TM.subst(got, lambda u: I0 if u.op in ('idx', 'get', 'item') and u.args[0] is q and u.args[1] is ZERO else None)
    if q in set(TM.walk(shape)):
        shape2 = TM.subst(shape, lambda u: mk('tup', I0, S.sym('Qerr')) if u is q else None)
        shape = shape2
    # got = f(Q) with the prefactor f; density = d got
    dens = TM.subst(shape, lambda u: fv if u is I0 else None)
    ctx.equal(key + ':density', dens, integrand, where, rule)
    ctx.equal(key + ':from', a[1], S.r(S.expr('10**lo', env)), where, 'the integral starts at the lower mass limit')
    ctx.equal(key + ':to', a[2], S.r(S.expr('10**hi', env)), where, 'the integral ends at the upper mass limit')


def power_laws(ctx):
    for name in LAWS:
        def moments(name=name):
            S, ci, env, M = law(name)
            env['m'] = S.sym('m')
            dens = 'norm*m**idx*%s' % SPEC[name]
            ctx.equal(name + '.evaluate', S.r(S.meth(M, 'evaluate', env['m'])), S.r(S.expr(dens, env)), w(ci, 'evaluate'), 'density = ' + dens)
            for n, at in ((0, 'n_mean'), (1, 'first_moment')):
                env['n'] = TM.num(n)
                integral(ctx, '%s.%s' % (name, at), S, S.r(S.attr(M, at)), env, S.r(S.expr('m**%d*%s' % (n, dens), env)), w(ci, '__init__'),
                         '%s is the integral of m^%d times the density between the limits' % (at, n))
            ctx.saw(S)
        ctx.guard(name + ':moments', moments)

        def none(name=name):
            S, ci, env, M = law(name, empty=True)
            for at in ('n_mean', 'first_moment'):
                ctx.equal('%s.%s:no mass range' % (name, at), S.r(S.attr(M, at)), ZERO, w(ci, '__init__'),
                          'a population without a mass range has no objects and no mass')
            ctx.saw(S)
        ctx.guard(name + ':none', none)

        for pois in (True, False):
            def count(name=name, pois=pois):
                S, ci, env, M = law(name, pois=pois)
                t = S.r(S.meth(M, 'draw'))
                ctx.saw(S)
                # expected number before suppression: the cold population of the same settings
                C = S.new(cls_(MFB + 'CDMPowerLaw'), *[env[x] for x in ARGS])
                nm = S.r(S.attr(C, 'n_mean'))
                po = [u for u in variates(t) if u.args[0] == 'poisson']
                key = '%s.draw[poisson=%s]' % (name, pois)
                us = [u for u in variates(t) if uniform01(u) is not None]
                # the mass variate is the one whose size involves no other uniform variate
                first = [u for u in us if not any(v in us for v in variates(uniform01(u)))]
                if len(first) != 1:
                    return ctx.undetermined(key, w(ci, 'draw'), '%d mass variates' % len(first))
                size = unint(uniform01(first[0]))
                if pois:
                    good = size.op == 'rnd' and size.args[0] == 'poisson'
                    if not good:
                        return ctx.require(key + ':count', False if not po and decide.leaves(size) else None, w(ci, 'draw'),
                                           'number of objects is %s' % TM.show(size, 6), 'Poisson sampling draws the number from a Poisson distribution')
                    ctx.equal(key + ':count', size.args[1].args[0], nm, w(ci, 'draw'), 'the Poisson mean is the expected number')
                else:
                    if po:
                        return ctx.violation(key + ':count', w(ci, 'draw'), 'a Poisson draw is made although it is not requested')
                    ctx.equal(key + ':count', size, unint(mk('call', 'round', mk('args', nm), mk('kw'))), w(ci, 'draw'),
                              'the number of objects is the rounded expected number')
            ctx.guard('%s:count %s' % (name, pois), count)

        def quant(name=name):
            S, ci, env, M = law(name, pois=True)
            t = S.r(S.meth(M, 'draw'))
            us = [u for u in variates(t) if uniform01(u) is not None]
            first = [u for u in us if not any(v in us for v in variates(uniform01(u)))]
            if len(first) != 1:
                return ctx.undetermined(name + '.draw', w(ci, 'draw'), '%d mass variates' % len(first))
            u = S.sym('u')
            env['u'] = u
            t = TM.subst(t, lambda x: u if x is first[0] else None)
            # kept objects keep their mass: a selection m[...] draws from m
            def base(v):
                if v.op == 'ite':
                    return TM.ite(v.args[0], base(v.args[1]), base(v.args[2]))
                return base(v.args[0]) if v.op == 'idx' else v
            t = base(t)
            q1 = 'lo + u*(hi - lo)'
            q2 = '(u*(10**(hi*(1+idx)) - 10**(lo*(1+idx))) + 10**(lo*(1+idx)))**(1/(1+idx))'
            want = ['(10**(%s) if idx + 1 == 0 else %s)' % (q1, q2)]
            want.append(want[0].replace('u*', '(1-u)*'))
            wt = [S.r(S.expr(x, env)) for x in want]
            ctx.one_of('%s.draw:quantile' % name, t, wt, w(ci, 'draw'),
                       'each mass is the quantile of the power law between the limits at a uniform variate')
            ctx.saw(S)
        ctx.guard(name + ':quantile', quant)


def factories(ctx):
    GEO = 'pyHalo.Cosmology.geometry:Geometry'
    evals = {}
    for name in FACT:
        def f(pois=None, name=name):
            ci = cls_(DP + name)
            S = Session(Config(opaque=['Geometry.volume_element_comoving', 'Cosmology.h', 'Cosmology.colossus']))
            G = S.sym('G', GEO)
            base = dict(ShethTormen='CDMPowerLaw', ShethTormenTurnover='WDMPowerLaw', ShethTormenMixedWDM='MixedWDMPowerLaw')[name]
            env = {x: S.sym(x) for x in ['lo', 'hi', 'pois', 'norm', 'dslope', 'mp', 'z', 'dz', 'm'] + FACT[name]}
            env['G'] = G
            if pois is not None:
                env['pois'] = const(pois)
            S.st.assume(TM.lt(env['lo'], env['hi']))
            kw = dict(log_mlow=env['lo'], log_mhigh=env['hi'], draw_poisson=env['pois'], LOS_normalization=env['norm'],
                      delta_power_law_index=env['dslope'], m_pivot=env['mp'])
            kw.update({KW[x]: env[x] for x in FACT[name]})
            fr = program().lookup(ci, 'from_redshift')
            if fr is None:
                raise Broken(name + '.from_redshift')
            M = S.I.apply(S.I.get_attr(mk('cls', ci.qual), 'from_redshift', S.st), [env['z'], env['dz'], G, S.py(kw)], [], S.st)
            where = where_fn(fr)
            ev = S.r(S.meth(M, 'evaluate', env['m']))
            fits = {u for u in TM.walk(ev) if u.op == 'call' and u.args[0] in ('np.polyfit', 'numpy.polyfit')}
            if len(fits) != 1:
                return ctx.undetermined(name + '.from_redshift', where, '%d fits' % len(fits))
            fit = fits.pop()
            env['fit'] = fit
            x, y, deg = (list(fit.args[1].args) + [None] * 3)[:3]
            if deg is None:
                return ctx.undetermined(name + '.from_redshift', where, 'degree')
            ctx.equal(name + ':fit degree', deg, ONE, where, 'a straight line in log-log space')
            mg = mul(env['mp'], TM.power(TM.num(10), x))
            # the masses the fit is made at
            grid = None
            for u in TM.walk(mg):
                if u.op == 'call' and u.args[0] in ('np.logspace', 'np.linspace', 'np.geomspace'):
                    grid = u
            if grid is None:
                ctx.undetermined(name + ':fit range', where, TM.show(mg, 5))
            else:
                a = grid.args[1].args
                p = '10**' if grid.args[0] == 'np.geomspace' else ''
                ctx.equal(name + ':fit from', a[0], S.r(S.expr(p + 'lo', env)), where, 'the fit starts at the lower mass limit')
                ctx.equal(name + ':fit to', a[1], S.r(S.expr(p + 'hi', env)), where, 'the fit ends at the upper mass limit')
                env['mg'] = mg
            mfs = {u for u in TM.walk(y) if u.op == 'call' and u.args[0].endswith('mass_function.massFunction')}
            if len(mfs) != 1:
                ctx.undetermined(name + ':fitted function', where, '%d calls' % len(mfs))
            else:
                mf = mfs.pop()
                a = list(mf.args[1].args)
                k = {}
                ka = mf.args[2].args
                for i in range(0, len(ka), 2):
                    k[ka[i] if isinstance(ka[i], str) else ka[i].args[0]] = ka[i + 1]
                order = ['x', 'z', 'q_in', 'q_out', 'mdef', 'model']
                for i, v in enumerate(a):
                    k[order[i]] = v
                h = S.attr(S.attr(G, 'cosmo'), 'h')
                env['h'] = h
                ctx.equal(name + ':colossus mass', k['x'], S.r(S.expr('mg*h', env)), where, 'colossus masses are in units of Msun/h')
                ctx.equal(name + ':colossus redshift', k.get('z', NONE), env['z'], where, 'evaluated at the redshift of the plane')
                ctx.equal(name + ':colossus quantity', k.get('q_out', const('f')), const('dndlnM'), where, 'dn/dlnM')
                ctx.equal(name + ':colossus model', k.get('model', const('fof')), const('sheth99'), where, 'Sheth-Tormen model')
                env['mf'] = mf
                ctx.equal(name + ':fitted function', y, S.r(S.expr('np.log10(mf/mg*h**3)', env)), where,
                          'comoving dn/dM in 1/Mpc^3/Msun: dn/dlnM (Mpc/h)^-3 over m times h^3')
            spec = 'norm*G.volume_element_comoving(z, dz)*10**fit[1]*(m/mp)**(fit[0] + dslope)*%s' % SPEC[base]
            ctx.equal(name + '.evaluate', ev, S.r(S.expr(spec, env)), where, 'density = LOS normalization x comoving volume x fit around the pivot x suppression')
            # the same object as the power law with these settings
            env['idx'] = S.r(S.expr('fit[0] + dslope', env))
            env['pn'] = S.r(S.expr('norm*G.volume_element_comoving(z, dz)*10**fit[1]*mp**(-fit[0] - dslope)', env))
            N = S.new(cls_(MFB + base), env['lo'], env['hi'], env['idx'], env['pois'], env['pn'], *[env[x] for x in FACT[name]])
            for at in ('n_mean', 'first_moment'):
                a, b = S.r(S.attr(M, at)), S.r(S.attr(N, at))
                qa, qb = ([u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'scipy.integrate.quad'] for t in (a, b))
                if len(qa) == len(qb) == 1:
                    for i, lab in ((1, 'from'), (2, 'to')):
                        ctx.equal('%s.%s:%s' % (name, at, lab), qa[0].args[1].args[i], qb[0].args[1].args[i], where, 'same mass limits')
                    fa, fb = (S.r(S.I.apply(S.quad_fn(q[0].args[1].args[0]), [env['m']], [], S.st)) for q in (qa, qb))
                    ctx.equal('%s.%s:density' % (name, at), fa, fb, where, 'same moments as the power law with these settings')
                else:
                    ctx.equal('%s.%s' % (name, at), a, b, where, 'same moments as the power law with these settings')
            if pois is not None:
                S.st.rc = {}
                ev_ = S.r(S.meth(M, 'draw'))
                S.st.rc = {}
                ew_ = S.r(S.meth(N, 'draw'))
                ctx.equal('%s.draw[poisson=%s]' % (name, pois), ev_, ew_, where, 'sampled like the power law with these settings', known=('rnd:poisson', 'call:round'))
            ctx.saw(S)
        ctx.guard(name, f)
        ctx.guard(name, f, True)
        ctx.guard(name, f, False)


def others(ctx):
    G_ = cls_('pyHalo.Rendering.MassFunctions.gaussian:Gaussian')
    D_ = cls_('pyHalo.Rendering.MassFunctions.delta_function:DeltaFunction')

    def draws(ctx, label, S, M, ci, value, nm, pois):
        t = S.r(S.meth(M, 'draw'))
        key = '%s.draw[poisson=%s]' % (label, pois)
        po = {u for u in variates(t) if u.args[0] == 'poisson'}
        where = w(ci, 'draw')
        if pois:
            if len(po) != 1:
                return ctx.require(key + ':count', False if not po else None, where, '%d Poisson draws' % len(po),
                                   'the number of objects is a Poisson draw')
            n = po.pop()
            ctx.equal(key + ':count', n.args[1].args[0], nm, where, 'the Poisson mean is the expected number')
        else:
            if po:
                return ctx.violation(key + ':count', where, 'a Poisson draw is made although it is not requested')
            n = mk('call', 'round', mk('args', nm), mk('kw'))
        N = S.sym('N')
        t = TM.subst(unint(t), lambda u: N if u is n or u is unint(n) else None)
        value(key, t, N, where)
        ctx.saw(S)

    for pois in (True, False):
        def gs(pois=pois):
            S = Session()
            n, mean, sig = S.sym('n'), S.sym('mean'), S.sym('sigma')
            S.st.assume(TM.lt(ZERO, n))
            M = S.new(G_, n, mean, sig, const(pois))
            env = dict(mean=mean, sigma=sig)

            def value(key, t, N, where):
                alts = [S.r(S.expr('10**np.random.normal(mean, sigma, N)', dict(env, N=N)))]
                for v, g in decide.cases(t, None, [ctx.budget]):
                    if decide.simp(TM.lt(ZERO, N), g, {}) is TRUE:
                        norm = TM.subst(v, lambda u: mk('rnd', u.args[0], u.args[1], u.args[2], 0) if u.op == 'rnd' else None)
                        ctx.one_of(key + ':masses', norm, [TM.subst(a, lambda u: mk('rnd', u.args[0], u.args[1], u.args[2], 0) if u.op == 'rnd' else None)
                                                           for a in alts], where, 'log-normal masses with the given mean and width, one per object')
            draws(ctx, 'Gaussian', S, M, G_, value, n, pois)
            ctx.equal('Gaussian.first_moment', S.r(S.attr(M, 'first_moment')), S.r(S.expr('10**(mean + sigma**2*np.log(10)/2)', env)),
                      w(G_, '__init__'), 'mean of the log-normal distribution')
            ctx.equal('Gaussian.n_mean', S.r(S.attr(M, 'n_mean')), n, w(G_, '__init__'), 'expected number')
        ctx.guard('Gaussian %s' % pois, gs)

        def ds(pois=pois):
            S = Session()
            m, v, rho = S.sym('m'), S.sym('V'), S.sym('rho')
            M = S.new(D_, m, v, rho, const(pois))
            nm = S.r(S.expr('rho*V/m', dict(m=m, V=v, rho=rho)))
            ctx.equal('DeltaFunction.n_mean', S.r(S.attr(M, 'n_mean')), nm, w(D_, '__init__'), 'number = density x volume / mass')

            def value(key, t, N, where):
                for c, g in decide.cases(t, None, [ctx.budget]):
                    if decide.simp(TM.lt(ZERO, N), g, {}) is TRUE:
                        ctx.equal(key + ':number', TM.length(c), N, where, 'one mass per object', asg=g)
                        bad = [x for x in decide.leaves(c) if x not in (m, N)]
                        ctx.require(key + ':masses', True if c.op == 'seq' and all(y is m for s in c.args for y in TM.walk(s) if y.op == 'sym' and y is not N)
                                    else None, where, TM.show(c, 5), 'every object has the given mass')
            draws(ctx, 'DeltaFunction', S, M, D_, value, nm, pois)
        ctx.guard('DeltaFunction %s' % pois, ds)

    def dz():
        S = Session(Config(opaque=['Geometry.volume_element_comoving', 'Cosmology.rho_crit']))
        G = S.sym('G', 'pyHalo.Cosmology.geometry:Geometry')
        env = {x: S.sym(x) for x in ('m', 'f', 'norm', 'z', 'dz')}
        env['G'] = G
        fr = program().lookup(D_, 'from_redshift')
        if fr is None:
            raise Broken('DeltaFunction.from_redshift')
        M = S.I.apply(S.I.get_attr(mk('cls', D_.qual), 'from_redshift', S.st),
                      [env['z'], env['dz'], G, S.py(dict(mass=env['m'], mass_fraction=env['f'], LOS_normalization=env['norm'], draw_poisson=S.sym('p')))], [], S.st)
        ctx.equal('DeltaFunction.from_redshift', S.r(S.attr(M, 'n_mean')),
                  S.r(S.expr('norm*f*G.cosmo.rho_dark_matter_crit*G.volume_element_comoving(z, dz)/m', env)), where_fn(fr),
                  'comoving dark-matter density times comoving volume times mass fraction over the mass')
        ctx.saw(S)
    ctx.guard('DeltaFunction.from_redshift', dz)


def dist(t, arrs):
    """(k*a)[i] = k*a[i] for the arrays a"""
    def f(u):
        if u.op == 'idx' and u.args[0].op == 'poly':
            i = u.args[1]
            return TM.subst(u.args[0], lambda v: mk('idx', v, i) if v in arrs else v if v.op == 'call' else None)
        return None
    return TM.subst(t, f)


def sampling(ctx):
    """inverse-transform sampling of tabulated distributions"""
    P = program()
    U = 'pyHalo.utilities:'

    def f():
        fi = P.func(U + 'inverse_transform_sampling_from_cdf')
        if fi is None:
            raise Broken('inverse_transform_sampling_from_cdf')
        S = Session()
        x, c, n = S.sym('x'), S.sym('cdf'), S.sym('n')
        got = S.r(S.call(fi, x, c, n))
        S.st.rc = {}
        want = S.r(S.expr('interp1d(cdf/np.max(cdf), x)(np.random.uniform(cdf[0]/np.max(cdf), cdf[-1]/np.max(cdf), n))',
                          dict(x=x, cdf=c, n=n, interp1d=mk('ext', 'scipy.interpolate.interp1d'))))
        ctx.equal('inverse_transform_sampling_from_cdf', dist(got, {c}), dist(want, {c}), where_fn(fi), 'the inverse cumulative distribution at a uniform variate inside its range')
        ctx.saw(S)
    ctx.guard('itcdf', f)

    def g():
        ci = cls_(U + 'ITSampling')
        S = Session()
        x, c = S.sym('x'), S.sym('cdf')
        M = S.new(ci, x, c)
        for n in (1, 7):
            S.st.rc = {}
            got = S.r(S.meth(M, '__call__', n))
            S.st.rc = {}
            want = S.r(S.expr('interp1d(cdf/np.max(cdf), x)(np.random.uniform(cdf[0]/np.max(cdf), cdf[-1]/np.max(cdf), n))',
                              dict(x=x, cdf=c, n=TM.num(n), interp1d=mk('ext', 'scipy.interpolate.interp1d'))))
            strip = lambda t: TM.subst(dist(t, {c}), lambda u: u.args[1].args[0] if u.op == 'call' and u.args[0] in ('float', 'np.squeeze') and len(u.args[1].args) == 1 else None)
            allowed = [strip(want)]
            if n == 1:          # the one sample, taken out of the array or drawn as a number
                allowed.append(S.r(S.I.get_item(allowed[0], TM.num(0), S.st)))
                S.st.rc = {}
                allowed.append(strip(S.r(S.expr('interp1d(cdf/np.max(cdf), x)(np.random.uniform(cdf[0]/np.max(cdf), cdf[-1]/np.max(cdf)))', dict(x=x, cdf=c, interp1d=mk('ext', 'scipy.interpolate.interp1d'))))))
            ctx.one_of('ITSampling[%d]' % n, strip(got), allowed, w(ci, '__call__'), 'the inverse cumulative distribution at a uniform variate inside its range')
        ctx.saw(S)
    ctx.guard('ITSampling', g)


def run(ctx):
    power_laws(ctx)
    factories(ctx)
    others(ctx)
    sampling(ctx)
