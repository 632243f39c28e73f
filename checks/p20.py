"""P20 spatial draws stay inside the rendered region and use one scale."""
from .common import *
from .p18 import variates, unint

EXPLAIN = ("Every spatial distribution is constructed on symbolic radii and geometry and its draw evaluated; uniform variates become lo + (hi-lo)*u with "
           "u in [0, 1], and the squared projected radius of a draw must equal (scale * rendering radius)^2 * u, so it is inside the region for every u; the "
           "angle spans one full turn, the centre enters additively with the same scale for x and y, sizes equal the number requested, and tabulated "
           "radial samples come from grids that end at the rendering (virial) radius with shell weights of the right dimension.")
ASSUME = ['interp1d(c, x)(u) lies between the extreme x for u between the extreme c']
FLOOR = 25
B = 'pyHalo.Rendering.SpatialDistributions.'
GEO = 'pyHalo.Cosmology.geometry:Geometry'


def cls_(q):
    ci = program().cls(q)
    if ci is None:
        raise Broken('%s not found' % q)
    return ci


def w(ci, n):
    f = program().lookup(ci, n)
    if f is None:
        raise Broken('%s.%s not found' % (ci.name, n))
    return where_fn(f)


def unify(S, t, us):
    """uniform variates as lo + (hi-lo)*u"""
    def f(u):
        if u.op == 'rnd':
            lo = hi = None
            a = u.args[1].args
            if u.args[0] == 'uniform' and len(a) >= 2 and not u.args[2].args:
                lo, hi, size = a[0], a[1], (a[2] if len(a) > 2 else NONE)
            elif u.args[0] in ('rand', 'random', 'random_sample') and not u.args[2].args:
                lo, hi, size = ZERO, ONE, (a[0] if a else NONE)
            if lo is None:
                return None
            if u not in us:
                us[u] = (S.sym('u%d' % len(us)), lo, hi, size)
            v, lo, hi, _ = us[u]
            return add(lo, mul(sub(hi, lo), v))
        return None
    return TM.subst(t, f)


def pair(t):
    """the non-empty alternative of a drawn tuple"""
    if t.op == 'ite':
        for b in (t.args[1], t.args[2]):
            if b.op == 'tup' and all(not (x.op == 'seq' and not x.args) for x in b.args):
                return b
        return pair(t.args[2])
    return t if t.op == 'tup' else None


def empty_ok(ctx, key, t, N, n, where):
    g = decide.simp(TM.subst(t, lambda u: ZERO if u is N else None), {}, {})
    ok = g.op == 'tup' and len(g.args) == n
    if not ok:
        return ctx.undetermined(key + ':none', where, TM.show(g, 4))
    for x in g.args:
        st, _ = decide.verdict(TM.length(x), ZERO)
        if x.op == 'seq' and not x.args:
            st = 'equal'
        ctx.require(key + ':none', True if st == 'equal' else None, where, TM.show(x, 4), 'no objects, no positions')


def disc(ctx, key, S, x, y, centre, scale, radius, N, where):
    """(x, y) = scale*centre + a point of the disc of the given radius"""
    us = {}
    x, y = unify(S, x, us), unify(S, y, us)
    zero = {c: ZERO for c in centre}
    x0, y0 = (TM.subst(v, lambda u: zero.get(u)) for v in (x, y))
    for v, v0, c, nm in ((x, x0, centre[0], 'x'), (y, y0, centre[1], 'y')):
        ctx.equal('%s:centre %s' % (key, nm), sub(v, v0), mul(scale, c), where, 'the centre moves the distribution, converted with the scale of its redshift')
    r2 = add(TM.power(x0, TM.num(2)), TM.power(y0, TM.num(2)))
    R2 = mul(TM.power(scale, TM.num(2)), TM.power(radius, TM.num(2)))
    syms = [v[0] for v in us.values()]
    alts = [mul(R2, a) for u in syms for a in (u, sub(ONE, u))]
    if not alts:
        return ctx.undetermined(key + ':radius', where, 'no uniform variates')
    st = ctx.one_of(key + ':radius', trig(r2), alts, where, 'squared radius = (scale x rendering radius)^2 x uniform variate (uniform in area, inside the region)')
    angles = {u.args[1].args[0] for v in (x0, y0) for u in TM.walk(v) if u.op == 'call' and u.args[0] in ('cos', 'sin')}
    if len(angles) != 1:
        ctx.undetermined(key + ':angle', where, '%d angles' % len(angles))
    else:
        a = angles.pop()
        used = [s for s in syms if s in decide.leaves(a)]
        if len(used) != 1:
            ctx.undetermined(key + ':angle', where, TM.show(a, 5))
        else:
            hi, lo = (TM.subst(a, lambda u: k if u is used[0] else None) for k in (ONE, ZERO))
            ctx.equal(key + ':angle', sub(hi, lo), S.r(S.expr('2*np.pi', {})), where, 'the polar angle spans one full turn')
            ctx.require(key + ':independent', used[0] not in decide.leaves(trig(r2)), where, 'radius and angle share a variate', 'radius and angle are independent')
    for rn, (u, lo, hi, size) in us.items():
        sizes(ctx, key, size, N, where)


def sizes(ctx, key, size, N, where):
    if size is NONE:
        return ctx.violation(key + ':number', where, 'one variate for all objects', 'one variate per object')
    ctx.equal(key + ':number', unint(size), N, where, 'one variate per object')


def trig(t):
    """cos^2 = 1 - sin^2"""
    def f(u):
        return None
    p = TM._poly(t) if t.op == 'poly' else None
    if p is None:
        return t
    out = {}
    res = ZERO
    two = TM.num(2)
    for m, c in p.items():
        term = TM.mk('num', c) if not isinstance(c, TM.T) else c
        for b, e in m:
            if b.op == 'call' and b.args[0] == 'cos' and e is two:
                s = mk('call', 'sin', b.args[1], b.args[2])
                term = mul(term, sub(ONE, TM.power(s, two)))
            else:
                term = mul(term, TM.power(b, e))
        res = add(res, term)
    return res


def tables(t):
    return [u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'scipy.interpolate.interp1d']


def uniform(ctx):
    for name, R in (('Uniform', 'R*sc'), ('LensConeUniform', '0.5*R*G.rendering_scale(z)')):
        def f(name=name, R=R):
            ci = cls_(B + 'uniform:' + name)
            S = Session(Config(opaque=['Geometry.kpc_per_arcsec', 'Geometry.rendering_scale']))
            env = {x: S.sym(x) for x in ('R', 'N', 'z', 'sc', 'cx', 'cy')}
            env['G'] = S.sym('G', GEO)
            U = S.new(ci, env['R'], env['G'])
            kw = dict(center_x=env['cx'], center_y=env['cy'])
            if name == 'Uniform':
                kw['rescale'] = env['sc']
            t = S.r(S.meth(U, 'draw', env['N'], env['z'], **kw))
            where = w(ci, 'draw')
            p = pair(t)
            empty_ok(ctx, name, t, env['N'], 2, where)
            if p is None or len(p.args) != 2:
                return ctx.undetermined(name, where, TM.show(t, 4))
            disc(ctx, name, S, p.args[0], p.args[1], (env['cx'], env['cy']), S.r(S.expr('G.kpc_per_arcsec(z)', env)), S.r(S.expr(R, env)), env['N'], where)
            # default centre and scale
            d = pair(S.r(S.meth(U, 'draw', env['N'], env['z'])))
            ctx.saw(S)
            if d is None:
                return
            us = {}
            e2 = dict(env, sc=ONE)
            x, y = (unify(S, v, us) for v in d.args)
            R2 = S.r(S.expr('(G.kpc_per_arcsec(z)*%s)**2' % R, e2))
            ctx.one_of(name + ':default', trig(add(TM.power(x, TM.num(2)), TM.power(y, TM.num(2)))),
                       [mul(R2, a) for u in us.values() for a in (u[0], sub(ONE, u[0]))] or [R2], where, 'by default the distribution is centred and not rescaled')
        ctx.guard(name, f)


def nfw(ctx):
    ci = cls_(B + 'nfw:ProjectedNFW')

    def f():
        S = Session()
        env = {x: S.sym(x) for x in ('R', 'rs', 'rc', 'r200', 'k', 'N', 'z')}
        U = S.new(ci, *[env[x] for x in ('R', 'rs', 'rc', 'r200', 'k')])
        t = S.r(S.meth(U, 'draw', env['N'], env['z']))
        ctx.saw(S)
        where = w(ci, 'draw')
        p = pair(t)
        empty_ok(ctx, 'ProjectedNFW', t, env['N'], 3, where)
        if p is None or len(p.args) != 3:
            return ctx.undetermined('ProjectedNFW', where, TM.show(t, 4))
        x, y, r3 = p.args
        for lab, v, top, dim in (('projected', add(TM.power(x, TM.num(2)), TM.power(y, TM.num(2))), 'R', 2), ('3d', r3, 'r200', 3)):
            key = 'ProjectedNFW:' + lab
            # the sampled radius is the (only) call of an inverse cumulative distribution
            smp = {u for u in TM.walk(v) if u.op == 'meth' and u.args[1] == '__call__' and u.args[0].op == 'call' and
                   u.args[0].args[0] == 'scipy.interpolate.interp1d' and any(q.op == 'rnd' for a in u.args[2].args for q in TM.walk(a))}
            smp = {u for u in smp if not any(u is not o and u in set(TM.walk(o)) for o in smp)}
            if len(smp) != 1:
                ctx.undetermined(key, where, '%d sampled radii' % len(smp))
                continue
            s = smp.pop()
            rho = S.sym('rho')
            vv = trig(TM.subst(v, lambda u: rho if u is s else None))
            want = S.r(S.expr('(k*rho)**2' if dim == 2 else 'k*rho', dict(env, rho=rho)))
            ctx.equal(key + ':scale', vv, want, where, 'kpc = arcsec times the one scale of the lens redshift')
            cdf, grid = s.args[0].args[1].args[:2]
            base = grid
            while base.op == 'idx' and base.args[1].op == 'call' and base.args[1].args[0] == 'slice':
                base = base.args[0]
            if base.op == 'call' and base.args[0] in ('np.linspace',):
                a, b = base.args[1].args[:2]
                ctx.equal(key + ':outer radius', b, env[top], where, 'radii are sampled out to the rendering (virial) radius')
                ratio = S.r(S.expr('a/R', dict(env, a=a)))
                ctx.require(key + ':inner radius', True if ratio.op == 'num' and 0 <= ratio.args[0] <= TM.num(1).args[0] else None, where, TM.show(a), 'a small positive inner radius')
            else:
                ctx.undetermined(key + ':outer radius', where, TM.show(grid, 4))
            for q in {q for a in s.args[2].args for q in TM.walk(a) if q.op == 'rnd'}:
                a = q.args[1].args
                sizes(ctx, key, a[2] if len(a) > 2 else NONE, env['N'], where)
            # weights of the shells
            tabs = [u for u in tables(cdf) if len(u.args[1].args) >= 2]
            done = False
            for u in tabs:
                yv = u.args[1].args[1]
                if yv.op == 'seq' and len(yv.args) == 1 and yv.args[0].op == 'each' and len(yv.args[0].args) == 3:
                    each = yv.args[0]
                    body = each.args[2].args[0]
                    i = mk('bvar', each.args[1])
                    dens = {q for q in TM.walk(body) if q.op == 'idx' and q.args[1] is i and q.args[0].op == 'meth'}
                    if len(dens) != 1:
                        continue
                    d = dens.pop()
                    meth = d.args[0]
                    xs = base
                    wt = S.r(S.expr('(x1**%d - x0**%d)' % (dim, dim), dict(x1=TM.idx(xs, add(i, ONE)), x0=TM.idx(xs, i))))
                    ctx.equal(key + ':shells', body, mul(d, wt), where, 'weight of a shell = density times the difference of r^%d' % dim)
                    want = ('density_2d', 'x, 0.0, rs, 1.0, rc') if dim == 2 else ('density', 'x, rs, 1.0, rc')
                    exp = S.r(S.expr('prof.%s(%s)' % want, dict(env, prof=meth.args[0], x=xs)))
                    sd = S.sym('D')
                    ctx.equal(key + ':profile', meth, exp, where, 'cored NFW density with the given scale and core radii')
                    done = True
            if not done:
                ctx.undetermined(key + ':shells', where, 'tabulated density not found')
        ang = {u.args[1].args[0] for v in (x, y) for u in TM.walk(v) if u.op == 'call' and u.args[0] in ('cos', 'sin')}
        if len(ang) == 1:
            us = {}
            a = unify(S, ang.pop(), us)
            if len(us) == 1:
                (u, lo, hi, size), = us.values()
                ctx.equal('ProjectedNFW:angle', sub(hi, lo), S.r(S.expr('2*np.pi', {})), where, 'the polar angle spans one full turn')
                sizes(ctx, 'ProjectedNFW:angle', size, env['N'], where)
            else:
                ctx.undetermined('ProjectedNFW:angle', where, '%d variates' % len(us))
        else:
            ctx.undetermined('ProjectedNFW:angle', where, '%d angles' % len(ang))
    ctx.guard('ProjectedNFW', f)

    def host(c):
        LEN = 'pyHalo.Halos.lens_cosmo:LensCosmo'
        S = Session(Config(opaque=['LensCosmo.nfwParam_physical', 'Cosmology.kpc_proper_per_asec', 'ConcentrationDiemerJoyce.nfw_concentration',
                                   '_ConcentrationCDM.nfw_concentration']))
        L = S.sym('L', LEN)
        env = {x: S.sym(x) for x in ('M', 'z', 'R', 'rc')}
        env['L'] = L
        kw = {}
        if c:
            env['c'] = S.sym('c')
            S.st.assume(bnot(TM.eq(env['c'], NONE)))
            kw['c_host'] = env['c']
        U = S.I.apply(S.I.get_attr(mk('cls', ci.qual), 'from_Mhost', S.st), [env['M'], env['z'], env['R'], env['rc'], L],
                      [(k, v) for k, v in kw.items()], S.st)
        where = w(ci, 'from_Mhost')
        if not c:
            cs = {u for u in TM.walk(S.r(U)) if u.op == 'meth' and u.args[1] == 'nfw_concentration'}
            if len(cs) != 1:
                return ctx.undetermined('from_Mhost:default concentration', where, '%d concentrations' % len(cs))
            u = cs.pop()
            env['c'] = u
            ctx.equal('from_Mhost:default concentration', mk('tup', *u.args[2].args[:2]), mk('tup', env['M'], env['z']), where, 'concentration of the host mass at the lens redshift')
        env['k'] = S.r(S.expr('L.cosmo.kpc_proper_per_asec(z)', env))
        want = S.new(ci, env['R'], *[S.r(S.expr(e, env)) for e in ('L.nfwParam_physical(M, c, z)[1]*1000/k', 'rc*L.nfwParam_physical(M, c, z)[1]*1000/k',
                                                                 'L.nfwParam_physical(M, c, z)[2]*1000/k', 'k')])
        a, b = S.r(U), S.r(want)
        if a.op != 'inst' or b.op != 'inst':
            return ctx.undetermined('from_Mhost', where, TM.show(a, 3))
        da, db = dict(zip(a.args[1::2], a.args[2::2])), dict(zip(b.args[1::2], b.args[2::2]))
        for k in sorted(set(da) | set(db)):
            va, vb = da.get(k), db.get(k)
            if va is None or vb is None:
                ctx.undetermined('from_Mhost:' + k, where, 'attribute')
            elif va.op in ('inst', 'call', 'unknown') and not decide.leaves(va):
                continue
            else:
                ctx.equal('from_Mhost%s:%s' % ('' if c else '[default]', k), va, vb, where, 'host scale, core and virial radius in arcsec at the lens redshift')
        ctx.saw(S)
    ctx.guard('from_Mhost', host, True)
    ctx.guard('from_Mhost', host, False)


def correlated(ctx):
    ci = cls_(B + 'correlated:Correlated2D')

    def f():
        S = Session(Config(opaque=['Geometry.kpc_per_arcsec']))
        env = {x: S.sym(x) for x in ('sm', 'n', 'R', 'dens', 'z', 'cx', 'cy')}
        env['G'] = S.sym('G', GEO)
        U = S.new(ci, env['G'], env['sm'])
        where = w(ci, 'draw')
        raw = S.r(S.meth(U, 'draw', *[env[a] for a in ('n', 'R', 'dens', 'z', 'cx', 'cy')]))
        t = pair(raw)
        ctx.saw(S)
        if t is None or len(t.args) != 2:
            return ctx.undetermined('Correlated2D', where, TM.show(raw, 4))
        x, y = t.args
        k = S.r(S.expr('G.kpc_per_arcsec(z)', env))
        zero = {env['cx']: ZERO, env['cy']: ZERO}
        x0, y0 = (TM.subst(v, lambda u: zero.get(u)) for v in (x, y))
        ctx.equal('Correlated2D:centre x', sub(x, x0), mul(k, env['cx']), where, 'the shift moves the distribution, converted with the scale of its redshift')
        ctx.equal('Correlated2D:centre y', sub(y, y0), mul(k, env['cy']), where, 'the shift moves the distribution, converted with the scale of its redshift')
        ch = {u for v in (x, y) for u in TM.walk(v) if u.op == 'rnd' and u.args[0] == 'choice'}
        if len(ch) != 1:
            return ctx.undetermined('Correlated2D:pixels', where, '%d pixel draws' % len(ch))
        ch = ch.pop()
        a = list(ch.args[1].args) + [NONE] * 4
        env['dn'] = S.r(S.expr('dens/np.sum(dens)', env))
        prob = a[3]
        ps = [S.r(S.expr(e, env)) for e in ('dn.reshape(-1)', 'dn.ravel()', 'dn.flatten()', 'np.ravel(dn)')]
        if prob is NONE:
            ctx.violation('Correlated2D:probability', where, 'pixels are drawn with equal probability', 'pixels are drawn with the probability of the density')
        else:
            ctx.one_of('Correlated2D:probability', prob, ps, where, 'pixels are drawn with the normalized density as probability')
        ctx.equal('Correlated2D:number', unint(a[1]), env['n'], where, 'the number of positions equals the number requested')
        ctx.equal('Correlated2D:replacement', TRUE if a[2] is NONE else a[2], TRUE, where, 'several objects may share a pixel')
        env['i'] = ch
        # pixel -> coordinate: column (fast index) along x, row along y
        noise = {u for v in (x0, y0) for u in TM.walk(v) if u.op == 'rnd' and u.args[0] == 'normal'}
        sides = [u for u in (S.r(S.expr('dn.shape[0]', env)), S.r(S.expr('dens.shape[0]', env)))]
        for v, nm, col in ((x0, 'x', 0), (y0, 'y', 1)):
            nz = [u for u in noise if u in set(TM.walk(v))]
            q = TM.subst(v, lambda u: ZERO if u in nz else None)
            q = mul(q, TM.power(k, TM.num(-1)))
            alts = []
            for s in sides:
                e = dict(env, s=s)
                ax = ['np.linspace(-R, R, s)[%s]' % p for p in
                      (('np.indices(dimensions=(s, s)).T.reshape(-1, 2)[i][:, %d]' % col),
                       ('np.indices((s, s)).T.reshape(-1, 2)[i][:, %d]' % col),
                       ('np.indices(dimensions=(s, s)).T.reshape(-1, 2)[i, %d]' % col), ('i % s' if col == 0 else 'i // s'),
                       ('np.unravel_index(i, (s, s))[%d]' % (1 - col)), ('np.divmod(i, s)[%d]' % (1 - col)), ('divmod(i, s)[%d]' % (1 - col)))]
                alts += [S.r(S.expr(p, e)) for p in ax]
            known_ops = {'np.indices', 'np.linspace', 'np.unravel_index'}
            st = 'differ'
            for e in alts:
                if decide.verdict(q, e)[0] == 'equal':
                    st = 'equal'
            fam = any(u.op == 'call' and u.args[0] in ('np.indices', 'np.unravel_index') for u in TM.walk(q))
            ctx.require('Correlated2D:pixel ' + nm, True if st == 'equal' else False if fam and ch in set(TM.walk(q)) else None, where,
                        'coordinate of pixel: %s' % TM.show(q, 7)[:400], '%s follows the %s of the density map' % (nm, ('columns', 'rows')[col]))
            for u in nz:
                aa = u.args[1].args
                ctx.equal('Correlated2D:smoothing mean ' + nm, aa[0], ZERO, where, 'unbiased smoothing')
                ctx.one_of('Correlated2D:smoothing ' + nm, aa[1], [S.r(S.expr('sm*R/s', dict(env, s=s))) for s in sides], where, 'smoothing of the given number of pixels')
                if len(aa) < 3:
                    ctx.violation('Correlated2D:smoothing number ' + nm, where, 'one displacement for all objects')
    ctx.guard('Correlated2D', f)


def run(ctx):
    uniform(ctx)
    nfw(ctx)
    correlated(ctx)
