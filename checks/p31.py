"""P31 light rays and lensing utilities use matching planes, distances and definitions."""
from contextlib import contextmanager
from fractions import Fraction

from .common import *
from engine import arrays, decide
from . import p15, p24, p28, p29

EXPLAIN = ("The utility functions are executed abstractly: a ray through symbolic lens planes with every shooting step replaced by named results, the interpolated angles on a recorded interpolation, masks on symbolic grids, and the profile "
           "integrals with quadrature replaced by a recorded integrand. Each step, node, limit and formula is compared with the stated one.")
ASSUME = ['ray shooting and convergence of lenstronomy are functions of their arguments', 'numerical quadrature and interpolation are exact']
FLOOR = 20
UT = 'pyHalo.utilities:'


@contextmanager
def guarded(ctx, key):
    """one group of obligations; analysis errors become undetermined, not alarms"""
    err = []
    try:
        yield
    except Broken:
        raise
    except Exception as e:
        err.append(e)

    def again():
        if err:
            raise err[0]
    ctx.guard(key, again)


def und(ctx, key, detail, where=''):
    ctx.undetermined(key, where, detail)


def viol(ctx, key, detail, where='', rule=''):
    ctx.violation(key, where, detail, rule)


def fnw(name):
    fi = program().func(UT + name)
    if fi is None:
        raise Broken('%s not found' % name)
    return where_fn(fi)


class Rig:
    def __init__(self, opaque=(), grid=None):
        self.S = S = Session(Config(opaque=list(opaque), opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], draws=(), arrays=True))
        self.steps, self.interp, self.quads, self.simps, self.maps, self.models, self.k = [], [], [], [], [], [], 0
        self.grid = grid
        S.I.on_ext, S.I.on_ometh = self.ext, self.ometh

    def ext(self, name, args, kwargs, st):
        S, I = self.S, self.S.I
        if name == 'numpy.linspace':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            a, b = [I.reify(p, st) for p in pos[:2]]
            saved, S.st = S.st, st
            try:
                xs = [S.r(S.expr('a + t*(b - a)', dict(a=a, b=b, t=num(i) if i < 2 else S.r(S.expr('1/2', {}))))) for i in (0, 2, 1)]
            finally:
                S.st = saved
            return arrays.build(I, [(TRUE, x) for x in xs], st)
        if name.endswith('interp1d') and not name.startswith('pyHalo'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            o = S.sym('INT%d' % len(self.interp))
            self.interp.append((o, [[v for c, v in arrays.entries(I, p, st) or ()] if arrays.entries(I, p, st) is not None else None for p in pos[:2]], dict(kw)))
            return o
        if name == 'numpy.meshgrid':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            xs, ys = [[v for c, v in arrays.entries(I, p, st)] for p in pos]
            return mk('tup', arrays.build(I, [(TRUE, x) for y in ys for x in xs], st), arrays.build(I, [(TRUE, y) for y in ys for x in xs], st))
        if name == 'scipy.integrate.quad':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            t = S.sym('t%d' % len(self.quads))
            self.quads.append((t, I.reify(I.apply(pos[0], [t], [], st, None), st), [I.reify(p, st) for p in pos[1:3]]))
            return mk('tup', S.sym('Q%d' % (len(self.quads) - 1)), ZERO)
        if name in ('scipy.integrate.simpson', 'scipy.integrate.simps'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('y', 'x'), pos), **dict(kw))
            self.simps.append([[v for c, v in arrays.entries(I, d[k], st) or ()] for k in 'yx'])
            return S.sym('SI%d' % (len(self.simps) - 1))
        if name.endswith('.LensModel') or name.endswith(':LensModel'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            raw = dict(zip(('lens_model_list', 'z_lens', 'z_source', 'lens_redshift_list', 'cosmo', 'multi_plane'), pos))
            raw.update(dict(kw))
            self.models.append((pos, {k: I.reify(v, st) for k, v in raw.items()}, raw))
            return S.sym('LM%d' % (len(self.models) - 1))
        return None

    def ometh(self, r, st):
        I = self.S.I
        names = [a for a in r.args if isinstance(a, str)] if r.op == 'meth' else []
        argv = [list(q.args) for q in r.args if hasattr(q, 'op') and q.op == 'args']
        if 'ray_shooting_partial_comoving' in names:
            k = len(self.steps)
            self.steps.append((r, argv[0] if argv else []))
            return mk('tup', *[self.S.sym('%s%d' % (n, k)) for n in ('rx', 'ry', 'ax', 'ay')])
        if 'kappa' in names:
            kq = [q for q in r.args if hasattr(q, 'op') and q.op == 'kw']
            kl = list(kq[0].args) if kq else []
            d = dict(zip(('x', 'y', 'kwargs'), argv[0] if argv else ()), **dict(zip(kl[::2], kl[1::2])))
            argv = [[d[n] for n in ('x', 'y', 'kwargs')]]
            self.maps.append((r, argv[0] if argv else [], [self.items_of(q) for q in (argv[0] if argv else [])]))
            k = len(self.maps) - 1
            return arrays.build(I, [(TRUE, self.S.sym('k%d_%d' % (k, i))) for i in range(9)], st)
        return None

    def items_of(self, t):
        """the entries of a reified sequence of plain items"""
        return p15.seqs(t)

    def seq(self, v):
        es = arrays.entries(self.S.I, v, self.S.st)
        return None if es is None or any(c is not TRUE for c, _ in es) else [x for _, x in es]


def lens(R, zs=('0.5', '1.0', '0.5', '0.34')):
    S = R.S
    lm = S.sym('LM')
    S.I.preset_attrs[lm, 'redshift_list'] = S.py([S.r(S.expr(z, {})) for z in zs])
    co = S.sym('CO')
    S.st.assume(bnot(TM.eq(co, NONE)))
    return lm, co


def step_args(r):
    """the arguments of a shooting step by their public names"""
    names = ('x', 'y', 'alpha_x', 'alpha_y', 'z_start', 'z_stop', 'kwargs_lens')
    a = [q for q in r.args if hasattr(q, 'op') and q.op == 'args']
    k = [q for q in r.args if hasattr(q, 'op') and q.op == 'kw']
    d = dict(zip(names, a[0].args)) if a else {}
    if k:
        kl = list(k[0].args)
        d.update(zip(kl[::2], kl[1::2]))
    return d


def dist(S, co, z):
    return S.r(S.expr('f(z)', dict(f=S.attr(co, 'D_C_transverse'), z=z)))


def paths(ctx):
    w = fnw('compute_comoving_ray_path')
    for term in (False, True):
        p = 'path/%s/' % ('to the source' if term else 'free')
        R = Rig()
        S = R.S
        lm, co = lens(R)
        tx, ty, zs, sx, sy, kw = S.sym('TX'), S.sym('TY'), S.r(S.expr('1.5', {})), S.sym('SX'), S.sym('SY'), S.sym('KW')
        with guarded(ctx, p):
            v = S.call(UT + 'compute_comoving_ray_path', tx, ty, lm, kw, zs, **dict(dict(cosmo=co), **(dict(terminate_at_source=True, source_x=sx, source_y=sy) if term else {})))
            ctx.saw(S)
            out = [R.seq(S.I.get_item(v, num(i), S.st)) for i in range(3)]
            st = [step_args(r) for r, a in R.steps]
            stops = [d.get('z_stop') for d in st]
            if any(o is None for o in out) or not stops or any(z is None or z.op != 'num' for z in stops):
                und(ctx, p + 'ray', 'the steps of the ray were not enumerated', where=w)
                continue
            need = [S.r(S.expr(z, {})) for z in ('0.34', '0.5', '1.0', '1.5')]
            zv = [z.args[0] for z in stops]
            ctx.require(p + 'planes visited in order', True if all(a < b for a, b in zip(zv, zv[1:])) and zv[0] > 0 else False, where=w, detail='the planes are visited at %s' % ', '.join('%.3g' % float(z) for z in zv),
                        rule='a ray passes every plane once, in order of increasing redshift')
            ctx.require(p + 'every plane visited', True if all(z in stops for z in need) and zv[-1] == need[-1].args[0] else False, where=w, detail='the planes are visited at %s' % ', '.join('%.3g' % float(z) for z in zv),
                        rule='the ray stops at every lens plane and ends at the source redshift')
            prev = dict(x=ZERO, y=ZERO, alpha_x=tx, alpha_y=ty, z_start=ZERO)
            for k, d in enumerate(st):
                for n in ('x', 'y', 'alpha_x', 'alpha_y', 'z_start'):
                    ctx.equal(p + 'step %d/%s' % (k, n), d.get(n, unknown('missing')), prev[n], where=w, rule='each step continues from the position, angle and redshift the step before ended with; the first leaves the observer along the image direction')
                ctx.equal(p + 'step %d/lens' % k, d.get('kwargs_lens', unknown('missing')), kw, where=w, rule='the ray is shot through the given lens model')
                ctx.require(p + 'step %d/model' % k, True if R.steps[k][0].args[0] is mk('attr', lm, 'lens_model') else None if lm not in set(TM.walk(R.steps[k][0])) else False, where=w, detail='shot through %s' % TM.show(R.steps[k][0].args[0])[:80],
                            rule='the ray is shot through the given lens model')
                prev = dict(x=S.sym('rx%d' % k), y=S.sym('ry%d' % k), alpha_x=S.sym('ax%d' % k), alpha_y=S.sym('ay%d' % k), z_start=d['z_stop'])
            kept = R.seq(S.I.preset_attrs[lm, 'redshift_list'])
            ctx.require(p + 'lens model untouched', None if kept is None else kept == [S.r(S.expr(z, {})) for z in ('0.5', '1.0', '0.5', '0.34')], w, 'the lens redshifts are changed', 'shooting a ray leaves the lens model as it was')
            n = len(st)
            ex = [ZERO] + [S.sym('rx%d' % k) for k in range(n)]
            ey = [ZERO] + [S.sym('ry%d' % k) for k in range(n)]
            ed = [ZERO] + [dist(S, co, z) for z in stops]
            if term:
                ex[-1], ey[-1] = TM.mul(sx, ed[-1]), TM.mul(sy, ed[-1])
            for nm, got, want in (('x', out[0], ex), ('y', out[1], ey), ('distance', out[2], ed)):
                ctx.require(p + 'returned %s/length' % nm, True if len(got) == len(want) else False, where=w, detail='%d entries for %d planes and the observer' % (len(got), n), rule='the path starts at the observer and has one point per plane')
                for k, (g, e) in enumerate(zip(got, want)):
                    ctx.equal(p + 'returned %s/%d' % (nm, k), g, e, where=w, rule='the path lists the comoving position and transverse comoving distance on each plane' + (', and ends on the source' if term else ''))


def images(ctx):
    w = fnw('interpolate_ray_paths')
    for term, mean in ((False, False), (True, False), (False, True)):
        p = 'images/%s%s/' % ('to the source' if term else 'free', ', mean' if mean else '')
        R = Rig()
        S = R.S
        lm, co = lens(R, ('0.5',))
        zs, kw = S.r(S.expr('1.5', {})), S.sym('KW')
        T = [[S.sym('T%s%d' % (a, i)) for i in range(2)] for a in 'XY']
        sx, sy = S.sym('SX'), S.sym('SY')
        with guarded(ctx, p):
            v = S.call(UT + 'interpolate_ray_paths', S.py(T[0]), S.py(T[1]), lm, kw, zs, evaluate_at_mean=mean, cosmo=co, **(dict(terminate_at_source=True, source_x=sx, source_y=sy) if term else {}))
            ctx.saw(S)
            got = [R.seq(S.I.get_item(v, num(i), S.st)) for i in range(2)]
            st = [step_args(r) for r, a in R.steps]
            if any(g is None for g in got) or not st or any(d.get('z_stop') is None or d['z_stop'].op != 'num' for d in st) or len(st) % 2:
                und(ctx, p + 'rays', 'the rays were not enumerated', where=w)
                continue
            n = len(st) // 2
            tab = {o: (nodes, k) for o, nodes, k in R.interp}
            single = {}
            for a, ax in enumerate('xy'):
                for i in range(2):
                    z = [d['z_stop'] for d in st[i * n:(i + 1) * n]]
                    D = [dist(S, co, q) for q in z]
                    pos = [S.sym('r%s%d' % (ax, i * n + k)) for k in range(n)]
                    if term:
                        pos[-1] = TM.mul((sx, sy)[a], D[-1])
                    single[ax, i] = ([ZERO] + D, [T[a][i]] + [TM.div(q, d) for q, d in zip(pos, D)])
            def same(key, o, nodes):
                if o not in tab or tab[o][0][0] is None or tab[o][0][1] is None:
                    und(ctx, p + key, 'the interpolation was not recorded', where=w)
                    return
                for nm, g, e in zip(('distance', 'angle'), tab[o][0], nodes):
                    if len(g) != len(e):
                        viol(ctx, p + key + '/' + nm, '%d nodes where %d are expected' % (len(g), len(e)), where=w, rule='one node per plane and one for the observer')
                        continue
                    for k, (x, y) in enumerate(zip(g, e)):
                        ctx.equal(p + key + '/%s/%d' % (nm, k), x, y, where=w, rule='the angular coordinate of a ray is its comoving position over the comoving distance; at the observer it is the image position' if not mean or 'mean' not in key
                                  else 'the mean ray is the average of the image rays at each distance')
            if not mean:
                for a, ax in enumerate('xy'):
                    ctx.require(p + ax + '/one per image', True if len(got[a]) == 2 else False, where=w, detail='%d interpolations for 2 images' % len(got[a]), rule='one interpolation per image')
                    for i, o in enumerate(got[a][:2]):
                        same('%s/image %d' % (ax, i), o, single[ax, i])
            else:
                zr = [S.r(S.expr(q, {})) for q in ('0', '3/4', '1.5')]
                D = [dist(S, co, q) for q in zr]
                first = {}
                for (ax, i), nodes in single.items():
                    c = [o for o, nd, k in R.interp if nd[1] and nd[1][0] is nodes[1][0]]
                    first[ax, i] = c[0] if c else None
                if any(c is None for c in first.values()):
                    und(ctx, p + 'rays', 'the interpolations of the single rays were not found', where=w)
                    continue
                for a, ax in enumerate('xy'):
                    ctx.require(p + ax + '/one mean', True if len(got[a]) == 1 else False, where=w, detail='%d interpolations' % len(got[a]), rule='one mean path')
                    for i in range(2):
                        same('%s/image %d' % (ax, i), first[ax, i], single[ax, i])
                    env = dict(f=first[ax, 0], g=first[ax, 1])
                    want = [S.r(S.expr('(f(d) + g(d))/2', dict(env, d=d))) for d in D]
                    same(ax + '/mean', got[a][0], (D, want))


def integrals(ctx):
    R = Rig()
    S = R.S
    w = fnw('projected_density_squared')
    e = {k: S.sym(k) for k in ('R', 'rho', 'rs', 'c', 'm', 'z', 'zs', 'lam', 'x')}
    pos = list(e.values())
    for q in pos:
        S.st.assume(TM.lt(ZERO, q))
    X = lambda src, env=None: S.r(S.expr(src, dict(e, **(env or {}))))
    with guarded(ctx, 'projected density'):
        v = S.r(S.call(UT + 'projected_density_squared', e['R'], e['rho'], e['rs'], e['c']))
        ctx.saw(S)
        if len(R.quads) != 1:
            und(ctx, 'projected density/integral', '%d integrals' % len(R.quads), where=w)
        else:
            t, f, lim = R.quads[0]
            Q = S.sym('Q0')
            S.st.assume(TM.lt(ZERO, t))
            rule = 'the projected squared density is the integral of the squared NFW density along the sight line through the halo, out to the virial radius'
            ctx.equal('projected density/integrand', S.r(f), X('(rho / (q*(1 + q)**2))**2', dict(q=X('np.sqrt(R**2 + t**2)/rs', dict(t=t)))), where=w, rule=rule)
            top = X('np.sqrt((c*rs)**2 - R**2)')
            half = lim[0] is ZERO
            ctx.equal('projected density/upper limit', lim[1], top, where=w, rule=rule)
            ctx.one_of('projected density/lower limit', lim[0], [ZERO, TM.neg(top)], where=w, rule=rule)
            ctx.equal('projected density/value', v, TM.mul(num(2), Q) if half else Q, where=w, rule=rule + '; a half line counts twice')
    # velocity dispersion
    R = Rig()
    S = R.S
    w = fnw('nfw_velocity_dispersion')
    for q in pos:
        S.st.assume(TM.lt(ZERO, q))
    with guarded(ctx, 'dispersion'):
        v = S.r(S.call(UT + 'nfw_velocity_dispersion', e['rho'], e['rs'], e['c'], e['x']))
        ctx.saw(S)
        rule = 'the isotropic Jeans equation: rho sigma^2 = integral from r to the virial radius of rho G M / r^2'
        if len(R.simps) == 1 and len(R.simps[0][0]) == 3 == len(R.simps[0][1]):
            ys, xs = R.simps[0]
            for i, t in enumerate((e['x'], X('x + (c - x)/2'), e['c'])):
                ctx.equal('dispersion/node %d' % i, xs[i], t, where=w, rule=rule)
                ctx.equal('dispersion/integrand %d' % i, ys[i], X('(np.log(1 + t) - t/(1 + t))/(t*(1 + t)**2)/t**2', dict(t=t)), where=w, rule=rule)
            SI = S.sym('SI0')
            S.st.assume(TM.lt(ZERO, SI))
            g = S.r(v)
            ctx.equal('dispersion/value', g, X('np.sqrt(4*np.pi*4.3e-6*rho**2*rs**2*SI/(rho/(x*(1 + x)**2)))', dict(SI=SI)), where=w, rule=rule)
        elif len(R.quads) == 1:
            t, f, lim = R.quads[0]
            ctx.equal('dispersion/lower', lim[0], e['x'], where=w, rule=rule)
            ctx.equal('dispersion/upper', lim[1], e['c'], where=w, rule=rule)
        else:
            und(ctx, 'dispersion/integral', 'the integral was not recorded', where=w)


def amplitude(ctx):
    w = fnw('delta_kappa')
    w2 = fnw('delta_sigma')
    PS, DS = UT + 'projected_density_squared', UT + 'delta_sigma'
    names = ('m', 'z', 'rein', 'lam', 'zs')
    # surface density fluctuation
    R = Rig(opaque=(PS,))
    S = R.S
    e = {k: S.sym(k) for k in names}
    for q in e.values():
        S.st.assume(TM.lt(ZERO, q))
    rec = []

    def on_call(fi, args, kwargs, st, node):
        if fi.qual == PS:
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, [S.I.reify(a, st) for a in args]))
            d.update({k: S.I.reify(v, st) for k, v in kwargs})
            rec.append([d.get(k) for k in pn])
            return S.sym('PROJ')
        if fi.name == 'NFW_params_physical':
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, [S.I.reify(a, st) for a in args]))
            d.update({k: S.I.reify(v, st) for k, v in kwargs})
            pn = [n for n in pn if n != 'self']
            rec.append(('nfw', d.get(pn[0]), d.get(pn[1]), d.get(pn[2])))
            return mk('tup', S.sym('RHOS'), S.sym('RS'), S.sym('R200'))
        if fi.name == 'nfw_concentration':
            rec.append(('c', [S.I.reify(a, st) for a in args] + [S.I.reify(v, st) for k, v in kwargs]))
            return S.sym('CONC')
        return None
    S.I.on_call = on_call
    with guarded(ctx, 'fluctuation'):
        v = S.r(S.call(DS, e['m'], e['z'], e['rein'], e['lam']))
        ctx.saw(S)
        proj = [q for q in rec if isinstance(q, list)]
        nfw = [q for q in rec if isinstance(q, tuple) and q[0] == 'nfw']
        cc = [q for q in rec if isinstance(q, tuple) and q[0] == 'c']
        if len(proj) == 1 and len(nfw) == 1 and len(cc) == 1:
            rule = 'the fluctuations are those of the NFW halo of the given mass and redshift, projected at the given radius'
            for nm, g, x in zip(('radius', 'density', 'scale radius', 'concentration'), proj[0], (e['rein'], S.sym('RHOS'), S.sym('RS'), S.sym('CONC'))):
                ctx.equal('fluctuation/profile/' + nm, g, x, where=w2, rule=rule)
            for nm, g, x in zip(('mass', 'concentration', 'redshift'), nfw[0][1:], (e['m'], S.sym('CONC'), e['z'])):
                ctx.equal('fluctuation/NFW/' + nm, g, x, where=w2, rule=rule)
            for nm, x in (('mass', e['m']), ('redshift', e['z'])):
                ctx.require('fluctuation/concentration/' + nm, True if x in cc[0][1] else False, where=w2, detail='concentration of %s' % ', '.join(TM.show(q)[:40] for q in cc[0][1]), rule=rule)
            P = S.sym('PROJ')
            S.st.assume(TM.lt(ZERO, P))
            ctx.equal('fluctuation/surface density', S.r(v), S.r(S.expr('(np.sqrt(np.pi)*P*lam)**0.5', dict(e, P=P))), where=w2,
                      rule='the variance of the projected density is sqrt(pi) times the de Broglie wavelength times the integral of the squared density')
        else:
            und(ctx, 'fluctuation/profile', 'the projected density was not recorded', where=w2)
    # in units of the critical density
    R = Rig(opaque=(DS,))
    S = R.S
    for q in e.values():
        S.st.assume(TM.lt(ZERO, q))
    rec2, crit = [], []

    def on_call2(fi, args, kwargs, st, node):
        if fi.qual == DS:
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, [S.I.reify(a, st) for a in args]))
            d.update({k: S.I.reify(v, st) for k, v in kwargs})
            rec2.append([d.get(k) for k in pn])
            return S.sym('DSIG')
        if fi.name == 'get_sigma_crit_lensing':
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, [S.I.reify(a, st) for a in args]))
            d.update({k: S.I.reify(v, st) for k, v in kwargs})
            pn = [n for n in pn if n != 'self']
            crit.append([d.get(k) for k in pn])
            return S.sym('SCRIT')
        return None
    S.I.on_call = on_call2
    with guarded(ctx, 'convergence'):
        v = S.r(S.call(UT + 'delta_kappa', e['z'], e['zs'], e['m'], e['rein'], e['lam']))
        ctx.saw(S)
        if len(rec2) == 1 and len(crit) == 1:
            rule = 'the convergence fluctuation is the surface density fluctuation (per square kpc) over the critical surface density of the lens (per square Mpc)'
            for nm, g, x in zip(('mass', 'redshift', 'radius', 'wavelength'), rec2[0], (e['m'], e['z'], e['rein'], e['lam'])):
                ctx.equal('convergence/' + nm, g, x, where=w, rule=rule)
            for nm, g, x in zip(('lens', 'source'), crit[0], (e['z'], e['zs'])):
                ctx.equal('convergence/critical density of the ' + nm, g, x, where=w, rule=rule)
            ctx.equal('convergence/value', v, S.r(S.expr('D/(C*1e-6)', dict(D=S.sym('DSIG'), C=S.sym('SCRIT')))), where=w, rule=rule)
        else:
            und(ctx, 'convergence/value', 'the surface density or critical density was not recorded', where=w)


def wave(ctx):
    """wavelength and smallest halo of a light particle"""
    w = fnw('de_broglie_wavelength')
    if program().func(UT + 'de_broglie_wavelength') is not None:
        with guarded(ctx, 'wavelength'):
            S = Session(Config())
            v = S.sym('v')
            S.st.assume(TM.lt(ZERO, v))
            lam = lambda m, u: S.r(S.call(UT + 'de_broglie_wavelength', m, u))
            rule = 'the wavelength is h / (m v)'
            base = lam(num(-22), num(100))
            ctx.equal('wavelength/mass', lam(num(-21), v), TM.div(lam(num(-22), v), num(10)), where=w, rule=rule)
            ctx.equal('wavelength/velocity', TM.mul(lam(num(-22), v), v), TM.mul(base, num(100)), where=w, rule=rule)
            b = p24.value(base, {})
            if b is None:
                und(ctx, 'wavelength/value', TM.show(base, 4), where=w)
            else:
                ctx.require('wavelength/value', abs(b / 1.198 - 1) < .05, w, '%g kpc at 1e-22 eV and 100 km/s' % b, '1.2 kpc: ' + rule)
            ctx.saw(S)
    ci = program().cls(UT + 'MinHaloMassULDM')
    if ci is None:
        return
    fi = program().lookup(ci, '__call__')
    w = where_fn(fi) if fi is not None else fnw('projected_density_squared')
    with guarded(ctx, 'minimum mass'):
        S = Session(Config())
        mu, ap, lo, z = (S.sym(k) for k in ('mu', 'astropy', 'lo', 'z'))
        S.st.assume(TM.lt(ZERO, z))
        o = S.new(ci, mu, ap, lo)
        got = S.r(S.expr('o(z)', dict(o=o, z=z)))
        ZT = '((18*np.pi**2 + 82*(a.Om({0}) - 1) - 39*(a.Om({0}) - 1)**2)/a.Om({0}))'
        e = S.r(S.expr('4.4e7*10**(-1.5*(mu + 22))*(1 + z)**0.75*(%s/%s)**0.25' % (ZT.format('z'), ZT.format('0')), dict(mu=mu, a=ap, z=z)))
        top = S.r(S.expr('np.log10(e)', dict(e=e)))
        ends, todo = [], [got]
        while todo:
            u = todo.pop()
            if u.op == 'ite':
                todo += u.args[1:]
            elif u is not lo:
                ends.append(u)
        for i, u in enumerate(u for u in ends if not any(k.op == 'ite' for k in TM.walk(u))):
            ctx.equal('minimum mass/value%d' % i, u, top, where=w, rule='the smallest halo mass the particle allows at this redshift')
        for nm, c, want in (('particle', TM.lt(lo, top), top), ('requested', TM.lt(top, lo), lo)):
            g = decide.simp(got, p28.facts(list(S.st.pc) + [c]), {})
            if any(u.op == 'ite' for u in TM.walk(g)):
                und(ctx, 'minimum mass/' + nm, TM.show(g, 5), where=w)
            else:
                ctx.equal('minimum mass/' + nm, g, want, where=w, rule='the larger of the smallest halo the particle allows at this redshift and the requested minimum')
        ctx.saw(S)


def masks(ctx):
    w = fnw('mask_annular')
    for outer in (False, True):
        p = 'mask/%s/' % ('annulus' if outer else 'disc')
        R = Rig()
        S = R.S
        e = {k: S.sym(k) for k in ('cx', 'cy', 'x0', 'y0', 'x1', 'y1', 'a', 'b')}
        S.st.assume(TM.lt(ZERO, e['a']))
        S.st.assume(TM.lt(e['a'], e['b']))
        S.st.assume(bnot(TM.eq(e['b'], NONE)))
        gx, gy = (arrays.build(S.I, [(TRUE, e[n + '0']), (TRUE, e[n + '1'])], S.st) for n in 'xy')
        with guarded(ctx, p):
            v = S.call(UT + 'mask_annular', e['cx'], e['cy'], gx, gy, e['a'], *([e['b']] if outer else []))
            ctx.saw(S)
            got = R.seq(v)
            if got is None or len(got) != 2:
                und(ctx, p + 'values', 'the mask was not enumerated', where=w)
                continue
            for i, g in enumerate(got):
                r = S.r(S.expr('np.sqrt((x - cx)**2 + (y - cy)**2)', dict(e, x=e['x%d' % i], y=e['y%d' % i])))
                for nm, fact, want in (('inside', [TM.lt(r, e['a']), TM.lt(r, e['b'])], ZERO), ('between', [TM.lt(e['a'], r), TM.lt(r, e['b'])], ONE), ('outside', [TM.lt(e['b'], r), TM.lt(e['a'], r)], ZERO if outer else ONE)):
                    ctx.equal(p + '%s/%d' % (nm, i), p29.settle(R, g, *fact), want, where=w, rule='the mask is zero within the inner radius of the given centre, one beyond it%s' % (' and zero beyond the outer radius' if outer else ''))


def convergence_map(ctx):
    w = fnw('multiplane_convergence')
    for given in (True, False):
        p = 'map/%s/' % ('given macromodel' if given else 'default macromodel')
        R = Rig()
        S = R.S
        re_ = S.sym('REAL')
        names, zh, kwh = S.py(['HALO_A', 'HALO_B']), None, None
        za, zb = S.sym('ZA'), S.sym('ZB')
        zh = arrays.build(S.I, [(TRUE, za), (TRUE, zb)], S.st)
        ka, kb = S.sym('KA'), S.sym('KB')
        kwh = S.py([ka, kb])
        base = R.ometh

        def ometh(r, st, base=base):
            if r.op == 'meth' and r.args[0] is re_ and r.args[1] == 'lensing_quantities':
                return mk('tup', names, zh, kwh, NONE)
            if r.op == 'meth' and 'reshape' in r.args[1:2]:
                return None
            return base(r, st)
        S.I.on_ometh = ometh
        m1, m2, k1, k2, z1, z2 = (S.sym(n) for n in ('M1', 'M2', 'K1', 'K2', 'Z1', 'Z2'))
        ang = S.sym('ANG')
        kw = dict(cone_opening_angle_arcsec=ang, npix=num(3))
        if given:
            kw.update(lens_model_list_macro=S.py([m1, m2]), kwargs_lens_macro=S.py([k1, k2]), redshift_list_macro=S.py([z1, z2]))
        with guarded(ctx, p):
            v = S.call(UT + 'multiplane_convergence', re_, **kw)
            ctx.saw(S)
            if len(R.models) != 2 or len(R.maps) != 2:
                und(ctx, p + 'models', '%d lens models and %d maps' % (len(R.models), len(R.maps)), where=w)
                continue
            def lst(t):
                return list(t.args) if t is not None and t.op in ('seq', 'tup') else None
            def items(t):
                es = arrays.entries(S.I, t, S.st)
                return None if es is None else [x for c, x in es]
            full = [i for i, (a, k, raw) in enumerate(R.models) if 'multi_plane' in k or 'lens_redshift_list' in k]
            if len(full) != 1:
                und(ctx, p + 'models', 'the full lens model was not recognised', where=w)
                continue
            fi_, mi_ = full[0], 1 - full[0]
            a, k, raw = R.models[fi_]
            am, km, rawm = R.models[mi_]
            lc = mk('attr', re_, 'lens_cosmo')
            rule = 'the full model is the macromodel followed by the halos, each on its own plane, for the source and cosmology of the realization'
            ml = items(raw.get('lens_model_list'))
            mac = items(rawm.get('lens_model_list'))
            zl = items(raw.get('lens_redshift_list'))
            if ml is None or mac is None or zl is None:
                und(ctx, p + 'models', 'the lists of lens models were not enumerated', where=w)
                continue
            n = len(mac)
            ctx.require(p + 'macromodel', (True if mac == [m1, m2] else False) if given else (True if n else False), where=w, detail='%s' % [TM.show(q) for q in mac], rule='the macromodel is the given one')
            ctx.require(p + 'models', True if ml == mac + [const('HALO_A'), const('HALO_B')] else False, where=w, detail='%s' % [TM.show(q) for q in ml], rule=rule)
            want = ([z1, z2] if given else [mk('attr', lc, 'z_lens')] * n) + [za, zb]
            ctx.require(p + 'redshifts/length', True if len(zl) == len(want) else False, where=w, detail='%d redshifts' % len(zl), rule=rule)
            for i, (g, x) in enumerate(zip(zl, want)):
                ctx.equal(p + 'redshifts/%d' % i, S.r(g), x, where=w, rule=rule)
            ctx.equal(p + 'source', k.get('z_source', unknown('missing')), mk('attr', lc, 'z_source'), where=w, rule=rule)
            ctx.require(p + 'multi plane', True if k.get('multi_plane') is TRUE or k.get('multi_plane') is const(True) else False, where=w, detail='%s' % k.get('multi_plane'), rule=rule)
            ctx.equal(p + 'cosmology', k.get('cosmo', unknown('missing')), mk('attr', mk('attr', lc, 'cosmo'), 'astropy'), where=w, rule=rule)
            byobj = {}
            for r, av, rw in R.maps:
                byobj[r.args[0]] = (av, rw)
            F_, M_ = byobj.get(S.sym('LM%d' % fi_)), byobj.get(S.sym('LM%d' % mi_))
            if F_ is None or M_ is None:
                viol(ctx, p + 'maps', 'the two convergence maps are not those of the full model and the macromodel', where=w, rule='the map is the convergence of the full model less that of the macromodel')
                continue
            half = S.r(S.expr('a/2', dict(a=ang)))
            gridp = [TM.neg(half), ZERO, half]
            grids = [(x, y) for y in gridp for x in gridp]
            for nm, (av, rw) in (('full', F_), ('macro', M_)):
                xs, ys = rw[0], rw[1]
                if xs is None or ys is None or len(xs) != 9 or len(ys) != 9:
                    und(ctx, p + nm + ' grid', 'the grid was not enumerated', where=w)
                    continue
                for i, (x, y) in enumerate(grids):
                    ctx.equal(p + '%s grid/x%d' % (nm, i), xs[i], x, where=w, rule='the map covers the square of the given opening angle around the centre')
                    ctx.equal(p + '%s grid/y%d' % (nm, i), ys[i], y, where=w, rule='the map covers the square of the given opening angle around the centre')
            kf, km_ = F_[1][2], M_[1][2]
            if kf is None or km_ is None:
                und(ctx, p + 'arguments', 'the lens model arguments were not enumerated', where=w)
            else:
                ctx.require(p + 'arguments/count', True if len(kf) == len(ml) and len(km_) == n else False, where=w, detail='%d arguments for %d models' % (len(kf), len(ml)), rule='one set of arguments per lens model, in the same order')
                ctx.require(p + 'arguments/order', True if kf[n:] == [ka, kb] and (not given or (kf[:n] == [k1, k2] and km_ == [k1, k2])) else False, where=w, detail='%s' % [TM.show(q)[:30] for q in kf], rule='one set of arguments per lens model, in the same order')
            d = S.r(S.I.get_item(v, num(0), S.st))
            grids_in = {t: p15.seqs(t.args[0]) for t in TM.walk(d) if t.op == 'meth' and t.args[1] == 'reshape'}
            es = None
            if grids_in and all(x is not None and len(x) == 9 and t.args[2].args in ((num(3), num(3)), (mk('tup', num(3), num(3)),)) for t, x in grids_in.items()):
                es = [TM.subst(d, lambda t, i=i: grids_in[t][i] if t in grids_in else None) for i in range(9)]
            if es is None:
                und(ctx, p + 'values', 'the map was not enumerated', where=w)
            else:
                ks = {r.args[0]: j for j, (r, av, rw) in enumerate(R.maps)}
                jf, jm = ks[S.sym('LM%d' % fi_)], ks[S.sym('LM%d' % mi_)]
                for i, g in enumerate(es):
                    ctx.equal(p + 'values/%d' % i, g, TM.sub(S.sym('k%d_%d' % (jf, i)), S.sym('k%d_%d' % (jm, i))), where=w, rule='the map is the convergence of the full model less that of the macromodel')
            out = [S.I.get_item(v, num(i), S.st) for i in range(1, 5)]
            ctx.equal(p + 'returned/full model', S.r(out[0]), S.sym('LM%d' % fi_), where=w, rule='the models and arguments used for the map are returned')
            ctx.equal(p + 'returned/macromodel', S.r(out[2]), S.sym('LM%d' % mi_), where=w, rule='the models and arguments used for the map are returned')
            for nm, o, x in (('full', out[1], kf), ('macro', out[3], km_)):
                g = items(o)
                ctx.require(p + 'returned/%s arguments' % nm, None if g is None or x is None else True if [S.r(q) for q in g] == [S.r(q) for q in x] else False, where=w, detail='', rule='the models and arguments used for the map are returned')


def sampling(ctx):
    ci = program().cls(UT + 'ITSampling')
    if ci is None:
        raise Broken('ITSampling not found')
    w = where_fn(program().lookup(ci, '__call__'))
    for n in (1, 2, 3):
        p = 'sampling/%d/' % n
        R = Rig()
        S = R.S
        base_e, base_m = R.ext, R.ometh
        lim = []

        def ext(name, args, kwargs, st, S=S, base_e=base_e, lim=lim):
            if name == 'numpy.random.uniform':
                pos, star, kw, _ = S.I.expand_args(args, kwargs, st)
                lim.append(dict(zip(('low', 'high'), [S.r(q) for q in pos]), **{k: S.r(q) for k, q in dict(kw).items()}))
                size = dict(zip(('low', 'high', 'size'), pos), **dict(kw)).get('size')
                k = size.args[0] if size is not None and size.op == 'num' else None
                if k is None:
                    return S.sym('U') if size is None else None
                return arrays.build(S.I, [(TRUE, S.sym('U%d' % i)) for i in range(int(k))], st)
            return base_e(name, args, kwargs, st)

        def ometh(r, st, S=S, base_m=base_m):
            if r.op == 'meth' and r.args[1] == '__call__' and r.args[0].op == 'sym' and r.args[0].args[0].startswith('INT'):
                us = p15.seqs(r.args[2].args[0])
                if us is not None:
                    return arrays.build(S.I, [(TRUE, mk('meth', r.args[0], '__call__', mk('args', u), r.args[3])) for u in us], st)
            return base_m(r, st)
        S.I.on_ext, S.I.on_ometh = ext, ometh
        with guarded(ctx, p):
            xs = arrays.build(S.I, [(TRUE, S.sym('x%d' % i)) for i in range(3)], S.st)
            cs = arrays.build(S.I, [(TRUE, S.sym('c%d' % i)) for i in range(3)], S.st)
            o = S.new(ci, xs, cs)
            v = S.I.apply(o, [num(n)], [], S.st, None)
            ctx.saw(S)
            r = S.r(v)
            es = p15.seqs(r)
            one = [S.sym('U%d' % i) for i in range(n)]
            drawn = [mk('meth', S.sym('INT0'), '__call__', mk('args', u), mk('kw')) for u in one]
            rule = 'a single sample is a number; several samples are as many values of the inverse of the cumulative distribution'
            if n == 1:
                ctx.require(p + 'number', True if r is drawn[0] else False if es is not None else None, w, 'a sequence where a number is required', rule)
            elif es is None:
                und(ctx, p + 'samples', 'the samples were not enumerated', w)
            else:
                ctx.require(p + 'samples', True if es == drawn else False, w, '%d samples for %d requested' % (len(es), n), rule)
            nodes = R.interp[0][1] if R.interp else [None, None]
            if None in nodes:
                und(ctx, p + 'inverse', 'the interpolation was not recorded', w)
            else:
                ctx.require(p + 'inverse', True if nodes[1] == S.r(xs) or nodes[1] == [S.sym('x%d' % i) for i in range(3)] else False, w, 'interpolates %s' % ', '.join(TM.show(q)[:40] for q in nodes[1]), 'the quantity is interpolated as a function of its cumulative probability')
                if len(lim) == 1 and 'low' in lim[0] and 'high' in lim[0]:
                    for k, q in (('low', nodes[0][0]), ('high', nodes[0][-1])):
                        ctx.equal(p + 'range/' + k, lim[0][k], q, w, 'the variates cover the tabulated cumulative probabilities')
                tot = nodes[0][-1]
                for i, q in enumerate(nodes[0]):
                    ctx.equal(p + 'inverse/%d' % i, TM.mul(q, S.sym('c2')), TM.mul(tot, S.sym('c%d' % i)), w, 'the cumulative probabilities keep their proportions')


def from_samples(ctx):
    ci = program().cls(UT + 'ITSampling')
    fi = program().lookup(ci, 'from_samples') if ci is not None else None
    if fi is None:
        return
    w = where_fn(fi)
    for cs in ((2, 3, 5), (4, 0, 1)):
        p = 'samples/%s/' % '-'.join(map(str, cs))
        R = Rig()
        S = R.S
        base_e = R.ext
        seen = []
        e0, d = S.sym('e0'), S.sym('d')
        S.st.assume(TM.lt(ZERO, d))

        def ext(name, args, kwargs, st, S=S, base_e=base_e):
            if name == 'numpy.histogram':
                pos, star, kw, _ = S.I.expand_args(args, kwargs, st)
                seen.append(dict(zip(('a', 'bins', 'range'), [S.r(q) for q in pos]), **{k: S.r(q) for k, q in dict(kw).items()}))
                return mk('tup', arrays.build(S.I, [(TRUE, num(c)) for c in cs], st), arrays.build(S.I, [(TRUE, TM.add(e0, TM.mul(num(i), d))) for i in range(4)], st))
            return base_e(name, args, kwargs, st)
        S.I.on_ext = ext
        with guarded(ctx, p):
            xs = S.sym('samples')
            S.expr('C.from_samples(s)', dict(C=mk('cls', ci.qual), s=xs))
            ctx.saw(S)
            nodes = R.interp[0][1] if R.interp else [None, None]
            if len(seen) != 1 or None in nodes or len(nodes[0]) != 3 or len(nodes[1]) != 3:
                und(ctx, p + 'histogram', 'the histogram of the samples was not recorded', w)
                continue
            ctx.equal(p + 'data', seen[0]['a'], xs, w, 'the distribution is that of the samples')
            cum = [sum(cs[:i + 1]) for i in range(3)]
            for i in range(3):
                ctx.equal(p + 'midpoint/%d' % i, nodes[1][i], TM.add(e0, TM.mul(num(i), d), TM.mul(num(Fraction(1, 2)), d)), w, 'each cumulative count belongs to the middle of its own bin')
                ctx.equal(p + 'cumulative/%d' % i, TM.mul(nodes[0][i], num(cum[2])), TM.mul(nodes[0][2], num(cum[i])), w, 'the cumulative probability counts the samples up to and including each bin')


def run(ctx):
    paths(ctx)
    images(ctx)
    integrals(ctx)
    amplitude(ctx)
    masks(ctx)
    convergence_map(ctx)
    sampling(ctx)
    wave(ctx)
    from_samples(ctx)
