"""P30 objects added to a realization follow the matter they are added to."""
from .common import *
from engine import arrays, decide
from .halos import make, HM, LENS
from .p01 import RZ, EX
from . import p28, p29

EXPLAIN = ("The routines that add black holes, globular clusters, primordial black holes, correlated structure and wave-interference fluctuations are executed abstractly on symbolic realizations with a concrete number of halos, "
           "planes, images and drawn objects; every draw is a named variate, every mass-function and position draw is recorded with its settings. Each added object is compared element by element with the stated mass, "
           "position, redshift and probability, and the settings of every draw with the stated density, area, volume and limits.")
ASSUME = ['mass functions and spatial distributions draw as decided by P18 and P20', 'boundary events of probability zero are not distinguished']
FLOOR = 20
MF, SD = 'pyHalo.Rendering.MassFunctions.', 'pyHalo.Rendering.SpatialDistributions.'
CS = 'pyHalo.Rendering.correlated_structure:CorrelatedStructure'
fn, settle, event, draws, entries = p29.fn, p29.settle, p29.event, p29.draws, p29.entries


class Rig(p29.Rig):
    def __init__(self, kinds=('sub',), logs=(7,), zs=None, counts=(), opaque=()):
        self.S = S = Session(Config(opaque=LENS + ['compute_r_te_and_f_t'] + list(opaque), opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], draws=(), arrays=True))
        self.k = 0
        self.counts, self.objs, self.mass, self.pos, self.poisson = list(counts), {}, [], [], []
        self.joins = 0
        S.I.on_ext, S.I.on_call = self.ext2, self.call
        self.lc = S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
        self.geo = S.sym('geo', 'pyHalo.Cosmology.geometry:Geometry')
        hs = []
        for i, (k, l) in enumerate(zip(kinds, logs)):
            cls, sub = p29.KINDS[k]
            given = dict(mass=power(num(10), S.sym(l) if isinstance(l, str) else num(l)))
            if zs is not None:
                given['z'] = self.n(zs[i])
            hs.append(make(S, S.prog.cls(HM + cls), sub=sub, tag=str(i), args=S.py({}), lc=self.lc, given=given))
        self.par = S.new(S.prog.cls(RZ), NONE, NONE, NONE, NONE, NONE, NONE, NONE, self.lc, halos=S.py(hs), kwargs_halo_model=S.sym('khm'), mass_sheet_correction=S.sym('msheet'),
                         rendering_classes=S.sym('rc'), rendering_center_x=S.sym('cx'), rendering_center_y=S.sym('cy'), geometry=self.geo)
        for c in ('cx', 'cy'):
            S.st.assume(bnot(TM.eq(S.sym(c), NONE)))
        self.E = S.new(S.prog.cls(EX), self.par)
        self.halos = [v for c, v in entries(self, S.attr(self.par, 'halos'))]

    def n(self, x):
        return self.S.r(self.S.expr(repr(x), {}))

    def at(self, f, st):
        saved, self.S.st = self.S.st, st
        try:
            return f()
        finally:
            self.S.st = saved

    def call(self, fi, args, kwargs, st, node):
        return self.at(lambda: self.model(fi, args, kwargs, st, node), st)

    def arr_(self, xs):
        return self.S.expr('np.array(l)', {'l': self.S.py(list(xs))})

    def model(self, fi, args, kwargs, st, node):
        S, I = self.S, self.S.I
        mod = fi.cls.module.name if fi.cls is not None else fi.module.name
        if fi.cls is None:
            return None
        if fi.name == 'join' and mod == 'pyHalo.single_realization':
            # joining keeps the halos of both realizations (decided by P03): follow the added ones
            both = (list(args) + [k[-1] for k in (kwargs.items() if hasattr(kwargs, 'items') else kwargs)])[:2]
            if len(both) != 2 or any(b.op != 'ref' for b in both):
                return None
            self.joins += 1
            if self.par in both:
                return both[1 - both.index(self.par)]
            hs = [entries(self, S.attr(b, 'halos')) for b in both]
            if None in hs or [c for h in hs for c, _ in h if settle(self, c) is not TRUE]:
                return None
            return S.new(S.prog.cls(RZ), NONE, NONE, NONE, NONE, NONE, NONE, NONE, self.lc, halos=S.py([o for h in hs for _, o in h]), kwargs_halo_model=S.sym('khm'), mass_sheet_correction=S.sym('msheet'),
                         rendering_classes=S.sym('rc'), rendering_center_x=S.sym('cx'), rendering_center_y=S.sym('cy'), geometry=self.geo)
        if mod.startswith(MF):
            if fi.name == '__init__':
                env = I.bind(fi, args, kwargs, st, node)
                self.objs.setdefault(env[fi.params[0]], dict({p: I.reify(env[p], st) for p in fi.params[1:]}, cls=I.obj(st, env[fi.params[0]]).cls.name))
                return NONE if fi.cls.name not in ('Gaussian', 'DeltaFunction') else None
            if fi.name == 'from_redshift' and fi.cls.name != 'DeltaFunction':
                env = I.bind(fi, args, kwargs, st, node)
                o = S.sym('MO%d' % len(self.objs), fi.cls.qual)
                ps = fi.params[1:] if len(fi.params) == 5 else fi.params
                c = env[fi.params[0]] if len(fi.params) == 5 else None
                self.objs[o] = dict(zip(('z', 'dz', 'geo', 'kw'), [I.reify(env[p], st) for p in ps]), cls=c.args[0].split(':')[-1] if c is not None and c.op == 'cls' else fi.cls.name)
                return o
            if fi.name == 'draw':
                k = len(self.mass)
                n = self.counts[k] if k < len(self.counts) else 2
                xs = [power(num(10), S.sym('d%d_%d' % (k, i))) for i in range(n)]
                self.mass.append((self.objs.get(args[0]), xs))
                return self.arr_(xs)
        if mod.startswith(SD):
            if fi.name == '__init__' and fi.cls.name in ('Uniform', 'LensConeUniform'):
                env = I.bind(fi, args, kwargs, st, node)
                self.objs.setdefault(env[fi.params[0]], dict({p: I.reify(env[p], st) for p in fi.params[1:]}, cls=I.obj(st, env[fi.params[0]]).cls.name))
                return NONE
            if fi.name == 'draw':
                env = {p: I.reify(v, st) for p, v in I.bind(fi, args, kwargs, st, node).items() if p != fi.params[0]}
                n = env[fi.params[1]]
                if n.op != 'num':
                    return None
                k = len(self.pos)
                v = [[S.sym('%s%d_%d' % (c, k, i)) for i in range(int(n.args[0]))] for c in 'xy']
                self.pos.append((self.objs.get(args[0]), env, v))
                return mk('tup', *[self.arr_(q) for q in v])
        return None

    def ext2(self, name, args, kwargs, st):
        I = self.S.I
        if name == 'numpy.random.poisson':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('lam', 'size'), pos), **kw)
            k = len(self.poisson)
            size = I.reify(d['size'], st) if 'size' in d else NONE
            n = self.counts[k] if k < len(self.counts) else 2
            self.poisson.append((I.reify(d['lam'], st), size))
            if size is NONE:
                return num(n if not isinstance(n, tuple) else n[0])
            return arrays.build(I, [(TRUE, num(x)) for x in (n if isinstance(n, tuple) else [n] * int(size.args[0]))], st)
        return p29.Rig.ext(self, name, args, kwargs, st)


def facts(R, *conds):
    for c in conds:
        R.S.st.assume(c)


def below_(a, b):
    """10**a < 10**b"""
    return TM.lt(power(num(10), a), power(num(10), b))


def having(R, es, s):
    """entries whose mass depends on the symbol s"""
    return [(c, o) for c, o in es if o.op == 'ref' and s in decide.leaves(R.S.r(R.S.attr(o, 'mass')))]


def in_disc(ctx, key, R, dx, dy, radius, w, rule, used):
    """(dx, dy) uniform over the disc: r^2 = radius^2 * variate, angle = a full turn of another variate"""
    us = sorted(draws(dx, 'U') | draws(dy, 'U'), key=lambda u: TM.show(u))
    angles = angles_of(dx, dy)
    if len(us) != 2 or len(angles) != 1:
        return ctx.undetermined(key, w, '%d variates, %d angles' % (len(us), len(angles)))
    t = angles[0]
    b = draws(t, 'U')
    a = set(us) - b
    if len(a) != 1 or len(b) != 1:
        return ctx.undetermined(key, w, 'angle and radius not separated')
    a, b = a.pop(), b.pop()
    R2 = power(radius, num(2))
    for c, s in DIRECTIONS:
        at = lambda v: turn(R, v, t, c, s)
        r2 = R.S.r(add(power(at(dx), num(2)), power(at(dy), num(2))))
        st = ctx.one_of('%s:radius:%s' % (key, TM.show(c)), r2, [mul(R2, v) for v in (a, add(ONE, neg(a)))], w, rule)
    ctx.require(key + ':fresh', not (set(us) & used), w, 'shares its variates with another object', 'independent positions')
    used |= set(us)
    full = R.S.r(R.S.expr('2*np.pi', {}))
    hi, lo = (TM.subst(t, lambda u: k if u is b else None) for k in (ONE, ZERO))
    ctx.one_of(key + ':angle', add(hi, neg(lo)), [full, neg(full)], w, 'the polar angle spans one full turn')
    return st


DIRECTIONS = ((ONE, ZERO), (ZERO, ONE), (TM.div(num(3), num(5)), TM.div(num(4), num(5))))


def angles_of(*ts):
    """arguments of the trigonometric functions that depend on a draw"""
    return sorted({u.args[1].args[0] for v in ts for u in TM.walk(v) if u.op == 'call' and u.args[0] in ('cos', 'sin', 'np.cos', 'np.sin') and draws(u)}, key=TM.show)


def turn(R, v, angle, c, s):
    """v in the direction with the given cosine and sine"""
    return R.S.r(TM.subst(v, lambda u: (c if u.args[0].endswith('cos') else s) if u.op == 'call' and u.args[0] in ('cos', 'sin', 'np.cos', 'np.sin') and u.args[1].args[0] is angle else None))


# ---------------------------------------------------------------- black holes in halos
BH = 'add_black_holes'


def black_holes(ctx):
    w = fn(BH)
    V = ('ratio', 'f', 'lsub', 'lmin', 'llow', 'lmax', 'los')

    def setup(kinds, zs, counts=(0, 0, 0)):
        R = Rig(kinds, ['L%d' % i for i in range(len(kinds))], zs, counts)
        S = R.S
        env = {k: S.sym(k) for k in V}
        facts(R, TM.lt(ZERO, env['f']), TM.lt(env['f'], ONE))
        return R, env

    def run_(R, env):
        v = R.S.expr('E.add_black_holes(ratio, f, lsub, lmin, llow, lmax, los)', dict(env, E=R.E))
        return entries(R, R.S.attr(v, 'halos')) if is_inst(R.S, v, 'Realization') else None

    def hosts(regime):
        R, env = setup(('sub', 'field', 'field'), (0.5, 0.5, 0.8))
        S = R.S
        S.meth(R.par, 'shift_background_to_source', S.sym('fx'), S.sym('fy')) if False else None
        key = 'black holes:' + regime
        L = [S.sym('L%d' % i) for i in range(3)]
        for l in L:
            m = add(l, env['ratio'])
            if regime == 'too light':
                facts(R, below_(m, env['lmin']), below_(m, env['lmax']), below_(env['lmin'], env['lmax']))
            elif regime == 'capped':
                facts(R, below_(env['lmax'], m), below_(env['lmin'], env['lmax']), below_(env['lmin'], m))
            else:
                facts(R, below_(env['lmin'], m), below_(m, env['lmax']))
        es = run_(R, env)
        if es is None:
            return ctx.undetermined(key, w, 'halos not enumerated')
        used, upos = set(), set()
        hz = [S.r(S.attr(h, 'z')) for h in R.halos]
        live = [(c, o) for c, o in es if settle(R, c) is not FALSE]
        if regime == 'too light':
            ctx.require(key, not live if not live or all(draws(settle(R, c)) for c, o in live) else None, w, '%d black holes lighter than the minimum' % len(live), 'black holes below the minimum mass are not rendered')
            return ctx.saw(S)
        ctx.require(key + ':count', len(live) == 3, w, '%d possible black holes for three halos' % len(live), 'at most one black hole per halo')
        if len(live) != 3:
            return
        for i, (h, (c, o)) in enumerate(zip(R.halos, live)):
            k = '%s:%d' % (key, i)
            at = lambda q: settle(R, S.attr(o, q))
            event(ctx, k + ':occupied', R, c, env['f'], w, 'a halo hosts a black hole with the given probability, independently', used)
            ctx.equal(k + ':mass', at('mass'), settle(R, S.expr('10**lmax' if regime == 'capped' else 'h.mass*10**ratio', dict(env, h=h))), w, 'the mass is the given fraction of its own host, at most the maximum')
            ctx.equal(k + ':z', at('z'), hz[i], w, 'at the redshift of its host')
            dx, dy = [add(at(q), neg(S.r(S.attr(h, q)))) for q in 'xy']
            in_disc(ctx, k + ':position', R, dx, dy, S.r(S.expr('h.nfw_params[1]/L.cosmo.kpc_proper_per_asec(h.z)', dict(h=h, L=R.lc))), w, 'uniform within the scale radius of its host, as an angle at the redshift of the host', upos)
        ctx.saw(S)
    for r in ('within', 'capped', 'too light'):
        ctx.guard('black holes', hosts, r)

    def below(regime):
        R, env = setup(('field', 'sub', 'field'), (0.8, 0.3, 0.3), (2, 1))
        S = R.S
        key = 'seeds:' + regime
        for l in ('L0', 'L1', 'L2'):
            facts(R, below_(add(S.sym(l), env['ratio']), env['lmin']), below_(add(S.sym(l), env['ratio']), env['lmax']))
        for l in ('d0_0', 'd0_1', 'd1_0'):
            m = add(S.sym(l), env['ratio'])
            facts(R, below_(env['lmin'], m) if regime == 'rendered' else below_(m, env['lmin']), below_(m, env['lmax']))
        es = run_(R, env)
        if es is None:
            return ctx.undetermined(key, w, 'halos not enumerated')
        es = [(settle(R, c), o) for c, o in es]
        live = [(c, o) for c, o in es if c is not FALSE]
        planes = (('0.3', '0.8 - 0.3'), ('0.8', 'L.z_source - 0.8'))
        if unrolled(ctx, key, R, w):
            return
        ctx.require(key + ':planes', len(R.mass) == 2, w, '%d populations for two planes' % len(R.mass), 'one population per lens plane')
        if len(R.mass) != 2:
            return
        zof = lambda e: S.r(S.expr(e, dict(L=R.lc)))
        for (z, dz), (rec, ms) in zip(planes, R.mass):
            k = '%s:%s' % (key, z)
            if rec is None or 'kw' not in rec:
                ctx.undetermined(k, w, 'mass function not followed')
                continue
            ctx.equal(k + ':z', rec['z'], zof(z), w, 'each plane once, in order')
            ctx.equal(k + ':dz', rec['dz'], zof(dz), w, 'thickness up to the next plane, or the source')
            ctx.equal(k + ':geometry', rec['geo'], R.geo, w, 'volume of the rendered geometry')
            ctx.require(k + ':model', rec['cls'] == 'ShethTormen', w, rec['cls'], 'the Sheth-Tormen population')
            d = p15.as_dict(rec['kw']) or {}
            for q, e in (('log_mlow', 'lsub'), ('log_mhigh', 'llow'), ('LOS_normalization', 'f*los'), ('draw_poisson', 'True'), ('delta_power_law_index', '0.0')):
                if q in d:
                    ctx.equal('%s:%s' % (k, q), d[q], S.r(S.expr(e, env)), w, 'unresolved halos between the two limits, thinned by the occupation fraction')
                else:
                    ctx.undetermined('%s:%s' % (k, q), w, 'setting not found')
        if regime == 'too light':
            ctx.require(key, not live, w, '%d black holes lighter than the minimum' % len(live), 'black holes below the minimum mass are not rendered')
            return ctx.saw(S)
        ctx.require(key + ':count', len(live) == 3 and all(c is TRUE for c, o in live) or (None if any(c is not TRUE for c, o in live) else False), w, '%d seeds for three unresolved halos' % len(live), 'one black hole for every unresolved halo drawn')
        if len(live) != 3 or len(R.pos) < 2:
            return
        j = 0
        for (z, dz), (rec, ms), (sd, env2, xy) in zip(planes, R.mass, R.pos):
            place(ctx, '%s:%s:place' % (key, z), R, sd, env2, 'geo.cone_opening_angle/2*geo.rendering_scale(z)', zof(z), ZERO, ZERO, dict(geo=R.geo), w)
            for i, m in enumerate(ms):
                o = live[j][1]
                k = '%s:%s:%d' % (key, z, i)
                at = lambda q: settle(R, S.attr(o, q))
                ctx.equal(k + ':mass', at('mass'), settle(R, S.expr('m*10**ratio', dict(env, m=m))), w, 'the given fraction of the mass of the unresolved halo')
                ctx.equal(k + ':z', at('z'), zof(z), w, 'at the redshift of its plane')
                for q, v in zip('xy', xy):
                    ctx.equal('%s:%s' % (k, q), at(q), S.r(S.expr('v/s(z)', dict(v=v[i], z=zof(z), s=S.expr('L.cosmo.kpc_proper_per_asec', dict(L=R.lc))))), w, 'its own position, converted at its redshift')
                j += 1
        ctx.saw(S)
    for r in ('rendered', 'too light'):
        ctx.guard('seeds', below, r)


def unrolled(ctx, key, R, w):
    """some population is drawn in a loop whose passes are not known"""
    if any(u.op in ('ivar', 'bvar') for rec, _ in R.mass for t in (rec or {}).values() if hasattr(t, 'op') for u in TM.walk(t)):
        ctx.undetermined(key, w, 'planes not enumerated')
        return True


def place(ctx, key, R, sd, env, radius, z, cx, cy, e, w):
    """settings of a uniform position draw"""
    S = R.S
    if sd is None:
        return ctx.undetermined(key, w, 'distribution not followed')
    g = env.get('z_plane')
    ctx.equal(key + ':z', g, z, w, 'positions are drawn at the redshift of the objects')
    if sd['cls'] == 'Uniform':
        r = mul(sd['rmax2d_arcsec'], env['rescale'])
    else:
        r = S.r(S.expr('0.5*a*g.rendering_scale(z)', dict(a=sd['cone_opening_angle'], g=sd['geometry'], z=g)))
    ctx.equal(key + ':radius', r, S.r(S.expr(radius, dict(e, z=z))), w, 'the region is the stated one')
    for q, c in (('center_x', cx), ('center_y', cy)):
        ctx.equal('%s:%s' % (key, q), env[q], c, w, 'around the stated centre')


# ---------------------------------------------------------------- globular clusters
def plain_int(t):
    """the number behind int() and rounding"""
    while t.op == 'call' and t.args[0] in ('int', 'round', 'np.round', 'np.floor', 'floor') and len(t.args[1].args) >= 1:
        t = t.args[1].args[0]
    return t


def clusters(ctx):
    w = fn('add_globular_clusters')
    V = ('lm', 'ls', 'R', 'gm', 'gs', 'cm', 'cs', 'sd', 'x0', 'y0', 'x1', 'y1')

    def one(prof, centres, counts):
        R = Rig(('sub',), (7,), None, counts)
        S = R.S
        env = {k: S.sym(k) for k in V}
        cx, cy = [[env[c + str(i)] for i in range(centres)] for c in 'xy'] if centres else ([env['x0']], [env['y0']])
        key = 'clusters:%s:%s' % (prof, 'no centre' if centres is None else 'one' if not centres else centres)
        if centres is None:
            cx, cy = [ZERO], [ZERO]
            facts(R, *[S.expr('isinstance(q, int)', dict(q=num(q))) for q in (0, 1)])
        elif not centres:
            facts(R, S.expr('isinstance(x0, float)', env), S.expr('isinstance(y0, float)', env), bnot(S.expr('isinstance(x0, int)', env)), bnot(S.expr('isinstance(y0, int)', env)))
        arg = [S.py(c) if centres else c[0] for c in (cx, cy)]
        centres = centres or 0
        v = S.expr("E.add_globular_clusters(lm, ls, R, prof, gm, gs, cm, cs, sd%s)" % (', CX, CY' if 'no centre' not in key else ''), dict(env, E=R.E, prof=TM.const(prof), CX=arg[0], CY=arg[1]))
        es = entries(R, S.attr(v, 'halos')) if is_inst(S, v, 'Realization') else None
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        new = [o for c, o in es if o not in R.halos]
        n = sum(counts[:max(centres, 1)])
        ctx.require(key + ':draws', len(R.mass) == len(R.pos) == max(centres, 1), w, '%d mass and %d position draws for %d centres' % (len(R.mass), len(R.pos), max(centres, 1)), 'a population of its own around every centre')
        ctx.require(key + ':count', len(new) == n, w, '%d clusters for %d drawn' % (len(new), n), 'every cluster drawn is added')
        if len(new) != n or len(R.mass) != max(centres, 1) or len(R.pos) != len(R.mass):
            return
        zl = S.r(S.expr('L.z_lens', dict(L=R.lc)))
        e2 = dict(env, L=R.lc, geo=R.geo)
        j, used = 0, set()
        for i, ((rec, ms), (sd, e3, xy)) in enumerate(zip(R.mass, R.pos)):
            k = '%s:centre %d' % (key, i)
            place(ctx, k + ':place', R, sd, e3, 'R', zl, cx[i], cy[i], e2, w)
            if rec is None or rec['cls'] != 'Gaussian':
                ctx.undetermined(k, w, 'mass function not followed')
            else:
                ctx.equal(k + ':mean', rec['mean'], env['lm'], w, 'log-normal masses with the given median')
                ctx.equal(k + ':sigma', rec['sigma'], env['ls'], w, 'log-normal masses with the given width')
                ctx.equal(k + ':number', plain_int(rec['n']), S.r(S.expr('np.pi*(R*L.cosmo.kpc_proper_per_asec(L.z_lens))**2*sd/(10**lm*np.exp((ls*np.log(10))**2/2))', e2)), w, 'expected number = surface density x area / mean mass')
            for q, m in enumerate(ms):
                o = new[j]
                j += 1
                kk = '%s:%d' % (k, q)
                at = lambda a: S.r(S.attr(o, a))
                ctx.equal(kk + ':mass', at('mass'), m, w, 'each cluster has its own drawn mass')
                ctx.equal(kk + ':z', at('z'), zl, w, 'clusters are at the lens redshift')
                ctx.equal(kk + ':subhalo', at('is_subhalo'), FALSE, w, 'clusters are not subhalos')
                for a, vv in zip('xy', xy):
                    ctx.equal('%s:%s' % (kk, a), at(a), S.r(S.expr('v/L.cosmo.kpc_proper_per_asec(L.z_lens)', dict(v=vv[q], L=R.lc))), w, 'its own position, converted at the lens redshift')
                cn = S.I.obj(S.st, o).cls.name
                ctx.require(kk + ':profile', cn == {'SPL_CORE': 'GlobularCluster', 'PTMASS': 'BlackHole'}[prof], w, cn, 'the requested profile')
                if cn == 'GlobularCluster':
                    d = p15.as_dict(at('args_profile')) or {}
                    if not {'gamma', 'gc_size_pc', 'gc_concentration'} <= set(d):
                        ctx.undetermined(kk + ':args', w, 'profile arguments not found')
                        continue
                    core = S.r(S.expr('a/b*(m/10**5)**(-1/3)', dict(a=d['gc_size_pc'], b=d['gc_concentration'], m=m)))
                    for a, t, mid, half in (('slope', d['gamma'], 'gm', 'gs'), ('core', core, 'cm', 'cs')):
                        us = draws(t, 'U')
                        if len(us) != 1:
                            ctx.undetermined('%s:%s' % (kk, a), w, '%d variates' % len(us))
                            continue
                        ctx.require('%s:%s:fresh' % (kk, a), not us & used, w, 'shared with another cluster', 'independent structure')
                        used |= us
                        u = us.pop()
                        ctx.one_of('%s:%s' % (kk, a), t, [S.r(S.expr('%s+%s*%s' % (mid, half, f), dict(env, u=u))) for f in ('(2*u-1)', '(1-2*u)')], w, 'uniform between mean - width and mean + width; sizes scale with the cube root of the mass')
        ctx.saw(S)
    for prof in ('SPL_CORE', 'PTMASS'):
        for centres, counts in ((None, (1,)), (0, (2,)), (1, (1,)), (2, (2, 1)), (2, (0, 1))):
            ctx.guard('clusters', one, prof, centres, counts)

    def bad(name, src):
        R = Rig(('sub',), (7,), None, (1,))
        v = R.S.expr(src, dict(E=R.E, **{k: R.S.sym(k) for k in ('lm', 'ls', 'R')}))
        ctx.require('clusters:' + name, p29.fails(R, v), w, 'accepted', 'inconsistent settings are errors')
    ctx.guard('clusters', bad, 'unknown profile', "E.add_globular_clusters(lm, ls, R, 'NO_SUCH_PROFILE')")
    ctx.guard('clusters', bad, 'lengths', "E.add_globular_clusters(lm, ls, R, center_x=[0.0, 1.0], center_y=[0.0])")


# ---------------------------------------------------------------- primordial black holes
def primordial(ctx):
    w = fn('add_primordial_black_holes')
    V = ('f', 'lM', 'fh', 'sig', 'r0', 'r1', 'pix', 'resc')

    def one(kind, counts):
        R = Rig(('sub', 'field', 'field'), (7, 7, 7), (0.5, 0.3, 0.5), counts)
        S = R.S
        env = {k: S.sym(k) for k in V}
        rays = {k: S.sym(k) for k in ('X0', 'X1', 'Y0', 'Y1')}
        inner = S.I.on_call
        calls = []

        def hook(fi, args, kwargs, st, node):
            if fi.name == 'add_correlated_structure' and fi.cls is not None:
                calls.append({p: S.I.reify(v, st) for p, v in S.I.bind(fi, args, kwargs, st, node).items() if p != fi.params[0]})
                return R.par
            return inner(fi, args, kwargs, st, node)
        S.I.on_call = hook
        key = 'primordial:%s:%s' % (kind, ''.join(map(str, counts)))
        e = dict(env, E=R.E, L=R.lc, **rays)
        v = S.expr("E.add_primordial_black_holes(f, lM, fh, [X0, X1], [Y0, Y1], [r0, r1], pix, resc, '%s', %s)" % (kind, 'sig' if kind == 'GAUSSIAN' else 'None'), e)
        es = entries(R, S.attr(v, 'halos')) if is_inst(S, v, 'Realization') else None
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        new = [o for c, o in es if o not in R.halos]
        planes = [(S.r(S.expr(z, e)), S.r(S.expr(dz, e))) for z, dz in (('0.3', '0.5 - 0.3'), ('0.5', 'L.z_source - 0.5'))]
        if unrolled(ctx, key, R, w):
            return
        ctx.require(key + ':draws', len(R.mass) == 4, w, '%d populations for two images and two planes' % len(R.mass), 'a population around every image on every plane')
        ctx.require(key + ':count', len(new) == sum(counts), w, '%d black holes for %d drawn' % (len(new), sum(counts)), 'every object drawn is added')
        if len(R.mass) != 4 or len(new) != sum(counts):
            return
        k, j, it = 0, 0, iter([p for p in R.pos if p[2][0]])
        for i in range(2):
            geo = S.r(S.expr("G(L.cosmo, L.z_lens, L.z_source, 2*r%d, 'DOUBLE_CONE')" % i, dict(e, G=mk('cls', 'pyHalo.Cosmology.geometry:Geometry'))))
            for z, dz in planes:
                rec, ms = R.mass[k]
                kk = '%s:image %d:%s' % (key, i, TM.show(z))
                k += 1
                e2 = dict(e, z=z, dz=dz, geo=geo)
                dens = 'f*(1-fh)*L.cosmo.rho_dark_matter_crit*geo.volume_element_comoving(z, dz)'
                if rec is None or rec['cls'] != {'DELTA': 'DeltaFunction', 'GAUSSIAN': 'Gaussian'}[kind]:
                    ctx.require(kk + ':model', None if rec is None else False, w, rec and rec['cls'], 'the requested mass function')
                elif kind == 'DELTA':
                    ctx.equal(kk + ':mass', rec['mass'], S.r(S.expr('10**lM', e)), w, 'all objects have the given mass')
                    ctx.equal(kk + ':density', S.r(S.expr('a*b', dict(a=rec['rho'], b=rec['volume']))), S.r(S.expr(dens, e2)), w, 'unclustered dark matter fraction x density x volume of the cone around the image')
                else:
                    ctx.equal(kk + ':mean', rec['mean'], env['lM'], w, 'log-normal masses with the given median')
                    ctx.equal(kk + ':sigma', rec['sigma'], env['sig'], w, 'log-normal masses with the given width')
                    ctx.equal(kk + ':number', plain_int(rec['n']), S.r(S.expr(dens + '/(10**lM*np.exp((sig*np.log(10))**2/2))', e2)), w, 'unclustered dark matter fraction x density x volume of the cone around the image, over the mean mass')
                if not ms:
                    continue
                sd, e3, xy = next(it)
                d = 'L.cosmo.D_C_transverse(z)'
                place(ctx, kk + ':place', R, sd, e3, 'r%d*geo.rendering_scale(z)' % i, z, S.r(S.expr('X%d(%s)' % (i, d), e2)), S.r(S.expr('Y%d(%s)' % (i, d), e2)), e2, w)
                for q, m in enumerate(ms):
                    o = new[j]
                    j += 1
                    k3 = '%s:%d' % (kk, q)
                    at = lambda a: settle(R, S.attr(o, a))
                    ctx.equal(k3 + ':mass', at('mass'), m, w, 'each object has its own drawn mass')
                    ctx.equal(k3 + ':z', at('z'), z, w, 'on the plane it was drawn for')
                    ctx.equal(k3 + ':type', at('mdef'), TM.const('PT_MASS'), w, 'point masses')
                    ctx.equal(k3 + ':subhalo', at('is_subhalo'), FALSE, w, 'not subhalos')
                    for a, vv in zip('xy', xy):
                        ctx.one_of('%s:%s' % (k3, a), at(a), [S.r(S.expr('v/%s(z)' % f, dict(e2, v=vv[q]))) for f in ('geo.kpc_per_arcsec', 'L.cosmo.kpc_proper_per_asec')], w, 'its own position, converted at its redshift')
        ctx.require(key + ':clustered', len(calls) == 1, w, '%d clustered populations' % len(calls), 'one clustered population for all images')
        for c in calls[:1]:
            d = p15.as_dict(c.get('kwargs_mass_function', NONE)) or {}
            want = {'mass_fraction': 'f*fh', 'logM': 'lM'}
            if kind == 'GAUSSIAN':
                want['logM_sigma'] = 'sig'
            for q, x in want.items():
                if q not in d:
                    ctx.violation('%s:clustered:%s' % (key, q), w, 'the setting does not reach the clustered population', 'the clustered part of the dark matter fraction, with the same masses')
                else:
                    ctx.equal('%s:clustered:%s' % (key, q), d[q], S.r(S.expr(x, e)), w, 'the clustered part of the dark matter fraction, with the same masses')
            cl = c.get('mass_function_model', NONE)
            ctx.require(key + ':clustered:model', cl.args[0].split(':')[-1] == {'DELTA': 'DeltaFunction', 'GAUSSIAN': 'Gaussian'}[kind] if cl.op == 'cls' else None, w, TM.show(cl), 'the requested mass function')
            for q, x in (('x_image_interp_list', '[X0, X1]'), ('y_image_interp_list', '[Y0, Y1]'), ('arcsec_per_pixel', 'pix'), ('rescale_normalizations', 'resc'), ('r_max', '[r0, r1]'), ('mass_definition', "'PT_MASS'")):
                if q in c:
                    ctx.equal('%s:clustered:%s' % (key, q), seq_of(c[q]), S.r(S.expr(x, e)), w, 'the clustered population is drawn around the same images with their radii')
                else:
                    ctx.undetermined('%s:clustered:%s' % (key, q), w, 'argument not found')
        ctx.saw(S)
    for kind in ('DELTA', 'GAUSSIAN'):
        for counts in ((1, 2, 1, 1), (0, 1, 2, 0)):
            ctx.guard('primordial', one, kind, counts)


# ---------------------------------------------------------------- correlated structure
def correlated(ctx):
    w = fn('add_correlated_structure')
    KV = ('f', 'lM', 'sig', 'X0', 'X1', 'Y0', 'Y1', 'r0', 'r1', 'r', 'pix')
    ZS = ('0.5', '0.3', '0.5')
    PLANES = ('0.3', '0.5')

    def build(kind, counts, radii, resc, regime, surface):
        R = Rig(('sub', 'field', 'field'), ('l0', 'l1', 'l2'), (0.5, 0.3, 0.5), counts)
        S = R.S
        env = {k: S.sym(k) for k in KV}
        env.update(E=R.E, L=R.lc, M=mk('cls', MF + {'DELTA': 'delta_function:DeltaFunction', 'GAUSSIAN': 'gaussian:Gaussian'}[kind]))
        inner, surf, scaled = S.I.on_call, [], []

        def hook(fi, args, kwargs, st, node):
            if surface and fi.name == '_kappa_at_lens_plane':
                d = {p: S.I.reify(v, st) for p, v in S.I.bind(fi, args, kwargs, st, node).items() if p != fi.params[0]}
                surf.append([d.get(p, NONE) for p in fi.params[1:6]])
                k = len(surf) - 1
                return R.at(lambda: S.expr('(p, m, [0])', dict(p=S.sym('pdf%d' % k), m=S.sym('M%d' % k))), st)
            if fi.name == 'rescale_normalization':
                e = S.I.bind(fi, args, kwargs, st, node)
                scaled.append((e[fi.params[0]], {p: S.I.reify(v, st) for p, v in e.items() if p != fi.params[0]}, list(st.pc)))
                return NONE
            return inner(fi, args, kwargs, st, node)
        def unfollowed(r, st):
            if r.op == 'meth' and 'rescale_normalization' in [a for a in r.args if isinstance(a, str)]:
                scaled.append((NONE, {}, list(st.pc)))
            return None
        S.I.on_call, S.I.on_ometh = hook, unfollowed
        for (i, j), inside in regime.items():
            d = 'L.cosmo.D_C_transverse(%s)' % ZS[j]
            c = S.expr('np.hypot(h.x - X%d(%s), h.y - Y%d(%s)) < r%s' % (i, d, i, d, i if radii == 'own' else ''), dict(env, h=R.halos[j]))
            S.st.assume(c if inside else S.expr('np.hypot(h.x - X%d(%s), h.y - Y%d(%s)) > r%s' % (i, d, i, d, i if radii == 'own' else ''), dict(env, h=R.halos[j])))
        fm = "{'mass_fraction': f, 'logM': lM, %s'draw_poisson': True}" % ("'logM_sigma': sig, " if kind == 'GAUSSIAN' else '')
        v = S.expr("E.add_correlated_structure(M, %s, 'PT_MASS', [X0, X1], [Y0, Y1], pix, %s%s)" % (fm, '[r0, r1]' if radii == 'own' else 'r', '' if resc else ', False'), env)
        es = entries(R, S.attr(v, 'halos')) if is_inst(S, v, 'Realization') else None
        return R, env, surf, scaled, es

    def drawn(ctx, key, R, env, kind, rec, mass, w):
        if rec is None or rec['cls'] != {'DELTA': 'DeltaFunction', 'GAUSSIAN': 'Gaussian'}[kind]:
            return ctx.require(key + ':model', None if rec is None else False, w, rec and rec['cls'], 'the requested mass function')
        S = R.S
        if kind == 'DELTA':
            ctx.equal(key + ':mass', rec['mass'], S.r(S.expr('10**lM', env)), w, 'all objects have the given mass')
            ctx.equal(key + ':amount', S.r(S.expr('a*b', dict(a=rec['rho'], b=rec['volume']))), mul(env['f'], mass), w, 'the given fraction of the mass of the halos in the region')
        else:
            ctx.equal(key + ':mean', rec['mean'], env['lM'], w, 'log-normal masses with the given median')
            ctx.equal(key + ':sigma', rec['sigma'], env['sig'], w, 'log-normal masses with the given width')
            ctx.equal(key + ':amount', plain_int(rec['n']), S.r(S.expr('f*m/(10**lM*np.exp((sig*np.log(10))**2/2))', dict(env, m=mass))), w, 'the given fraction of the mass of the halos in the region, over the mean mass')

    def objects(kind, counts, radii):
        R, env, surf, scaled, es = build(kind, counts, radii, True, {}, True)
        S = R.S
        key = 'correlated:%s:%s:%s' % (kind, ''.join(map(str, counts)), radii)
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        if not surf:
            return ctx.undetermined(key, w, 'surface density not followed')
        masses = {power(num(10), S.sym('l%d' % i)) for i in range(3)}
        new = [o for c, o in es if S.r(S.attr(o, 'mass')) not in masses]
        ctx.require(key + ':regions', len(surf) == 4, w, '%d regions for two images and two planes' % len(surf), 'every image on every plane')
        ctx.require(key + ':draws', len(R.mass) == 4, w, '%d populations for four regions' % len(R.mass), 'one population per region')
        ctx.require(key + ':old', len(es) - len(new) == 3, w, '%d of three halos kept' % (len(es) - len(new)), 'the existing halos stay')
        ctx.require(key + ':count', len(new) == sum(counts), w, '%d objects for %d drawn' % (len(new), sum(counts)), 'every object drawn is added')
        if len(surf) != 4 or len(R.mass) != 4 or len(new) != sum(counts):
            return
        it, j, k = iter([p for p in R.pos if p[2][0]]), 0, 0
        for i in range(2):
            for z in PLANES:
                kk = '%s:image %d:%s' % (key, i, z)
                d = 'L.cosmo.D_C_transverse(%s)' % z
                rad = 'r%d' % i if radii == 'own' else 'r'
                want = [S.r(S.expr(x, env)) for x in (z, 'X%d(%s)' % (i, d), 'Y%d(%s)' % (i, d), rad, 'pix')]
                for n, a, b in zip(('redshift', 'x', 'y', 'radius', 'pixel'), surf[k], want):
                    ctx.equal('%s:region %s' % (kk, n), seq_of(a), b, w, 'the region follows the ray of its image to the plane, with its own radius')
                rec, ms = R.mass[k]
                drawn(ctx, kk, R, env, kind, rec, S.sym('M%d' % k), w)
                if ms:
                    sd, e3, xy = next(it)
                    for q, b in (('r_max', want[3]), ('density', S.sym('pdf%d' % k)), ('z_plane', want[0])):
                        if q not in e3:
                            alt = [x for x in e3 if x.startswith(q[:4])]
                            if len(alt) != 1:
                                ctx.undetermined('%s:place:%s' % (kk, q), w, 'argument not found')
                                continue
                            q = alt[0]
                        ctx.equal('%s:place:%s' % (kk, q), e3[q], b, w, 'positions follow the surface density of the region they are drawn for')
                    for q, b in (('x', want[1]), ('y', want[2])):
                        cand = [x for x in e3 if x.endswith('_' + q) and 'center' in x or x == 'shift_' + q]
                        if len(cand) == 1:
                            ctx.equal('%s:place:centre %s' % (kk, q), e3[cand[0]], b, w, 'around the ray of the image')
                        else:
                            ctx.undetermined('%s:place:centre %s' % (kk, q), w, 'argument not found: ' + ' '.join(e3))
                    for q, m in enumerate(ms):
                        o = new[j]
                        j += 1
                        k3 = '%s:%d' % (kk, q)
                        at = lambda a: settle(R, S.attr(o, a))
                        ctx.equal(k3 + ':mass', at('mass'), m, w, 'each object has its own drawn mass')
                        ctx.equal(k3 + ':z', at('z'), want[0], w, 'on the plane it was drawn for')
                        ctx.equal(k3 + ':type', at('mdef'), TM.const('PT_MASS'), w, 'the requested profile')
                        ctx.equal(k3 + ':subhalo', at('is_subhalo'), FALSE, w, 'not subhalos')
                        cg = "G(L.cosmo, L.z_lens, L.z_source, 1.0, 'CYLINDER').kpc_per_arcsec"
                        for a, vv in zip('xy', xy):
                            ctx.one_of('%s:%s' % (k3, a), at(a), [S.r(S.expr('v/%s(%s)' % (f, z), dict(env, v=vv[q], geo=R.geo, G=mk('cls', 'pyHalo.Cosmology.geometry:Geometry')))) for f in (cg, 'geo.kpc_per_arcsec', 'L.cosmo.kpc_proper_per_asec')], w, 'its own position, converted at its redshift')
                k += 1
        ctx.saw(S)
    for kind in ('DELTA', 'GAUSSIAN'):
        for counts in ((1, 2, 0, 1), (0, 1, 2, 0)):
            for radii in ('own', 'common'):
                ctx.guard('correlated', objects, kind, counts, radii)

    def rescaled(name, inside, resc):
        regime = {(i, j): (i, j) in inside for i in range(2) for j in range(3)}
        R, env, surf, scaled, es = build('DELTA', (0, 0, 0, 0), 'own', resc, regime, True)
        S = R.S
        key = 'correlated:rescaled:' + name
        if es is None or not surf:
            return ctx.undetermined(key, w, 'halos not enumerated')
        times, lost = {j: 0 for j in range(3)}, False
        for o, e, pc in scaled:
            g = settle(R, band(*pc))
            if g is FALSE:
                continue
            ctx.require(key + ':copy', o not in R.halos, w, 'a halo of the original realization is rescaled', 'the original realization is left alone')
            m = S.r(S.attr(o, 'mass')) if o.op == 'ref' else NONE
            j = [j for j in range(3) if m is power(num(10), S.sym('l%d' % j))]
            if len(j) != 1 or g is not TRUE:
                ctx.undetermined(key, w, 'rescaled halo not identified: ' + TM.show(g, 5)[:200])
                lost = True
                continue
            times[j[0]] += 1
            fac, log = e.get('factor', NONE), e.get('log', FALSE)
            ctx.equal('%s:%d:factor' % (key, j[0]), fac, S.r(S.expr('1-f', env)), w, 'the mass given to the new objects is taken from the halo')
            ctx.equal('%s:%d:linear' % (key, j[0]), log, FALSE, w, 'the factor is not a logarithm')
        for j in range(3):
            want = 1 if resc and any((i, j) in inside for i in range(2)) else 0
            ctx.require('%s:%d' % (key, j), times[j] == want if not lost else None, w, 'halo %d rescaled %d times, not %d' % (j, times[j], want), 'halos inside a region lose the mass fraction, once, all others nothing')
        ctx.saw(S)
    for name, inside in (('none', ()), ('one', ((0, 0),)), ('both images', ((0, 1), (1, 1))), ('two', ((0, 0), (1, 2))), ('all', tuple((i, j) for i in range(2) for j in range(3)))):
        for resc in (True, False):
            ctx.guard('correlated', rescaled, name + ('' if resc else ':off'), inside, resc)

    def surface(name, inside):
        """the mass and the position density of a region, on a map of three by three pixels"""
        R = Rig(('sub', 'field', 'field'), ('l0', 'l1', 'l2'), (0.5, 0.5, 0.3), (1, 1))
        S, I = R.S, R.S.I
        key = 'correlated:surface:' + name
        env = {k: S.sym(k) for k in KV}
        env.update(E=R.E, L=R.lc, M=mk('cls', MF + 'delta_function:DeltaFunction'))
        inner, iext, maps, points = I.on_call, I.on_ext, [], []

        def hook(fi, args, kwargs, st, node):
            if fi.name == 'lensing_quantities' and fi.cls is not None and fi.cls.module.name == 'pyHalo.single_realization':
                e = I.bind(fi, args, kwargs, st, node)
                maps.append((e[fi.params[0]], {p: I.reify(v, st) for p, v in e.items() if p != fi.params[0]}))
                hs = R.at(lambda: entries(R, S.attr(e[fi.params[0]], 'halos')), st)
                if hs is not None and all(settle(R, c) is FALSE for c, _ in hs):
                    return R.at(lambda: S.expr('([], np.array([]), [], None)', {}), st)
                return R.at(lambda: S.expr("(['M'], np.array([zz]), K, None)", dict(zz=S.sym('zz'), K=S.sym('K%d' % len(maps)))), st)
            return inner(fi, args, kwargs, st, node)

        def ext(n, args, kwargs, st):
            if n in ('numpy.linspace', 'numpy.meshgrid'):
                pos, star, kw, _ = I.expand_args(args, kwargs, st)
                if n == 'numpy.linspace':
                    a, b = [I.reify(p, st) for p in pos[:2]]
                    return arrays.build(I, [(TRUE, a), (TRUE, S.r(S.expr('(a+b)/2', dict(a=a, b=b)))), (TRUE, b)], st)
                xs, ys = [[v for c, v in arrays.entries(I, p, st)] for p in pos]
                return mk('tup', arrays.build(I, [(TRUE, x) for y in ys for x in xs], st), arrays.build(I, [(TRUE, y) for y in ys for x in xs], st))
            return iext(n, args, kwargs, st)

        def ometh(r, st):
            if r.op == 'meth' and 'kappa' in [a for a in r.args if isinstance(a, str)]:
                points.append(r)
                k = len(points) - 1
                return arrays.build(I, [(TRUE, S.sym('k%d_%d' % (k, i))) for i in range(9)], st)
            return None
        I.on_call, I.on_ext, I.on_ometh = hook, ext, ometh
        d = 'L.cosmo.D_C_transverse(%s)'
        for j, (z, b) in enumerate(zip(('0.5', '0.5', '0.3'), inside)):
            c = 'np.hypot(h.x - X0(%s), h.y - Y0(%s))' % (d % z, d % z)
            S.st.assume(S.expr(c + ('< 3' if b else '> 3'), dict(env, h=R.halos[j])))
        v = S.expr("E.add_correlated_structure(M, {'mass_fraction': f, 'logM': lM, 'draw_poisson': True}, 'PT_MASS', [X0], [Y0], pix, [3], False)", env)
        if S.st.dead or not is_inst(S, v, 'Realization'):
            return ctx.undetermined(key, w, 'no realization')
        planes = [z for z in ('0.3', '0.5') if any(b and q == z for q, b in zip(('0.5', '0.5', '0.3'), inside))]
        ctx.require(key + ':populations', len(R.mass) == len(planes), w, '%d populations for %d planes with halos' % (len(R.mass), len(planes)), 'objects are added where there are halos to follow')
        if len(R.mass) != len(planes) or len(points) != len(planes):
            return ctx.undetermined(key, w, '%d maps' % len(points)) if len(points) != len(planes) else None
        used = [m for m in maps if settle(R, S.expr('len(h) > 0', dict(h=S.attr(m[0], 'halos')))) is TRUE]
        for k, z in enumerate(planes):
            kk = '%s:%s' % (key, z)
            rec, ms = R.mass[k]
            if rec is None:
                ctx.undetermined(kk, w, 'mass function not followed')
                continue
            sd, e3, xy = R.pos[k]
            ks = [S.sym('k%d_%d' % (k, i)) for i in range(9)]
            number = lambda t: settle(R, TM.subst(t, lambda u: FALSE if u.op == 'call' and u.args[0] in ('isnan', 'np.isnan') else None))
            total = add(*[ks[i] for i in (1, 3, 4, 5, 7)])
            ctx.equal(kk + ':mass', number(S.r(S.expr('a*b', dict(a=rec['rho'], b=rec['volume'])))), S.r(S.expr('f*K*L.sigma_crit_arcsecond_interp(%s)*np.pi*9/5' % z, dict(env, K=total))), w,
                      'the mass in the region: convergence in the pixels inside it, times the critical surface mass density of the plane, times the area per pixel')
            pdf = [v for q, v in e3.items() if q not in ('n', 'N', 'z_plane') and v.op not in ('num',) and S.sym('k%d_4' % k) in decide.leaves(v)]
            if len(pdf) != 1:
                ctx.undetermined(kk + ':density', w, 'surface density not found')
            else:
                flat = pdf[0]
                if flat.op == 'meth' or flat.op == 'call':
                    flat = flat.args[0] if flat.op == 'meth' and hasattr(flat.args[0], 'op') else flat
                vals = p15.seqs(flat)
                if vals is None or len(vals) != 9:
                    ctx.undetermined(kk + ':density', w, TM.show(flat, 3))
                else:
                    for i, x in enumerate(vals):
                        ctx.equal('%s:density:%d' % (kk, i), number(x), ks[i] if i in (1, 3, 4, 5, 7) else ZERO, w, 'positions follow the convergence inside the region and nothing outside')
            argv = [list(q.args) for q in points[k].args if hasattr(q, 'op') and q.op == 'args']
            vecs = [p15.seqs(q) for q in (argv[0][:2] if argv else ())]
            want = [[S.r(S.expr('%d + %s0(%s)' % (a, c, d % z), env)) for a in row] for c, row in (('X', (-3, 0, 3) * 3), ('Y', (-3,) * 3 + (0,) * 3 + (3,) * 3))]
            got = [list(q) for q in vecs if q is not None and len(q) == 9]
            if len(got) == 2:
                for c, g, x in zip('xy', got, want):
                    for i in range(9):
                        ctx.equal('%s:grid %s:%d' % (kk, c, i), settle(R, g[i]), x[i], w, 'the map covers the region around the ray')
            else:
                ctx.undetermined(kk + ':grid', w, '%d coordinate arrays' % len(got))
        for o, e in used:
            es = entries(R, S.attr(o, 'halos'))
            zs = {TM.show(S.r(S.attr(h, 'z'))) for c, h in es or ()}
            if es is None or len(zs) != 1 or zs.pop() not in ('0.3', '0.5'):
                ctx.require(key + ':halos', None if es is None or not zs else False, w, 'a map with halos of several planes', 'the map holds the halos of its plane')
                continue
            live = {TM.show(S.r(S.attr(h, 'mass'))) for c, h in es if settle(R, c) is TRUE}
            zz = TM.show(S.r(S.attr(es[0][1], 'z')))
            wantm = {'10^l%d' % j for j, (q, b) in enumerate(zip(('0.5', '0.5', '0.3'), inside)) if b and q == zz}
            ctx.require(key + ':halos:' + zz, live == wantm if all(settle(R, c) in (TRUE, FALSE) for c, h in es) else None, w, 'halos %s, not %s' % (sorted(live), sorted(wantm)), 'the map holds the halos of its plane inside the region')
            for q, x in e.items():
                if 'mass_sheet_correction' in q:
                    ctx.equal(key + ':sheets', x, FALSE, w, 'without the uniform mass sheets')
        ctx.saw(S)
    for name, inside in (('none', (0, 0, 0)), ('one', (1, 0, 0)), ('same plane', (1, 1, 0)), ('both planes', (0, 1, 1)), ('all', (1, 1, 1))):
        ctx.guard('correlated', surface, name, inside)


# ---------------------------------------------------------------- wave-interference fluctuations
def fluctuations(ctx):
    w = fn('add_ULDM_fluctuations')
    SH = dict(ring="{'rmin': a, 'rmax': b}", ellipse="{'amin': a, 'amax': b, 'bmin': c, 'bmax': d, 'angle': t}", aperture="{'x_images': [x0, x1, x2], 'y_images': [y0, y1, y2], 'aperture': a}")
    AREA = dict(ring='(b**2-a**2)', ellipse='(b*d-a*c)', aperture='a**2')

    def one(shape, counts, cut, resc):
        R = Rig(('sub', 'field'), (7, 7), None, (tuple(counts) if shape == 'aperture' else counts[0],))
        S = R.S
        env = {k: S.sym(k) for k in ('lam', 'A', 's', 'ds', 'nf', 'a', 'b', 'c', 'd', 't', 'x0', 'x1', 'x2', 'y0', 'y1', 'y2')}
        env.update(E=R.E, L=R.lc)
        key = 'fluctuations:%s:%s:cut %d%s' % (shape, ','.join(map(str, counts)), cut, '' if resc else ':unscaled')
        v = S.expr("E.add_ULDM_fluctuations(lam, A, s, ds, %d, nf, '%s', %s, %s)" % (cut, shape, SH[shape], bool(resc)), env)
        ctx.saw(S)
        ctx.require(key + ':drawn', len(R.poisson) == 1 if len(R.poisson) < 2 else None, w, '%d draws of the number' % len(R.poisson), 'the number of fluctuations is drawn once')
        if len(R.poisson) != 1:
            return
        lam, size = R.poisson[0]
        kpc = 'L.cosmo.kpc_proper_per_asec(L.z_lens)', 'L.cosmo.D_A_z(L.z_lens)*L.cosmo.arcsec*1000'
        zl = lambda t: TM.subst(S.r(t), lambda u: S.r(S.expr('L.z_lens', env)) if u is S.r(S.attr(R.par, '_zlens')) else None)
        da, kp = S.r(S.expr('L.cosmo.D_A_z(L.z_lens)', env)), S.r(S.expr('%s/(L.cosmo.arcsec*1000)' % kpc[0], env))
        lam = TM.subst(zl(lam), lambda u: kp if u is da else None)
        ctx.equal(key + ':number', S.r(lam), S.r(S.expr('nf*%s*(%s)**2/s**2' % (AREA[shape], kpc[0]), env)), w, 'expected number = scale x area of the region / area of one fluctuation')
        if shape == 'aperture':
            ctx.equal(key + ':images', size.args[0] if size.op == 'tup' and len(size.args) == 1 else size, num(3), w, 'each image has a number of its own')
        if not sum(counts):
            es = entries(R, S.attr(v, 'halos')) if is_inst(S, v, 'Realization') else None
            hs = None if es is None else [o for c, o in es if settle(R, c) is not FALSE]
            return ctx.require(key, None if hs is None else {TM.show(S.r(S.attr(h, 'unique_tag'))) for h in hs} == {TM.show(S.r(S.attr(h, 'unique_tag'))) for h in R.halos}, w, '%s halos' % (hs and len(hs)), 'without fluctuations the realization keeps its halos')
        es = entries(R, S.attr(v, 'halos')) if is_inst(S, v, 'Realization') else None
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        new = [o for c, o in es if o not in R.halos]
        mean = sum(counts) / len(counts)
        capped = resc and mean > cut
        n = [cut] * len(counts) if capped else list(counts)
        ctx.require(key + ':count', len(new) == sum(n), w, '%d fluctuations, not %d' % (len(new), sum(n)), 'as many fluctuations as drawn, at most the maximum')
        if len(new) != sum(n):
            return
        amp = S.r(S.expr('A/(%d/%d)**0.5' % (sum(counts), cut * len(counts)) if capped else 'A', env))
        used = set()
        owner = [i for i, k in enumerate(n) for _ in range(k)]
        for i, o in enumerate(new):
            k = '%s:%d' % (key, i)
            lp = S.r(S.attr(o, 'lenstronomy_params'))
            kw = p15.seqs(lp.args[0]) if lp.op == 'tup' else None
            d = p15.as_dict(kw[0]) if kw else None
            if not d or not {'amp', 'sigma', 'center_x', 'center_y'} <= set(d):
                ctx.undetermined(k, w, 'lensing arguments not found')
                continue
            d = {q: zl(x) for q, x in d.items()}
            us = draws(d['sigma'], 'N')
            if len(us) != 1:
                ctx.violation(k + ':sigma', w, 'depends on %d normal variates' % len(us), 'the size is drawn from a normal distribution')
                continue
            u = us.pop()
            ctx.one_of(k + ':sigma', d['sigma'], [S.r(S.expr('abs((s%sds*u)/%s)' % (sg, kpc[0]), dict(env, u=u))) for sg in '+-'], w, 'normally distributed size, as an angle at the lens redshift')
            ks = draws(d['amp'], 'N') - {u}
            if len(ks) != 1:
                ctx.violation(k + ':amplitude', w, 'depends on %d further normal variates' % len(ks), 'the central convergence is drawn from a normal distribution')
                continue
            x = ks.pop()
            ctx.one_of(k + ':amplitude', settle(R, d['amp']), [settle(R, S.expr('%sA0*x*2*np.pi*sg**2' % sg, dict(env, A0=amp, x=x, sg=d['sigma']))) for sg in ('', '-')], w, 'amplitude = central convergence x 2 pi sigma^2, reduced by the square root of the cancelled number')
            at = lambda q: zl(S.attr(o, q))
            ctx.equal(k + ':mass', at('mass'), S.r(S.expr('abs(q)', dict(q=d['amp']))), w, 'the mass label is the absolute amplitude')
            ctx.equal(k + ':z', at('z'), S.r(S.expr('L.z_lens', env)), w, 'on the main lens plane')
            for q in 'xy':
                ctx.equal('%s:%s' % (k, q), at(q), d['center_' + q], w, 'the halo is where its profile is')
            ctx.require(k + ':own', not ({u, x} & used), w, 'shares variates', 'independent fluctuations')
            used |= {u, x}
            if shape == 'aperture':
                j = owner[i]
                in_disc(ctx, k + ':position', R, add(d['center_x'], neg(env['x%d' % j])), add(d['center_y'], neg(env['y%d' % j])), env['a'], w, 'uniform in the aperture around its own image', used)
                continue
            us = sorted(draws(d['center_x'], 'U') | draws(d['center_y'], 'U'), key=TM.show)
            ctx.require(k + ':position own', not (set(us) & used), w, 'shares variates', 'independent positions')
            used |= set(us)
            angs = angles_of(d['center_x'], d['center_y'])
            if len(angs) != 1 or len(draws(angs[0], 'U')) != 1:
                ctx.undetermined(k + ':angle', w, '%d angles' % len(angs))
                continue
            phi = angs[0]
            b0 = draws(phi, 'U').pop()
            full = S.r(S.expr('2*np.pi', {}))
            hi, lo = (TM.subst(phi, lambda u: q if u is b0 else None) for q in (ONE, ZERO))
            ctx.one_of(k + ':angle', add(hi, neg(lo)), [full, neg(full)], w, 'the angle spans one full turn')

            def extent(kk, v2, lo, hi, rule):
                """v2, a squared length, runs from lo to hi squared with one variate"""
                rs = draws(v2, 'U')
                if len(rs) != 1:
                    return ctx.undetermined(kk, w, '%d variates' % len(rs))
                rv = rs.pop()
                ends = [S.r(TM.subst(v2, lambda u: e if u is rv else None)) for e in (ZERO, ONE)]
                want = [power(env[q], num(2)) for q in (lo, hi)]
                if ends[0] is want[1]:
                    want.reverse()
                for q, g, x in zip(('one', 'other'), ends, want):
                    ctx.equal('%s:%s end' % (kk, q), g, x, w, rule)
            for c_, s_ in DIRECTIONS:
                at = lambda v: turn(R, v, phi, c_, s_)
                if shape == 'ring':
                    extent('%s:radius:%s' % (k, TM.show(c_)), S.r(add(power(at(d['center_x']), num(2)), power(at(d['center_y']), num(2)))), 'a', 'b', 'radii fill the ring between its edges')
                    continue
                c0, s0 = DIRECTIONS[2]
                X, Y = [turn(R, at(d['center_' + q]), env['t'], c0, s0) for q in 'xy']
                major, minor = S.r(add(mul(c0, X), mul(s0, Y))), S.r(add(mul(c0, Y), neg(mul(s0, X))))
                for q, g, f, lo_, hi_ in (('major', major, c_, 'a', 'b'), ('minor', minor, s_, 'c', 'd')):
                    if f is ZERO:
                        ctx.equal('%s:%s:axis' % (k, q), g, ZERO, w, 'the ellipse is rotated by its angle')
                    else:
                        extent('%s:%s:%s' % (k, q, TM.show(f)), power(TM.div(g, f), num(2)), lo_, hi_, 'semi-axes lie between the edges of the rotated ellipse')
    for shape, cs in (('ring', ((2,), (0,), (5,))), ('ellipse', ((1,), (0,), (3,))), ('aperture', ((1, 0, 2), (0, 0, 0), (0, 1, 0), (3, 1, 5), (0, 3, 2)))):
        for c in cs:
            for resc in (True, False):
                ctx.guard('fluctuations', one, shape, c, 2, resc)

    def bad():
        R = Rig(('sub',), (7,), None, (1,))
        v = R.S.expr("E.add_ULDM_fluctuations(lam, A, s, ds, 2, nf, 'square', {'a': 1})", dict(E=R.E, **{k: R.S.sym(k) for k in ('lam', 'A', 's', 'ds', 'nf')}))
        ctx.require('fluctuations:unknown shape', p29.fails(R, v), w, 'accepted', 'unknown shapes are errors')
    ctx.guard('fluctuations', bad)


def seq_of(t):
    es = p15.seqs(t) if t.op in ('arr', 'call') else None
    return mk('seq', *[mk('item', x) for x in es]) if es is not None else t


def run(ctx):
    black_holes(ctx)
    clusters(ctx)
    primordial(ctx)
    correlated(ctx)
    fluctuations(ctx)


from . import p15
