"""P15 rendered populations are consistent arrays with the right conventions."""
from .common import *
from .sheets import *
from .p16 import get
from .halos import as_dict, as_list

EXPLAIN = ("render() of every population, of HaloPopulation and of pyHalo is evaluated on symbolic planes with mass functions and spatial distributions that "
           "return a known number of distinct symbols per draw (several, none, one); the returned arrays must be those symbols in one and the same order, with "
           "the redshift, flag, unit conversion, mass-function settings and amplitude of the plane they were drawn for.")
ASSUME = ['draw(n) of a spatial distribution returns n positions (decided in P20)']
FLOOR = 60
MFM, SDM = 'pyHalo.Rendering.MassFunctions.', 'pyHalo.Rendering.SpatialDistributions.'
CDM, ST = MFM + 'mass_function_base:CDMPowerLaw', MFM + 'density_peaks:ShethTormen'
CONE, PNFW = SDM + 'uniform:LensConeUniform', SDM + 'nfw:ProjectedNFW'


class Rig:
    """session in which every draw yields fresh symbols and is recorded"""

    def __init__(self, counts):
        self.S = S = Session(Config(opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], arrays=True))
        self.counts = list(counts)
        self.objs = {}                       # mass function object -> record
        self.draws = []                      # (record, [symbols])
        self.pos = []                        # (distribution, n, z, ([x], [y], [r]))
        self.sds = {}
        self.reals, self.planes, self.twos = [], [], []
        S.I.on_call = self.on_call
        self.perms = {}
        S.I.on_ext = self.on_ext

    def on_ext(self, name, args, kwargs, st):
        """an ordering of values that are not known is some permutation, the same for the same values"""
        if name in ('numpy.argsort', 'numpy.lexsort', 'numpy.random.permutation') and args:
            t = self.S.I.reify(args[0], st)
            if name == 'numpy.random.permutation':
                n = int(t.args[0]) if t.op == 'num' else None
                t = mk('tup', t, num(len(self.perms)))
            else:
                es = seqs(t)
                n = len(es) if es is not None else None
            if n is None:
                return None
            k = self.perms.setdefault(t, len(self.perms))
            p = list(range(n))[::-1] if k % 2 == 0 else list(range(1, n)) + [0][:n]
            saved, self.S.st = self.S.st, st
            try:
                return self.arr([num(i) for i in p])
            finally:
                self.S.st = saved
        return None

    def arr(self, xs):
        return self.S.expr('np.array(l)', {'l': self.S.py(list(xs))})

    def on_call(self, fi, args, kwargs, st, node):
        saved, self.S.st = self.S.st, st
        try:
            return self.model(fi, args, kwargs, st, node)
        finally:
            self.S.st = saved

    def model(self, fi, args, kwargs, st, node):
        S, I = self.S, self.S.I
        mod = fi.cls.module.name if fi.cls is not None else fi.module.name
        if fi.cls is None:
            if fi.name == 'generate_lens_plane_redshifts':
                env = I.bind(fi, args, kwargs, st, node)
                self.planes.append([I.reify(env[p], st) for p in fi.params])
                return mk('tup', S.py([S.sym('z1'), S.sym('z2')]), self.arr([S.sym('dz1'), S.sym('dz2')]))
            return None
        if fi.cls.name == 'Realization' and fi.name == '__init__':
            env = I.bind(fi, args, kwargs, st, node)
            self.reals.append({p: I.reify(env[p], st) for p in fi.params[1:]})
            return NONE
        if fi.cls.name == 'TwoHaloContribution' and fi.name == '__init__':
            env = I.bind(fi, args, kwargs, st, node)
            self.twos.append({p: I.reify(env[p], st) for p in fi.params[1:]})
            return None
        if mod.startswith(MFM[:-1]):
            if fi.name == '__init__':
                env = I.bind(fi, args, kwargs, st, node)
                ref = env[fi.params[0]]
                rec = {p: I.reify(env[p], st) for p in fi.params[1:]}
                rec['class'] = I.obj(st, ref).cls.qual
                self.objs.setdefault(ref, rec)
                return NONE
            if fi.name == 'from_redshift':
                env = I.bind(fi, args, kwargs, st, node)
                o = S.sym('MO%d' % len(self.objs), fi.cls.qual)
                ps = fi.params[1:] if len(fi.params) == 5 else fi.params
                self.objs[o] = dict(zip(('z', 'dz', 'geo', 'kw'), [I.reify(env[p], st) for p in ps]), **{'class': env[fi.params[0]] if len(fi.params) == 5 else None})
                return o
            if fi.name == 'draw':
                o = args[0]
                k = len(self.draws)
                n = self.counts[k] if k < len(self.counts) else 3
                xs = [S.sym('m%d_%d' % (k, i)) for i in range(n)]
                self.draws.append((self.objs.get(o), xs))
                return self.arr(xs)
        if mod.startswith(SDM[:-1]) and fi.name == 'draw':
            env = I.bind(fi, args, kwargs, st, node)
            n = I.reify(env[fi.params[1]], st)
            z = I.reify(env[fi.params[2]], st)
            if n.op != 'num':
                raise decide.Budget()
            k = len(self.pos)
            v = [[S.sym('%s%d_%d' % (c, k, i)) for i in range(int(n.args[0]))] for c in 'xyr']
            self.pos.append((args[0], int(n.args[0]), z, v))
            return mk('tup', *[self.arr(q) for q in v[:3 if fi.cls.name == 'ProjectedNFW' else 2]])
        if mod.startswith(SDM[:-1]) and fi.name in ('__init__', 'from_Mhost'):
            env = I.bind(fi, args, kwargs, st, node)
            rec = {p: I.reify(env[p], st) for p in fi.params if p in env}
            if fi.name == 'from_Mhost':
                o = S.new(fi.cls, *[S.sym('_p%d' % i) for i in range(len(program().lookup(fi.cls, '__init__').params) - 1)])
                self.sds[o] = ('from_Mhost', fi.cls.name, rec)
                return o
            self.sds.setdefault(args[0], ('init', fi.cls.name, rec))
            return NONE
        return None

    def sd(self, cls):
        return self.S.new(cls, *([self.S.sym('ca'), geom(self.S)] if cls == CONE else [self.S.sym('q%d' % i) for i in range(5)]))


def seqs(v):
    """list of element terms of an array/list value, None when not concrete"""
    if v.op == 'arr':
        v = v.args[0]
    if v.op == 'call' and v.args[0] in ('np.array', 'numpy.array'):
        v = v.args[1].args[0]
    if v.op != 'seq' or any(x.op != 'item' for x in v.args):
        return None
    return [x.args[0] for x in v.args]


NAMES = ('masses', 'x', 'y', 'r3d', 'redshifts', 'subhalo flags')


def elements(ctx, key, S, out, want, w, rule=''):
    """the six arrays, element by element"""
    m = seqs(S.r(get(S, out, 0)))
    if m is not None and m != list(want[0]) and sorted(map(id, m)) == sorted(map(id, want[0])) and all(len(x) == len(m) for x in want):
        order = [list(want[0]).index(x) for x in m]          # any one order of the objects
        want = [[x[i] for i in order] for x in want]
    for i, nm in enumerate(NAMES):
        got = S.r(get(S, out, i))
        exp = want[i]
        es = seqs(got)
        if es is None:
            ctx.equal('%s:%s' % (key, nm), got, mk('seq', *[item(x) for x in exp]), w, nm)
            continue
        if len(es) != len(exp):
            ctx.violation('%s:%s' % (key, nm), w, '%d entries, required %d' % (len(es), len(exp)), 'equally long arrays')
            continue
        for j, (a, b) in enumerate(zip(es, exp)):
            ctx.equal('%s:%s[%d]' % (key, nm, j), a, b, w, rule or 'the entry of the same object')


def conv(S, x, z):
    return S.r(S.expr('x/geo.kpc_per_arcsec(z)', dict(x=x, z=z, geo=geom(S))))


def rendering(q):
    P = program()
    ci = P.cls(q)
    fi = ci and P.lookup(ci, 'render')
    if fi is None:
        raise Broken('%s.render not found' % q)
    return where_fn(fi)


def oneper(ctx, key, R, w, want):
    """every mass-function draw is used once, positions are drawn for exactly as many objects"""
    ctx.require(key + ':draws', len(R.draws) == want or (None if len(R.draws) < want else False), w, '%d mass draws, required %d' % (len(R.draws), want), 'one sample per population and plane')


def subhalos(ctx):
    w = rendering(SUB)
    for sd in (CONE, PNFW):
        for norm in ('sigma_sub', 'dndA'):
            for form in ('num', 'callable'):
                for n in (2, 0):
                    def one(sd=sd, norm=norm, form=form, n=n):
                        R = Rig([n])
                        S = R.S
                        key = 'sub:%s:%s:%s:%d' % (sd.split(':')[1], norm, form, n)
                        kw = kw_sub(S, norm=norm, form=form)
                        r = S.new(SUB, mk('cls', CDM), kw, R.sd(sd), geom(S), lens(S))
                        out = S.meth(r, 'render')
                        zl = S.r(S.attr(lens(S), 'z_lens'))
                        oneper(ctx, key, R, w, 1)
                        if not R.draws:
                            return
                        ms = R.draws[0][1]
                        pos = [p for p in R.pos if p[1]][:1]
                        xs, ys, rs = pos[0][3] if pos else ([], [], [])
                        want = (ms, [conv(S, x, zl) for x in xs], [conv(S, y, zl) for y in ys], [NONE] * n if sd == CONE else rs, [zl] * n, [TRUE] * n)
                        elements(ctx, key, S, out, want, w)
                        if n and len(xs) == n:
                            ctx.equal(key + ':position redshift', pos[0][2], zl, w, 'positions are drawn at the lens redshift')
                        rec = R.draws[0][0]
                        if n and rec is not None:
                            env = {k: S.sym(k) for k in ('sigma_sub', 'dndA', 'host_m200', 'hsf', 'rsf', 'm_pivot', 'alpha', 'dalpha')}
                            env.update(geo=geom(S), L=lens(S))
                            F = {'sigma_sub': 'sigma_sub*10**(hsf*np.log10(host_m200/10**13) + rsf*np.log10(L.z_lens+0.5))', 'dndA': 'dndA'}[norm]
                            a = '%s*np.pi*(L.cosmo.kpc_proper_per_asec(L.z_lens)*geo.cone_opening_angle/2)**2*m_pivot**(-(alpha+dalpha+1))' % F
                            for k, e in (('normalization', a), ('power_law_index', 'alpha+dalpha')):
                                if k in rec:
                                    ctx.equal('%s:%s' % (key, k), rec[k], S.r(S.expr(e, env)), w, 'amplitude: projected number density at the pivot x area inside the cone')
                            for k, s in (('log_mlow', 'mlo'), ('log_mhigh', 'mhi')):
                                if k in rec:
                                    ctx.equal('%s:%s' % (key, k), rec[k], mul(mul(num(2), S.sym(s)), zl if form != 'num' else ONE), w, 'limits of the population at its redshift')
                            ctx.equal(key + ':poisson', rec.get('draw_poisson', NONE), S.sym('poisson'), w, 'sampling option reaches the mass function')
                        ctx.saw(S)
                    ctx.guard('sub', one)

    def host():
        R = Rig([1])
        S = R.S
        kw = kw_sub(S)
        S.I.del_item(kw, const('host_m200'), S.st, None)
        S.I.set_item(kw, const('log_m_host'), S.sym('lmh'), S.st, None)
        S.meth(S.new(SUB, mk('cls', CDM), kw, R.sd(CONE), geom(S), lens(S)), 'render')
        R2 = Rig([1])
        S2 = R2.S
        S2.meth(S2.new(SUB, mk('cls', CDM), kw_sub(S2, host_m200=S2.expr('10**q', {'q': S2.sym('lmh')})), R2.sd(CONE), geom(S2), lens(S2)), 'render')
        ctx.equal('sub:log_m_host', R.draws[0][0]['normalization'], R2.draws[0][0]['normalization'], w, 'the logarithmic host mass is the same as the host mass')
    ctx.guard('sub:host', host)


def plane_obj(ctx, key, S, rec, z, dz, cls, w, form, norm=None, poisson=None):
    if rec is None:
        return ctx.undetermined(key, w, 'the mass function drawn from is not followed')
    ctx.equal(key + ':z', rec['z'], z, w, 'mass function of the plane')
    ctx.equal(key + ':dz', rec['dz'], dz, w, 'thickness of the same plane')
    ctx.equal(key + ':geometry', rec['geo'], geom(S), w, 'volume of the rendered geometry')
    if rec['class'] is not None:
        ctx.equal(key + ':class', rec['class'], mk('cls', cls), w, 'the mass function class of the population')
    d = as_dict(rec['kw'])
    if d is None:
        return ctx.undetermined(key + ':settings', w, TM.show(rec['kw'], 4))
    exp = {'LOS_normalization': norm if norm is not None else S.sym('los_norm'), 'm_pivot': S.sym('m_pivot'), 'delta_power_law_index': S.sym('dalpha'),
           'draw_poisson': poisson if poisson is not None else S.sym('poisson'),
           'log_mlow': mul(mul(num(2), S.sym('mlo')), z if form != 'num' else ONE), 'log_mhigh': mul(mul(num(2), S.sym('mhi')), z if form != 'num' else ONE)}
    for k, e in exp.items():
        if k not in d:
            ctx.violation('%s:%s' % (key, k), w, 'the setting does not reach the mass function', 'settings of the population, with limits at the redshift of the plane')
        else:
            ctx.equal('%s:%s' % (key, k), d[k], e, w, 'settings of the population, with limits at the redshift of the plane')


def los(ctx):
    for cls in (LOS, NOS):
        w = rendering(cls)
        for form in ('num', 'callable'):
            for counts in ((2, 0, 1), (0, 0, 0), (1, 2, 2)):
                def one(cls=cls, form=form, counts=counts):
                    R = Rig(counts)
                    S = R.S
                    key = '%s:%s:%s' % (cls.split(':')[1], form, ''.join(map(str, counts)))
                    zs, dzs = [[S.sym('%s%d' % (c, i)) for i in range(3)] for c in ('z', 'dz')]
                    r = S.new(cls, mk('cls', ST), kw_los(S, form=form), R.sd(CONE), geom(S), lens(S), S.py(zs), R.arr(dzs))
                    for rnd in range(2):
                        R.draws, R.pos = [], []
                        out = S.meth(r, 'render')
                        k2 = '%s#%d' % (key, rnd)
                        oneper(ctx, k2, R, w, 3)
                        if len(R.draws) != 3:
                            return
                        pos = {}
                        used = [p for p in R.pos if p[1]]
                        need = [i for i in range(3) if R.draws[i][1]]
                        if len(used) != len(need):
                            ctx.undetermined(k2, w, '%d position draws for %d planes with objects' % (len(used), len(need)))
                            return
                        ms, xs, ys, zz = [], [], [], []
                        for i, p in zip(need, used):
                            ctx.equal('%s:positions[%d]:z' % (k2, i), p[2], zs[i], w, 'positions are drawn at the redshift of the plane')
                            ms += R.draws[i][1]
                            xs += [conv(S, x, zs[i]) for x in p[3][0]]
                            ys += [conv(S, y, zs[i]) for y in p[3][1]]
                            zz += [zs[i]] * len(R.draws[i][1])
                        n = len(ms)
                        elements(ctx, k2, S, out, (ms, xs, ys, [NONE] * n, zz, [FALSE] * n), w)
                        for i in range(3):
                            plane_obj(ctx, '%s:plane[%d]' % (k2, i), S, R.draws[i][0], zs[i], dzs[i], ST, w, form)
                    ctx.saw(S)
                ctx.guard('los', one)

    def default():
        R = Rig([1])
        S = R.S
        kw = kw_los(S)
        S.I.del_item(kw, const('draw_poisson'), S.st, None)
        r = S.new(NOS, mk('cls', ST), kw, R.sd(CONE), geom(S), lens(S), S.py([S.sym('z0')]), S.py([S.sym('dz0')]))
        S.meth(r, 'render')
        plane_obj(ctx, 'los:default', S, R.draws[0][0], S.sym('z0'), S.sym('dz0'), ST, rendering(NOS), 'num', poisson=TRUE)
    ctx.guard('los:default', default)


def two(ctx):
    w = rendering(TWO)

    def one(n, host, lazar):
        R = Rig([n])
        S = R.S
        key = 'two:%s:%s:%d' % (host, lazar, n)
        kw = kw_los(S)
        S.I.set_item(kw, const(host), S.sym('H'), S.st, None)
        zs, dzs = [[S.sym('%s%d' % (c, i)) for i in range(2)] for c in ('z', 'dz')]
        r = S.new(TWO, mk('cls', ST), kw, R.sd(CONE), geom(S), lens(S), S.py(zs), S.py(dzs), S.sym('lazar') if lazar else TRUE, S.sym('boost'))
        out = S.meth(r, 'render')
        zl = S.r(S.attr(lens(S), 'z_lens'))
        oneper(ctx, key, R, w, 1)
        rec, ms = R.draws[0]
        p = [q for q in R.pos if q[1]][:1]
        xs, ys = (p[0][3][0], p[0][3][1]) if p else ([], [])
        elements(ctx, key, S, out, (ms, [conv(S, x, zl) for x in xs], [conv(S, y, zl) for y in ys], [NONE] * n, [zl] * n, [FALSE] * n), w)
        if p:
            ctx.equal(key + ':position redshift', p[0][2], zl, w, 'positions are drawn at the lens redshift')
        if rec is None:
            return ctx.undetermined(key, w, 'mass function not followed')
        ctx.equal(key + ':z', rec['z'], zl, w, 'mass function at the lens redshift')
        near = S.r(S.expr('d[np.argmin(abs(np.array(z) - zl))]', dict(d=S.py(dzs), z=S.py(zs), zl=zl)))
        ctx.equal(key + ':dz', rec['dz'], near, w, 'thickness of the plane nearest to the lens')
        d = as_dict(rec['kw']) or {}
        nm = d.get('LOS_normalization')
        if nm is None:
            return ctx.undetermined(key + ':normalization', w, 'settings not followed')
        q = [u for u in TM.walk(nm) if u.op == 'call' and u.args[0] == 'scipy.integrate.quad']
        q = list(dict.fromkeys(q))
        if len(q) != 1:
            return ctx.undetermined(key + ':boost', w, '%d integrals' % len(q))
        a = q[0].args[1].args
        D = 'L.cosmo.D_C_transverse'
        env = dict(L=lens(S), zl=zl, dz=near, b=S.sym('boost'), I=idx(q[0], ZERO), n0=S.sym('los_norm'))
        rmax = '(%s(zl+dz)-%s(zl))' % (D, D)
        ctx.equal(key + ':upper limit', a[2], S.r(S.expr(rmax, env)), w, 'comoving thickness of the plane')
        ctx.equal(key + ':lower limit', a[1], S.r(S.expr('min(%s, 0.5)' % rmax, env)), w, 'from 0.5 Mpc')
        ctx.equal(key + ':normalization', nm, S.r(S.expr('n0*(b*(2*I/(%s-min(%s, 0.5))))' % (rmax, rmax), env)), w, 'background density times the mean enhancement on both sides')
        pos, kwd = list(a[3:]), q[0].args[2].args
        extra = None
        for i in range(0, len(kwd) - 1, 2):
            if kwd[i] == 'args' or (isinstance(kwd[i], T) and kwd[i] is const('args')):
                extra = kwd[i + 1]
        if extra is None and pos:
            extra = pos[0]
        xa = list(extra.args) if extra is not None and extra.op == 'tup' else []
        val = S.r(S.I.apply(S.quad_fn(a[0]), [S.sym('r')] + xa, [], S.st))
        env.update(r=S.sym('r'), M=S.sym('H') if host == 'host_m200' else S.expr('10**H', {'H': S.sym('H')}), lz=S.sym('lazar') if lazar else TRUE)
        r2 = [u for u in TM.walk(val) if u.op == 'idx' and u.args[1] is num(2) and u.args[0].op == 'meth' and u.args[0].args[1] == 'NFW_params_physical']
        base = S.r(S.expr('L.twohaloterm(r, M, zl)', env))
        if not r2:
            ctx.undetermined(key + ':integrand', w, TM.show(val, 6))
        else:
            env['R'] = r2[0]
            lz = S.r(S.expr('L.twohaloterm(r, M, zl) + 0.1*(r/(R/1000)/5)**-4', env))
            full = lz if not lazar else S.r(S.expr('a if q else b', dict(a=lz, b=base, q=S.sym('lazar'))))
            ctx.equal(key + ':integrand', val, full, w, 'two-halo term with the (optional) correction at small radii')
            ctx.equal(key + ':host', r2[0].args[0].args[2].args[0], S.r(env['M']), w, 'virial radius of the host')
            ctx.equal(key + ':host z', r2[0].args[0].args[2].args[2], zl, w, 'virial radius at the lens redshift')
        ctx.saw(S)
    for n in (2, 0):
        for host in ('host_m200', 'log_m_host'):
            for lazar in (True, False):
                ctx.guard('two', one, n, host, lazar)


def population(ctx):
    HP = 'pyHalo.Rendering.halo_population:HaloPopulation'
    w = rendering(HP)
    kinds = {'SUBHALOS': (1, SUB), 'LINE_OF_SIGHT': (2, LOS), 'LINE_OF_SIGHT_NOSHEET': (2, NOS), 'TWO_HALO': (1, TWO)}

    def one(models, counts):
        R = Rig(counts)
        S = R.S
        key = 'population:%s:%s' % ('+'.join(models), ''.join(map(str, counts)))
        mfs, kws, sds, kwsd = [], [], [], []
        for i, m in enumerate(models):
            mfs.append(mk('cls', CDM if m == 'SUBHALOS' else ST))
            kws.append(kw_sub(S) if m == 'SUBHALOS' else kw_los(S, host_m200=S.sym('host_m200'), tag=S.sym('tag%d' % i)))
            sds.append(mk('cls', PNFW if m == 'SUBHALOS' else CONE))
            P = program()
            f = P.lookup(P.cls(PNFW), 'from_Mhost') if m == 'SUBHALOS' else P.lookup(P.cls(CONE), '__init__')
            kwsd.append(S.py({p: S.sym('%s_%d' % (p, i)) for p in f.params[1:]}))
        hp = S.new(HP, S.py(models), S.py(mfs), S.py(kws), S.py(sds), S.py(kwsd), lens(S), geom(S), S.py([S.sym('z1'), S.sym('z2')]),
                   R.arr([S.sym('dz1'), S.sym('dz2')]), S.sym('lazar'), S.sym('boost'))
        rl = S.attr(hp, 'rendering_classes')
        objs = [x.args[0] if x.op == 'item' else x for x in S.I.obj(S.st, rl).segs]
        if any(x.op != 'ref' for x in objs):
            return ctx.undetermined(key + ':models', w, 'populations are not followed')
        if len(objs) != len(models):
            return ctx.violation(key + ':models', w, '%d populations for %d models' % (len(objs), len(models)), 'one population per model, in order')
        for i, (o, m) in enumerate(zip(objs, models)):
            q = S.I.obj(S.st, o).cls
            ctx.require('%s:model[%d]' % (key, i), q is not None and q.qual == kinds[m][1], w, '%s rendered by %s' % (m, q.qual), 'populations in the order of the models')
            s = S.I.simplify_value(S.attr(o, '_spatial_distribution_model'), S.st)
            sd = R.sds.get(s)
            if sd is None:
                ctx.undetermined('%s:spatial[%d]' % (key, i), w, TM.show(s, 3))
            else:
                for p, v in sd[2].items():
                    if p not in ('self', 'cls'):
                        ctx.equal('%s:spatial[%d]:%s' % (key, i, p), v, S.sym('%s_%d' % (p, i)), w, 'spatial distribution with its own settings')
        out = S.meth(hp, 'render')
        nd = [kinds[m][0] for m in models]
        oneper(ctx, key, R, w, sum(nd))
        if len(R.draws) != sum(nd):
            return
        zl = S.r(S.attr(lens(S), 'z_lens'))
        k = 0
        cols = [[] for _ in NAMES]
        pos = [p for p in R.pos if p[1]]
        for i_, (m, n) in enumerate(zip(models, nd)):
            for j in range(n):
                rec, ms = R.draws[k]
                k += 1
                if rec is not None and rec.get('kw') is not None:
                    d = as_dict(rec['kw'])
                    if d is not None:
                        ctx.equal('%s:settings[%d]:%d' % (key, models.index(m) if models.count(m) == 1 else i_, j), d.get('tag', NONE), S.sym('tag%d' % i_), w, 'each population has its own settings')
                if j == 0 and m == 'TWO_HALO' and len(R.twos) == 1:
                    for p, q in (('use_Lazar_correction', 'lazar'), ('scale_2halo_boost_factor', 'boost')):
                        if p in R.twos[0]:
                            ctx.equal('%s:two:%s' % (key, q), R.twos[0][p], S.sym(q), w, 'two-halo options reach the population')
                if not ms:
                    continue
                if not pos or pos[0][1] != len(ms):
                    return ctx.violation(key + ':positions', w, 'positions are not drawn for the same number of objects', 'equally long arrays')
                p = pos.pop(0)
                z = zl if n == 1 else S.sym('z%d' % (j + 1))
                row = (ms, [conv(S, x, z) for x in p[3][0]], [conv(S, y, z) for y in p[3][1]], p[3][2] if m == 'SUBHALOS' else [NONE] * len(ms),
                       [z] * len(ms), [TRUE if m == 'SUBHALOS' else FALSE] * len(ms))
                for c, v in zip(cols, row):
                    c += v
        elements(ctx, key, S, out, cols, w, 'arrays of the populations joined in one order')
        ctx.saw(S)
    M = sorted(kinds)
    for models, counts in ((['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], (2, 1, 0, 1)), (['LINE_OF_SIGHT', 'SUBHALOS'], (1, 2, 1)), (['TWO_HALO', 'LINE_OF_SIGHT_NOSHEET', 'SUBHALOS'], (1, 0, 2, 0)),
                           (['SUBHALOS'], (2,)), (['LINE_OF_SIGHT', 'LINE_OF_SIGHT'], (0, 0, 1, 1)), ([], ())):
        ctx.guard('population', one, models, counts)
    ctx.guard('pyhalo', toplevel, ctx)


def toplevel(ctx):
    P = program()
    ci = P.cls('pyHalo.pyhalo:pyHalo')
    w = rendering('pyHalo.pyhalo:pyHalo')
    models, nreal = ['LINE_OF_SIGHT', 'SUBHALOS', 'TWO_HALO'], 2
    R = Rig((1, 2, 1, 1, 0, 1, 2, 0))
    S = R.S
    ph = S.new(ci, S.sym('zl'), S.sym('zs'))
    R.planes = []
    lc = S.attr(ph, 'lens_cosmo')
    f = P.lookup(P.cls(PNFW), 'from_Mhost')
    g = P.lookup(P.cls(CONE), '__init__')
    cone = {p: S.sym(p) for p in g.params[1:]}
    out = S.meth(ph, 'render', S.py(models), S.py([mk('cls', ST), mk('cls', CDM), mk('cls', ST)]), S.py([kw_los(S), kw_sub(S), kw_los(S, host_m200=S.sym('host_m200'))]),
                 S.py([mk('cls', CONE), mk('cls', PNFW), mk('cls', CONE)]), S.py([S.py(cone), S.py({p: S.sym(p) for p in f.params[1:]}), S.py(cone)]), geom(S),
                 const('SUBMDEF'), const('FIELDMDEF'), S.sym('khm'), two_halo_Lazar_correction=S.sym('lazar'), scale_2halo_boost_factor=S.sym('boost'),
                 nrealizations=num(nreal), lens_plane_spacing=S.sym('spacing'))
    for d in R.twos:
        for p, q in (('use_Lazar_correction', 'lazar'), ('scale_2halo_boost_factor', 'boost')):
            if p in d:
                ctx.equal('pyhalo:two:' + q, d[p], S.sym(q), w, 'two-halo options reach the population')
    for p in R.planes:
        for a, s in zip(p, ('zl', 'zs', 'spacing')):
            ctx.equal('pyhalo:planes:' + s, a, S.sym(s), w, 'planes between observer and source with the requested spacing')
    if len(R.reals) != nreal or len(R.draws) != 4 * nreal:
        ctx.require('pyhalo:count', None if not R.reals else False, w, '%d realizations, %d samples' % (len(R.reals), len(R.draws)), 'as many independent realizations as requested')
        return
    ctx.ok('pyhalo:count', w)
    for i, d in enumerate(R.reals):
        dr = R.draws[4 * i:4 * i + 4]
        ms = [m for _, v in dr for m in v]
        exp = {'masses': ms, 'mdefs': [const('FIELDMDEF')] * (len(dr[0][1]) + len(dr[1][1])) + [const('SUBMDEF')] * len(dr[2][1]) + [const('FIELDMDEF')] * len(dr[3][1]),
               'subhalo_flag': [FALSE] * (len(dr[0][1]) + len(dr[1][1])) + [TRUE] * len(dr[2][1]) + [FALSE] * len(dr[3][1])}
        got = seqs(d['masses']) if 'masses' in d else None
        if got is not None and got != ms and sorted(map(id, got)) == sorted(map(id, ms)):
            order = [ms.index(x) for x in got]
            exp = {k: [v[q] for q in order] for k, v in exp.items()}
        for k, e in exp.items():
            if k not in d:
                raise Broken('Realization argument %s not found' % k)
            es = seqs(d[k])
            if es is None:
                ctx.undetermined('pyhalo[%d]:%s' % (i, k), w, TM.show(d[k], 5))
            elif len(es) != len(e):
                ctx.violation('pyhalo[%d]:%s' % (i, k), w, '%d entries, required %d' % (len(es), len(e)), 'one entry per object')
            else:
                for j, (a, b) in enumerate(zip(es, e)):
                    ctx.equal('pyhalo[%d]:%s[%d]' % (i, k, j), a, b, w, 'profile by subhalo flag, arrays of this realization')
        n = len(ms)
        used = {}
        for k, c in (('x', 'x'), ('y', 'y'), ('r3d', 'r'), ('z', None)):
            es = seqs(d[k])
            if es is None:
                ctx.undetermined('pyhalo[%d]:%s' % (i, k), w, TM.show(d[k], 5))
                continue
            if len(es) != n:
                ctx.violation('pyhalo[%d]:%s' % (i, k), w, '%d entries, required %d' % (len(es), n), 'one entry per object')
                continue
            for j, e in enumerate(es):
                nm = [u.args[0] for u in decide.leaves(e) if u.op == 'sym' and '_' in str(u.args[0]) and str(u.args[0])[0] in 'xyrm' and str(u.args[0])[1:2].isdigit()]
                if c is None:
                    continue
                if c == 'r' and exp['subhalo_flag'][j] is FALSE:
                    ctx.equal('pyhalo[%d]:r3d[%d]' % (i, j), e, NONE, w, 'field halos have no radius in the host')
                    continue
                ok = len(nm) == 1 and nm[0][0] == c
                ctx.require('pyhalo[%d]:%s[%d]' % (i, k, j), ok if nm else None, w, 'built from %s' % nm, 'the array of this name')
                if ok:
                    used.setdefault(j, set()).add(nm[0][1:])
        for j, v in used.items():
            ctx.require('pyhalo[%d]:object[%d]' % (i, j), len(v) == 1, w, 'coordinates of %s' % sorted(v), 'coordinates of one object stay together')
        ctx.equal('pyhalo[%d]:settings' % i, d['kwargs_halo_model'], S.sym('khm'), w, 'halo model settings reach the realization')
        ctx.equal('pyhalo[%d]:lens' % i, d['lens_cosmo'], S.r(lc), w, 'cosmology of the object that renders')
        ctx.equal('pyhalo[%d]:geometry' % i, d['geometry'], geom(S), w, 'geometry of the population')
        rc = as_list(d['rendering_classes'])
        if rc is None:
            ctx.undetermined('pyhalo[%d]:populations' % i, w, TM.show(d['rendering_classes'], 3))
        else:
            ctx.require('pyhalo[%d]:populations' % i, [x.args[0].split(':')[1] for x in rc if x.op == 'inst'] == ['LineOfSight', 'Subhalos', 'TwoHaloContribution'], w,
                        TM.show(d['rendering_classes'], 3), 'the populations are kept for the mass sheets')
    ctx.saw(S)


def planes(ctx):
    P = program()
    fi = P.func('pyHalo.utilities:generate_lens_plane_redshifts')
    if fi is None:
        raise Broken('generate_lens_plane_redshifts not found')
    w = where_fn(fi)

    def one(lens_, spacing):
        S = Session(Config(arrays=True))
        runs = []

        def on_ext(name, args, kwargs, st):
            if name in ('numpy.arange', 'np.arange') and len(args) == 3 and not kwargs:
                a = [S.I.reify(x, st) for x in args]
                k = len(runs)
                runs.append(a)
                saved, S.st = S.st, st
                try:
                    return S.expr('np.array(l)', {'l': S.py([a[0], S.sym('p%d_1' % k), S.sym('p%d_2' % k)])})
                finally:
                    S.st = saved
            if name in ('numpy.round', 'numpy.around', 'round') and args:
                return args[0]
            return None
        S.I.on_ext = on_ext
        key = 'planes:%s:%s' % ('lens' if lens_ else 'no lens', 'given' if spacing else 'default')
        zl = S.sym('zl') if lens_ else NONE
        if lens_:
            S.st.assume(bnot(TM.eq(zl, NONE)))
        if spacing:
            S.st.assume(bnot(TM.eq(S.sym('h'), NONE)))
        out = S.call(fi, zl, S.sym('zs'), S.sym('h') if spacing else NONE)
        z, dz = [seqs(S.r(S.I.get_item(out, num(i), S.st))) for i in (0, 1)]
        asg = {('b', TM.eq(S.sym('h'), NONE)): False, ('b', TM.eq(S.sym('zl'), NONE)): False}
        if z is None or dz is None or not runs:
            return ctx.undetermined(key, w, 'planes not followed')
        ends = [(S.sym('zl'), S.sym('zs')), (S.sym('zs'),)][0 if lens_ else 1]
        ctx.require(key + ':ranges', len(runs) == len(ends) or None, w, '%d ranges' % len(runs), 'planes in front of and behind the lens')
        if len(runs) != len(ends):
            return
        lo = None
        for i, (a, e) in enumerate(zip(runs, ends)):
            ctx.equal('%s:end[%d]' % (key, i), a[1], e, w, 'planes up to the lens and up to the source', asg=asg)
            if lens_ and i == 1:
                ctx.equal(key + ':lens', a[0], S.sym('zl'), w, 'one plane at the lens', asg=asg)
            ctx.equal('%s:step[%d]' % (key, i), a[2], S.sym('h') if spacing else runs[0][2], w, 'the requested spacing', asg=asg)
        want = [x for k, a in enumerate(runs) for x in (a[0], S.sym('p%d_1' % k), S.sym('p%d_2' % k))]
        ctx.require(key + ':lengths', len(z) == len(dz) == len(want), w, '%d redshifts, %d thicknesses, %d planes' % (len(z), len(dz), len(want)), 'one thickness per plane')
        if not len(z) == len(dz) == len(want):
            return
        for i in range(len(z)):
            ctx.equal('%s:z[%d]' % (key, i), z[i], want[i], w, 'planes from observer to source', asg=asg)
            ctx.equal('%s:dz[%d]' % (key, i), dz[i], sub(z[i + 1] if i + 1 < len(z) else S.sym('zs'), z[i]), w, 'a plane is as thick as the distance to the next one, the last ends at the source', asg=asg)
        ctx.saw(S)
    for a in (True, False):
        for b in (True, False):
            ctx.guard('planes', one, a, b)


def run(ctx):
    ctx.guard('planes', planes, ctx)
    ctx.guard('sub', subhalos, ctx)
    ctx.guard('los', los, ctx)
    ctx.guard('two', two, ctx)
    ctx.guard('population', population, ctx)
