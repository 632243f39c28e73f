"""P27 imported simulation subhalos."""
from .common import *
from engine import arrays, decide
from . import p28

EXPLAIN = ("The import of semi-analytic output is executed abstractly on a table of four or five nodes whose positions, masses, radii, concentrations, densities, tree indices and identifiers are all symbolic (two trees, the host of each at a "
           "different place of the table); rotations are matrices of cosines and sines of symbolic angles. The halos that come out are compared with the table: one halo exactly for the nodes that satisfy every criterion, each with the data of its "
           "own node, and projected coordinates whose products are those of the components perpendicular to the line of sight (single rotation, no reflection). The individual filters, the assignment of nodes to trees, the choice of the "
           "output, the emulator import and the joint realization are decided the same way.")
ASSUME = ['scipy Rotation.from_euler: lower case sequences are extrinsic rotations, apply() multiplies by the matrix', 'the last output has exactly one isolated node per tree, in the order of the trees (documented)', 'Realization.join keeps every halo of both (decided by P14)',
          'lenstronomy NFWParam.rhoc_z = rhoc*efunc(z)**2']
FLOOR = 20
EX = 'pyHalo.PresetModels.external:'
GF = 'pyHalo.Halos.galacticus_util.galacticus_filter:'
GU = 'pyHalo.Halos.galacticus_util.galacticus_util:GalacticusUtil'
COLS = dict(PARAM_X='x', PARAM_Y='y', PARAM_Z='z', PARAM_TNFW_RHO_S='rhos', PARAM_TNFW_RADIUS_TRUNCATION='rt', PARAM_RADIUS_VIRIAL='rvir', PARAM_RADIUS_SCALE='rs', PARAM_MASS_BOUND='mb', PARAM_MASS_INFALL='mi',
            PARAM_Z_LAST_ISOLATED='zi', PARAM_CONCENTRATION='c', PARAM_TREE_INDEX='tree', PARAM_NODE_ID='id')
CUSTOM = ('PARAM_TREE_INDEX', 'PARAM_TREE_ORDER', 'PARAM_NODE_ID')
I3 = [[ONE, ZERO, ZERO], [ZERO, ONE, ZERO], [ZERO, ZERO, ONE]]


def fn(name):
    fi = program().func(name)
    if fi is None:
        raise Broken('%s not found' % name)
    return fi


def matmul(a, b):
    return [[add(*[mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


class Rig(p28.Rig):
    def __init__(self, n=4, own=False, iso=(0, 1, 1, 0), order=(0, 0, 1, 1), opaque=()):
        self.presets, self.requests, self.files, self.cb = [], [], [], {}
        super().__init__(radii=True, opaque=opaque)
        S = self.S
        self.n, self.own = n, own
        self.iso, self.order = iso, order
        self.gu = S.new(GU)
        self.keys = {}
        for k in list(COLS) + ['PARAM_ISOLATED', 'PARAM_TREE_ORDER']:
            if own:
                S.I.set_attr(self.gu, k, TM.const('own_' + k), S.st, None)
            self.keys[k] = S.attr(self.gu, k)
            if self.keys[k].op != 'const':
                raise Broken('GalacticusUtil.%s is not a name' % k)
        self.v = {k: [S.sym('%s%d' % (p, i)) for i in range(n)] for k, p in COLS.items()}
        for l in self.v.values():
            for x in l:
                S.st.assume(bnot(TM.eq(x, NONE)))
        self.v['PARAM_ISOLATED'] = [num(x) for x in iso]
        self.v['PARAM_TREE_ORDER'] = [num(x) for x in order]
        self.data = self.table(self.keys)

    def table(self, keys):
        return self.S.py({self.keys[k].args[0]: self.arr(self.v[k], self.S.st) for k in keys})

    def at(self, k):
        return self.v[k]

    def in_state(self, st, f):
        saved, self.S.st = self.S.st, st
        try:
            return f()
        finally:
            self.S.st = saved

    # ---- rotations
    def turn(self, axis, a):
        if a is ZERO:
            return I3
        S = self.S
        c, s = S.r(S.expr('np.cos(a)', dict(a=a))), S.r(S.expr('np.sin(a)', dict(a=a)))
        m = mul(num(-1), s)
        return {'x': [[ONE, ZERO, ZERO], [ZERO, c, m], [ZERO, s, c]], 'y': [[c, ZERO, s], [ZERO, ONE, ZERO], [m, ZERO, c]], 'z': [[c, m, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]}[axis]

    def vec(self, v, st):
        if v.op == 'tup':
            return list(v.args)
        e = arrays.entries(self.S.I, v, st)
        return None if e is None or any(c is not TRUE for c, _ in e) else [x for _, x in e]

    def rotation(self, m):
        return mk('call', 'ROTATION', mk('args', *[x for r in m for x in r]), mk('kw'))

    def ext(self, name, args, kwargs, st):
        I = self.S.I
        if name.endswith('Rotation.from_euler'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('seq', 'angles', 'degrees'), pos), **kw)
            seq, ang = d.get('seq'), d.get('angles')
            if seq is None or seq.op != 'const' or ang is None or d.get('degrees', FALSE) is not FALSE:
                return None
            q = str(seq.args[0])
            l = self.vec(ang, st) if len(q) > 1 else [ang]
            if l is None or len(l) != len(q):
                return None
            if q.upper() == q:
                q, l = q.lower()[::-1], l[::-1]
            m = I3
            for ax, a in zip(q, l):
                m = matmul(self.in_state(st, lambda: self.turn(ax, I.reify(a, st))), m)
            return self.rotation(m)
        if name.endswith('Rotation.from_matrix') and len(args) == 1:
            rows = self.vec(args[0], st)
            rows = rows and [self.vec(r, st) for r in rows]
            if rows and all(rows):
                return self.rotation(rows)
        if name == 'h5py.File':
            return self.S.sym('H5FILE')
        return super().ext(name, args, kwargs, st)

    def ometh(self, r, st):
        o, name, a, kw = r.args
        I = self.S.I
        if o.op == 'call' and o.args[0] == 'ROTATION':
            m = [list(o.args[1].args[3 * i:3 * i + 3]) for i in range(3)]
            if name in ('inv', 'as_matrix', 'apply') and name != 'apply' and not a.args:
                if name == 'inv':
                    return self.rotation([list(x) for x in zip(*m)])
                return self.arr([self.arr(x, st) for x in m], st)
            if name == 'apply' and a.args:
                d = dict(zip(('vectors', 'inverse'), a.args))
                d.update(dict(zip(kw.args[::2], kw.args[1::2])))
                if d.get('inverse', FALSE) is TRUE:
                    m = [list(x) for x in zip(*m)]
                elif d.get('inverse', FALSE) is not FALSE:
                    return None
                v = self.vec(d['vectors'], st)
                if v is None:
                    return None
                rows = [self.vec(x, st) for x in v]
                if all(x is not None for x in rows):
                    return self.arr([self.arr([add(*[mul(m[i][k], x[k]) for k in range(3)]) for i in range(3)], st) for x in rows], st)
                if len(v) == 3:
                    return self.arr([add(*[mul(m[i][k], v[k]) for k in range(3)]) for i in range(3)], st)
            return None
        if name == 'rhoc_z' and len(a.args) == 1 and arrays.any_array(I, a.args, st):
            return arrays.mapn(I, lambda z: self.in_state(st, lambda: self.S.r(self.rhoc_z(o, z))), list(a.args), st)
        if name == '__call__' and o.op == 'sym' and str(o.args[0]).startswith('PRESET'):
            self.presets.append((o, a, kw))
            S = self.S
            def los():
                l = S.new('pyHalo.single_realization:Realization', NONE, NONE, NONE, NONE, NONE, NONE, NONE, self.lc, halos=S.py([S.sym('LOS_HALO')]), geometry=S.sym('LOS_GEOMETRY'))
                self.los = l
                return l
            return self.in_state(st, los)
        if name == '__call__' and o in self.cb:
            return self.in_state(st, lambda: self.cb[o](list(a.args), st))
        return super().ometh(r, st)

    def call(self, fi, args, kwargs, st, node):
        I, S = self.S.I, self.S
        if fi.name == 'preset_model_from_name':
            env = I.bind(fi, args, kwargs, st, node)
            return mk('sym', 'PRESET:%s' % show(I.reify(env[fi.params[0]], st)))
        if fi.name == 'join' and fi.cls is not None and fi.cls.name == 'Realization':
            env = I.bind(fi, args, kwargs, st, node)
            a, b = env[fi.params[0]], env[fi.params[1]]
            def do():
                self.joined = (a, b)
                segs = []
                for r in (a, b):
                    l = I.simplify_value(S.attr(r, 'halos'), st)
                    e = arrays.entries(I, l, st)
                    if e is None:
                        return TM.unknown('halos of a realization')
                    segs += e
                return S.new('pyHalo.single_realization:Realization', NONE, NONE, NONE, NONE, NONE, NONE, NONE, S.attr(a, 'lens_cosmo'), halos=arrays.build(I, segs, st), geometry=S.attr(a, 'geometry'))
            return self.in_state(st, do)
        if fi.name in ('read_nodedata_galacticus',) and fi.cls is not None:
            env = I.bind(fi, args, kwargs, st, node)
            ps = env[fi.params[3]]
            self.files.append(env[fi.params[1]])
            l = self.vec(I.simplify_value(ps, st), st)
            if l is None:
                if ps is not NONE:
                    return None
                return self.in_state(st, lambda: self.table(self.keys))
            self.requests.append(l)
            return self.in_state(st, lambda: self.table([k for k, v in self.keys.items() if v in l or k in CUSTOM]))
        return super().call(fi, args, kwargs, st, node)

    # ---- specification
    def e(self, src, i=None, **env):
        S = self.S
        d = {p: self.v[k][i] for k, p in COLS.items()} if i is not None else {}
        d.update(env)
        return S.r(S.expr(src, d))

    def host(self, i):
        hosts = [j for j in range(self.n) if self.iso[j]]
        return hosts[self.order[i]]

    def criteria(self, i, mass='mb', tree=None):
        out = {'is a subhalo': const(self.iso[i] == 0)}
        out['inside the virial radius of its host'] = self.e('np.sqrt(x**2 + y**2 + z**2) < rh', i, rh=self.v['PARAM_RADIUS_VIRIAL'][self.host(i)])
        out['mass above the lower limit'] = self.e('%s > 10**lo' % mass, i, lo=self.S.sym('lo'))
        out['mass below the upper limit'] = self.e('%s < 10**hi' % mass, i, hi=self.S.sym('hi'))
        out['in the requested tree'] = self.e('tree == T', i, T=tree)
        return out


def const(b):
    return TRUE if b else FALSE


def direction(S):
    th, ph = S.sym('theta'), S.sym('phi')
    return [S.r(S.expr(x, dict(t=th, p=ph))) for x in ('np.sin(t)*np.cos(p)', 'np.sin(t)*np.sin(p)', 'np.cos(t)')]


def red(t):
    """sin**2 = 1 - cos**2, everywhere"""
    if t in RED:
        return RED[t]
    def f(u):
        return red(u) if u.op == 'poly' and u is not t else None
    p = TM._poly(t) if t.op == 'poly' else None
    if p is None:
        r = TM.subst(t, f)
    else:
        r = ZERO
        for m, c in p.items():
            term = mk('num', c) if not isinstance(c, TM.T) else c
            for b, e in m:
                if b.op == 'call' and b.args[0] == 'sin' and e.op == 'num' and e.args[0].denominator == 1 and e.args[0] >= 2:
                    k = int(e.args[0])
                    cos = mk('call', 'cos', *b.args[1:])
                    term = mul(term, power(sub(ONE, mul(cos, cos)), num(k // 2)), power(b, num(k % 2)))
                else:
                    term = mul(term, power(red(b), red(e) if e.op != 'num' else e))
            r = add(r, term)
    RED[t] = r
    return r


RED = {}


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def halos_of(R, real):
    """[(condition, halo)] of a realization, without the line-of-sight marker"""
    S = R.S
    e = arrays.entries(S.I, S.attr(real, 'halos'), S.st)
    if e is None:
        return None
    return [(c, h) for c, h in e if h is not S.sym('LOS_HALO')]


def settle(R, c, t):
    """t where c holds"""
    return decide.simp(R.S.r(t), p28.facts([c]), {})


def missing(ctx, key, R, w):
    """look-ups that fail whenever they are reached"""
    bad = [e for e in R.S.I.events if e.kind == 'badkey' and not [c for c in TM.walk(e.guard) if c.op == 'exc']]
    bad = [e for e in bad if decide.simp(e.guard, p28.facts(R.S.st.pc), {}) is not FALSE]
    for e in bad[:1]:
        ctx.violation(key + ':lookup', '%s (%s)' % (w, getattr(e.fn, 'qual', '')), 'looks up %s, which the data do not have' % show(e.data[1], 60), 'the columns used are those requested, under the given names')
    if not bad:
        ctx.ok(key + ':lookup', w, 'the columns used are those requested, under the given names')


def galacticus(ctx):
    fi = fn(EX + 'DMFromGalacticus')
    for tag, kw in (('bound', {}), ('infall', dict(mass_range_is_bound=FALSE)), ('own names', dict(own=True)), ('five', dict(n=5, iso=(0, 1, 0, 0, 1), order=(0, 0, 1, 1, 1))), ('file', dict(file=True)), ('filter', dict(filt=True)), ('params', dict(tab=True))):
        ctx.guard('import:' + tag, one, ctx, fi, 'import:' + tag, kw)


def one(ctx, fi, key, kw):
    kw = dict(kw)
    own, file, filt, tab, n = [kw.pop(k, d) for k, d in (('own', False), ('file', False), ('filt', False), ('tab', False), ('n', 4))]
    R = Rig(n, own, **{k: kw.pop(k) for k in ('iso', 'order') if k in kw})
    S = R.S
    w = where_fn(fi)
    args = dict(proj_angle_theta=S.sym('theta'), proj_angle_phi=S.sym('phi'), preset_model_los=TM.const('SOME_PRESET'), some_option=S.sym('option'), **kw)
    if kw.get('mass_range_is_bound') is FALSE:
        args['sigma_sub'] = S.sym('sigma_sub')
    if own:
        args['galacticus_utilities'] = R.gu
    seen = {}
    if filt:
        F = S.sym('FILTER')
        S.st.assume(bnot(TM.eq(F, NONE)))
        def f(a, st):
            seen['filter'] = a
            return R.arr([mk('eq', S.sym('keep%d' % i), ZERO) if False else TM.lt(ZERO, S.sym('keep%d' % i)) for i in range(n)], st)
        R.cb[F] = f
        args['nodedata_filter'] = F
    if tab:
        T = S.sym('TABULATE')
        S.st.assume(bnot(TM.eq(T, NONE)))
        def g(a, st):
            seen['tab'] = a
            col = S.I.get_item(a[0], R.keys['PARAM_MASS_BOUND'], st)
            gates = [c for c, _ in arrays.entries(S.I, col, st)]
            vals = [v for _, v in arrays.entries(S.I, col, st)]
            for v in vals:
                st.assume(bnot(TM.eq(mk('call', 'TAB_z_infall', mk('args', v), mk('kw')), NONE)))
            mkarr = lambda p: arrays.build(S.I, [(c, mk('call', 'TAB_' + p, mk('args', v), mk('kw'))) for c, v in zip(gates, vals)], st)
            return S.py({k: mkarr(k) for k in ('rv', 'rs', 'rhos', 'r_trunc_kpc', 'z_infall', 'index')})
        R.cb[T] = g
        args['galacticus_tabulate_tnfw_params'] = T
    data = R.data
    if file:
        data = TM.const('file.hdf5')
    out = S.call(fi, data, S.sym('zs'), S.sym('cone'), S.sym('T'), S.sym('lo'), S.sym('hi'), **args)
    ctx.saw(S)
    missing(ctx, key, R, w)
    if file:
        ctx.require(key + ':path', R.files == [TM.const('file.hdf5')] if R.files else None, w, 'the file read is not the one given', 'the given file is read')
    # line of sight
    if len(R.presets) != 1:
        ctx.require(key + ':los', None if not R.presets else False, w, 'the line-of-sight preset is evaluated %d times' % len(R.presets), 'one line-of-sight realization')
    else:
        o, a, k = R.presets[0]
        d = dict(zip(k.args[::2], k.args[1::2]))
        d = {(x.args[0] if isinstance(x, TM.T) else x): y for x, y in d.items()}
        d.update(dict(zip(('z_lens', 'z_source'), a.args)))
        ctx.require(key + ':los:name', o is mk('sym', 'PRESET:%s' % show(TM.const('SOME_PRESET'))), w, 'the line-of-sight preset is %s' % show(o), 'the requested preset renders the line of sight')
        for p, v in (('sigma_sub', ZERO), ('cone_opening_angle_arcsec', S.sym('cone')), ('z_source', S.sym('zs')), ('some_option', S.sym('option'))):
            ctx.require('%s:los:%s' % (key, p), p in d, w, 'the line of sight is rendered without %s' % p, 'the line of sight is rendered with the settings of the import') if p not in d else ctx.equal('%s:los:%s' % (key, p), d[p], v, w, rule='the line of sight is rendered with the settings of the import')
    hs = halos_of(R, out)
    if hs is None:
        ctx.undetermined(key, w, 'the halos are not a literal list')
        return
    z = d.get('z_lens') if len(R.presets) == 1 else None
    if z is None:
        return
    K = mk('call', 'KPC_PER_ARCSEC', mk('args', z), mk('kw'))
    nrm = direction(S)
    pos = [[R.v[k][i] for k in ('PARAM_X', 'PARAM_Y', 'PARAM_Z')] for i in range(n)]
    ids = {R.v['PARAM_NODE_ID'][i]: i for i in range(n)}
    if tab:
        ids = {mk('call', 'TAB_index', mk('args', R.v['PARAM_MASS_BOUND'][i]), mk('kw')): i for i in range(n)}
    got = {}
    for c, h in hs:
        q = settle(R, c, S.attr(h, 'id'))
        if q not in ids:
            if q.op in ('sym', 'num', 'call') and not any(u.op == 'unknown' for u in TM.walk(q)) and c is not FALSE:
                ctx.violation(key + ':id', w, 'an imported halo has the identifier %s' % show(q, 80), 'each halo is one node of the table')
            else:
                ctx.undetermined(key + ':id', w, show(q, 100))
            continue
        got.setdefault(ids[q], []).append((c, h))
    mass = 'mi' if kw.get('mass_range_is_bound') is FALSE else 'mb'
    xy = {}
    for i in range(n):
        l = got.get(i, [])
        have = red(bor(*[c for c, _ in l]) if l else FALSE)
        if filt:
            crit = {'the given filter': TM.lt(ZERO, S.sym('keep%d' % i))}
        else:
            crit = R.criteria(i, mass, R.e('int(np.round(T))', T=S.sym('T')))
            rn = dot(pos[i], nrm)
            r2 = power(sub(dot(pos[i], pos[i]), mul(rn, rn)), num(Fraction(1, 2)))
            crit['projected inside the cone'] = R.e('1000*r < cone/2*K', r=red(TM.subst(r2, lambda u: None)), cone=S.sym('cone'), K=K)
        want = red(band(*crit.values()))
        ctx.equal('%s:kept:%d' % (key, i), ite(have, ONE, ZERO), ite(want, ONE, ZERO), w, rule='a node becomes a halo exactly when it satisfies every criterion')
        if len(l) != 1:
            continue
        c, h = l[0]
        xy[i] = [mul(settle(R, c, S.attr(h, a)), K) for a in 'xy'] + [c]
        spec = dict(mass='mi', z_infall='zi', z='z0', is_subhalo='True', r3d='1000*np.sqrt(x**2 + y**2 + z**2)')
        par = dict(rs='1000*rs', rhos='4*rhos/1e9', r_trunc_kpc='1000*rt', rv='c*rs*1000')
        t = lambda k: mk('call', 'TAB_' + k, mk('args', R.v['PARAM_MASS_BOUND'][i]), mk('kw'))
        for a, s in spec.items():
            x = settle(R, c, S.attr(h, a))
            y = t('z_infall') if tab and a == 'z_infall' else R.e(s, i, z0=z) if a != 'is_subhalo' else TRUE
            ctx.equal('%s:%s:%d' % (key, a, i), ite(c, x, ZERO), ite(c, y, ZERO), w, rule='the data of a halo are those of its own node')
        pp = S.attr(h, 'params_physical')
        for a, s in par.items():
            x = settle(R, c, S.I.get_item(pp, TM.const(a), S.st))
            y = t(a) if tab else R.e(s, i)
            ctx.equal('%s:%s:%d' % (key, a, i), ite(c, x, ZERO), ite(c, y, ZERO), w, rule='the data of a halo are those of its own node')
    for i in sorted(xy):
        for j in sorted(xy):
            if j > i:
                continue
            a, b, g = xy[i], xy[j], band(xy[i][2], xy[j][2])
            p = add(mul(a[0], b[0]), mul(a[1], b[1]))
            s = mul(num(10 ** 6), sub(dot(pos[i], pos[j]), mul(dot(pos[i], nrm), dot(pos[j], nrm))))
            ctx.equal('%s:projection:%d,%d' % (key, i, j), red(p), red(s), w, rule='projected positions are the components perpendicular to the line of sight')
            if j < i:
                p = sub(mul(a[0], b[1]), mul(a[1], b[0]))
                s = mul(num(10 ** 6), dot(nrm, cross(pos[i], pos[j])))
                ctx.equal('%s:handedness:%d,%d' % (key, i, j), red(p), red(s), w, rule='the projection is a rotation, not a reflection')
    if filt and 'filter' in seen:
        a = seen['filter']
        for k in R.keys:
            x = arrays.entries(S.I, S.I.get_item(a[0], R.keys[k], S.st), S.st)
            ctx.require('%s:filter:%s' % (key, k), None if x is None else [v for _, v in x] == R.v[k] and all(c is TRUE for c, _ in x), w, 'the given filter does not receive the full table (%s)' % k, 'a given filter replaces the default ones')


def filters(ctx):
    for own in (False, True):
        t = 'own' if own else 'default'
        def call(name, *args):
            R = Rig(4, own)
            f = fn(GF + name)
            a = [R.S.sym(x) if isinstance(x, str) else x(R) if callable(x) else x for x in args]
            v = R.S.call(f, R.data, *a, **(dict(galacticus_util=R.gu) if own else {}))
            ctx.saw(R.S)
            return R, f, v

        def mask(name, args, spec):
            def go():
                R, f, v = call(name, *args)
                e = arrays.entries(R.S.I, v, R.S.st)
                key = 'filter:%s:%s' % (name, t)
                if e is None or len(e) != 4 or any(c is not TRUE for c, _ in e):
                    bad = p28.absent([R.S.r(v)])
                    if bad:
                        ctx.violation(key, where_fn(f), 'looks up %s, which the table does not have' % ', '.join(sorted(bad)), 'names are those of the given utilities')
                    else:
                        ctx.undetermined(key, where_fn(f), show(R.S.r(v), 120))
                    return
                for i in range(4):
                    x, y = R.S.r(e[i][1]), spec(R, i)
                    ctx.equal('%s:%d' % (key, i), ite(TM.truth(x), ONE, ZERO), ite(TM.truth(y), ONE, ZERO), where_fn(f), rule='%s selects the nodes it names' % name)
            ctx.guard('filter:' + name + ':' + t, go)
        mask('nodedata_filter_tree', ['T'], lambda R, i: R.e('tree == T', i, T=R.S.sym('T')))
        mask('nodedata_filter_subhalos', [], lambda R, i: const(R.iso[i] == 0))
        mask('nodedata_filter_halos', [], lambda R, i: const(R.iso[i] == 1))
        for k in ('PARAM_MASS_BOUND', 'PARAM_CONCENTRATION'):
            mask('nodedata_filter_range', [lambda R: R.arr([R.S.sym('a'), R.S.sym('b')], R.S.st), lambda R: R.keys[k]], lambda R, i: band(R.e('v > a', v=R.v[k][i], a=R.S.sym('a')), R.e('v < b', v=R.v[k][i], b=R.S.sym('b'))))
        mask('nodedata_filter_virialized', [], lambda R, i: R.criteria(i, tree=ONE)['inside the virial radius of its host'])
        def plane(R, i):
            return R.e('np.sqrt(x**2 + y**2 + z**2 - (x*n1 + y*n2 + z*n3)**2/(n1**2 + n2**2 + n3**2)) < m', i, m=R.S.sym('m'), **{'n%d' % j: R.S.sym('n%d' % j) for j in (1, 2, 3)})
        mask('nodedata_filter_r2d', ['m', lambda R: R.arr([R.S.sym('n1'), R.S.sym('n2'), R.S.sym('n3')], R.S.st)], plane)
        ctx.guard('select:' + t, select, ctx, t, own)
    ctx.guard('apply', apply_, ctx)


def apply_(ctx):
    f = fn(GF + 'nodedata_apply_filter')
    R = Rig(4)
    S = R.S
    g = [TM.lt(ZERO, S.sym('keep%d' % i)) for i in range(4)]
    out = S.call(f, R.data, R.arr(g, S.st))
    ctx.saw(S)
    for k in R.keys:
        e = arrays.entries(S.I, S.I.get_item(out, R.keys[k], S.st), S.st)
        ctx.require('apply:' + k, None if e is None else [(c, v) for c, v in e] == list(zip(g, R.v[k])), where_fn(f), 'column %s is not filtered like the others' % k, 'one selection for every column')


def select(ctx, t, own):
    f = fn(GF + 'nodedata_select_subhalo')
    R = Rig(4, own)
    S = R.S
    for i in range(4):
        for j in range(i):
            S.st.assume(bnot(TM.eq(R.v['PARAM_NODE_ID'][j], R.v['PARAM_NODE_ID'][i])))
    out = S.call(f, R.data, R.v['PARAM_NODE_ID'][2], **(dict(galacticus_util=R.gu) if own else {}))
    ctx.saw(S)
    pc = band(*S.st.pc)
    for k in R.keys:
        x = S.I.get_item(out, R.keys[k], S.st) if out.op == 'ref' else out
        ctx.equal('select:%s:%s' % (t, k), ite(pc, S.r(x), ZERO), ite(pc, R.v[k][2], ZERO), where_fn(f), rule='the node with the given identifier')


# ---------------------------------------------------------------- files
class FRig(p28.Rig):
    """an output file: groups are mappings, data sets are opaque"""
    def __init__(self, trees, outputs=('Output2', 'Other', 'Output10', 'Output9')):
        super().__init__(radii=True)
        S = self.S
        self.n = n = sum(trees)
        self.gu = S.new(GU)
        self.name = lambda k: S.attr(self.gu, k).args[0]
        self.sets = {}
        starts = [sum(trees[:i]) for i in range(len(trees))]
        self.index = [S.sym('treeindex%d' % i) for i in range(len(trees))]

        def ds(name, vals):
            d = S.sym('DSET_' + name)
            self.sets[d] = vals
            return d
        def group(o, vals):
            node = {k: ds(o + k, [S.sym('%s_%s%d' % (o, k, i)) for i in range(m)]) for k, m in (('a', n), ('b', n), ('short', n + 1))}
            return {self.name('HDF5_DSET_TREECOUNT'): ds(o + 'count', [num(x) for x in trees]), self.name('HDF5_DSET_TREEINDEX'): ds(o + 'index', self.index), self.name('HDF5_DSET_TREESTART'): ds(o + 'start', [num(x) for x in starts]),
                    self.name('HDF5_GROUP_NODEDATA'): node}
        self.f = S.py({self.name('HDF5_GROUP_OUTPUT_PRIMARY'): {o: group(o, None) for o in outputs}})

    def call(self, fi, args, kwargs, st, node):
        if fi.name == 'hdf5_read_dset':
            env = self.S.I.bind(fi, args, kwargs, st, node)
            d = self.S.I.simplify_value(env[fi.params[1]], st)
            if d in self.sets:
                return self.arr(self.sets[d], st)
            return TM.unknown('data set')
        return super().call(fi, args, kwargs, st, node)


def files(ctx):
    P = program()
    c = P.cls(GU)
    if c is None:
        raise Broken(GU)
    m = P.all_methods(c)
    for trees in ([2, 1], [3], [1, 1, 2]):
        ctx.guard('trees:%s' % trees, nodes, ctx, m['hdf5_read_custom_nodedata'], trees)
    ctx.guard('outputs', outputs, ctx, m['hdf5_read_output_indices'])


def nodes(ctx, fi, trees):
    R = FRig(trees)
    S = R.S
    out = S.meth(R.gu, 'hdf5_read_custom_nodedata', R.f, num(10))
    ctx.saw(S)
    where = [i for i, k in enumerate(trees) for _ in range(k)]
    want = dict(PARAM_TREE_INDEX=[R.index[i] for i in where], PARAM_TREE_ORDER=[num(i) for i in where], PARAM_NODE_ID=[num(i) for i in range(R.n)])
    for k, v in want.items():
        x = S.I.get_item(out, TM.const(R.name(k)), S.st) if out.op == 'ref' else out
        e = arrays.entries(S.I, x, S.st)
        key = 'trees:%s:%s' % (trees, k)
        if e is None or len(e) != R.n or any(c is not TRUE for c, _ in e):
            ctx.undetermined(key, where_fn(fi), show(S.r(x), 120))
            continue
        for i in range(R.n):
            ctx.equal('%s:%d' % (key, i), S.r(e[i][1]), v[i], where_fn(fi), rule='every node is labelled with its own tree')
    x = S.meth(R.gu, 'hdf5_read_nodecount_total', R.f, num(10))
    ctx.equal('trees:%s:total' % trees, S.r(x), num(R.n), where_fn(fi), rule='the number of nodes is the sum over trees')


def outputs(ctx, fi):
    R = FRig([2, 1])
    S = R.S
    v = S.meth(R.gu, 'hdf5_read_output_indices', R.f)
    ctx.saw(S)
    e = arrays.entries(S.I, v, S.st)
    ok = lambda c: TM.subst(c, lambda u: FALSE if u.op == 'exc' else None)
    e = None if e is None else [(ok(c), x) for c, x in e if ok(c) is not FALSE]
    ctx.require('outputs', None if e is None or any(x.op != 'num' or c is not TRUE for c, x in e) else sorted(int(x.args[0]) for _, x in e) == [2, 9, 10], where_fn(fi), 'the outputs found are %s' % show(S.r(v), 80), 'every output of the file is found')


# ---------------------------------------------------------------- emulator
def emulator(ctx):
    ctx.guard('emulator', emulated, ctx, fn(EX + 'DMSubhalosFromEmulator'), False)
    ctx.guard('joint', emulated, ctx, fn(EX + 'JointLOSWithEmulator'), True)


def emulated(ctx, fi, joint):
    R = Rig(4)
    S = R.S
    w = where_fn(fi)
    key = 'joint' if joint else 'emulator'
    names = ('mass', 'conc', 'bound', 'zinf', 'rt', 'xm', 'ym')
    D = S.sym('DATA')
    v = {k: [S.sym('%s%d' % (k, i)) for i in range(3)] for k in names}
    for x in v['zinf']:
        S.st.assume(bnot(TM.eq(x, NONE)))
    R.cb[D] = lambda a, st: mk('tup', *[R.arr(v[k], st) for k in names])
    if joint:
        out = S.call(fi, R.zl, R.zs, D, S.sym('cone'), TM.const('SOME_PRESET'), some_option=S.sym('option'))
    else:
        out = S.call(fi, R.zl, R.zs, D, S.sym('cone'))
    ctx.saw(S)
    hs = halos_of(R, out)
    if hs is None or len(hs) != 3 or any(c is not TRUE for c, _ in hs):
        ctx.undetermined(key, w, 'the halos are not a literal list') if hs is None else ctx.violation(key, w, '%d halos for three emulated subhalos' % len(hs), 'every emulated subhalo becomes one halo')
        return
    lc = S.attr(hs[0][1], 'lens_cosmo')
    rho = S.r(S.expr('L.rhoc_z(z)*L.h**2', dict(L=lc, z=R.zl))) if False else S.r(S.expr('N.rhoc_z(z)*h**2', dict(N=S.attr(lc, '_nfw_param'), z=R.zl, h=S.attr(lc, 'h'))))
    K = mk('call', 'KPC_PER_ARCSEC', mk('args', R.zl), mk('kw'))
    for i, (_, h) in enumerate(hs):
        g = lambda a: S.r(S.attr(h, a))
        pp = S.attr(h, 'params_physical')
        p = {k: S.r(S.I.get_item(pp, TM.const(k), S.st)) for k in ('rs', 'rhos', 'rv', 'r_trunc_kpc')}
        e = lambda s, **k: S.r(S.expr(s, dict({q: v[q][i] for q in names}, rho=rho, K=K, **k)))
        for a, s in (('mass', 'mass'), ('z_infall', 'zinf'), ('x', '1000*xm/K'), ('y', '1000*ym/K'), ('c', 'conc')):
            ctx.equal('%s:%s:%d' % (key, a, i), g(a), e(s), w, rule='the data of a halo are those of its own entry')
        ctx.equal('%s:z:%d' % (key, i), g('z'), R.zl, w, rule='emulated subhalos lie at the lens')
        ctx.equal('%s:is_subhalo:%d' % (key, i), g('is_subhalo'), TRUE, w, rule='emulated subhalos are subhalos')
        ctx.equal('%s:r_trunc_kpc:%d' % (key, i), p['r_trunc_kpc'], e('1000*rt'), w, rule='truncation radii are converted to kpc') if False else None
        ctx.equal('%s:rs:%d' % (key, i), mul(p['rs'], v['conc'][i]), p['rv'], w, rule='scale radius = virial radius over concentration')
        ctx.equal('%s:rv:%d' % (key, i), power(p['rv'], num(3)), e('1e9*3*mass/(4*np.pi*200*rho)'), w, rule='the virial mass is the infall mass')
        ctx.equal('%s:rhos:%d' % (key, i), mul(p['rhos'], power(p['rs'], num(3))), e('mass/(4*np.pi*(np.log(1+conc) - conc/(1+conc)))'), w, rule='the NFW mass inside the virial radius is the infall mass')
    geo = S.attr(out, 'geometry')
    if geo.op == 'call' and geo.args[0] == 'new:Geometry':
        vals = list(geo.args[1].args) + list(geo.args[2].args[1::2])
        for q, x in (('cone', S.sym('cone')), ('z_lens', R.zl), ('z_source', R.zs)):
            ctx.require(key + ':' + q, x in vals, w, 'the rendering volume is made without %s' % q, 'the rendering volume is the requested one')
    else:
        ctx.undetermined(key + ':cone', w, show(geo, 100))
    if not joint:
        return
    if len(R.presets) != 1:
        ctx.require('joint:los', None if not R.presets else False, w, 'the line-of-sight preset is evaluated %d times' % len(R.presets), 'one line-of-sight realization')
        return
    o, a, k = R.presets[0]
    d = dict(zip([x.args[0] if isinstance(x, TM.T) else x for x in k.args[::2]], k.args[1::2]))
    d.update(dict(zip(('z_lens', 'z_source'), a.args)))
    for q, x in (('z_lens', R.zl), ('z_source', R.zs), ('cone_opening_angle_arcsec', S.sym('cone')), ('some_option', S.sym('option'))):
        if q not in d:
            ctx.violation('joint:los:' + q, w, 'the line of sight is rendered without %s' % q, 'the line of sight is rendered with the settings of the import')
        else:
            ctx.equal('joint:los:' + q, d[q], x, w, rule='the line of sight is rendered with the settings of the import')
    hl = arrays.entries(S.I, S.attr(out, 'halos'), S.st)
    ctx.require('joint:all', None if hl is None else S.sym('LOS_HALO') in [h for _, h in hl], w, 'the line-of-sight halos are missing', 'both sets of halos are kept')


def run(ctx):
    filters(ctx)
    galacticus(ctx)
    files(ctx)
    emulator(ctx)
