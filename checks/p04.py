"""P04 halo selection applies exactly the documented criterion."""
from .member import *
from .halos import *
from .p01 import RZ, parent

EXPLAIN = ("Each selection is evaluated on a symbolic realization of two symbolic halos (arbitrary mass, position, redshift, status; for the aperture "
           "filter also with every order of two distinct redshifts and with equal ones, because its result is assembled plane by plane) and two rays; the "
           "condition under which each halo is in the result is compared, as a boolean formula, with the documented criterion written for that halo alone.")
ASSUME = ['ray-coordinate functions map comoving distances element by element']
FLOOR = 12
ELEM = ['x0', 'x1', 'y0', 'y1']
SY = ('a', 'lm', 'x0', 'x1', 'y0', 'y1', 'wm', 'z0', 'mb', 'ax', 'ay', 'mr')


def world(zs=None, n=2):
    S = Session(Config(opaque=LENS, opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], arrays=True, elementwise=ELEM))
    H = [make(S, S.prog.cls(HM + 'TNFW:TNFWSubhalo'), tag=t) for t in ('A', 'B')[:n]]
    if zs:
        for h, z in zip(H, zs):
            S.I.set_attr(h, 'z', num(z), S.st, None)
    R = parent(S, S.py(H))
    return S, H, R, dict(R=R, **{x: S.sym(x) for x in SY})


def distance(unit, geo):
    w = 'np.clip(D*(CS-D)/(CS/2)**2, wm, 1.0)' if geo else '1'
    f = '*np.pi/(180*3600)*D*1e3' if unit == 'KPC' else ''
    return ' or '.join('np.sqrt((h.x-x%d(D))**2+(h.y-y%d(D))**2)%s <= a*%s' % (i, i, f, w) for i in (0, 1))


def criterion(S, env, h, src):
    e = dict(env, h=h)
    if 'CS' in src or 'D' in src:
        e['D'] = S.expr('R.lens_cosmo.cosmo.D_C_z(h.z)', e)
        e['CS'] = S.expr('R.lens_cosmo.cosmo.D_C_z(R.lens_cosmo.z_source)', e)
    return S.I.truth_of(S.expr(src, e), S.st)


def check(ctx, key, w, src, crit, zs=None, pick=None, n=2, rule=''):
    """membership of each halo in the halos returned by src equals crit"""
    S, H, R, env = world(zs, n)
    v = S.expr(src, env)
    pc = band(*S.st.pc)
    if is_inst(S, v, 'Realization'):
        v = S.attr(v, 'halos')
    m, other = membership(S, v, H)
    if m is None or other:
        return ctx.undetermined(key, w, 'result list not recognised' if m is None else 'unrecognised entry %s' % TM.show(other[0][1], 4)[:200])
    for h, t in zip(H, 'AB'):
        ctx.equal('%s:%s' % (key, t), band(pc, anyof(m[h])), band(pc, criterion(S, env, h, crit)), w, rule or crit)
    ctx.saw(S)


def run(ctx):
    P = program()
    rz = P.cls(RZ)
    if rz is None:
        raise Broken('Realization not found')

    def w(n):
        fi = P.lookup(rz, n)
        if fi is None:
            raise Broken('Realization.%s not found' % n)
        return where_fn(fi)

    def go(key, name, *a, **k):
        ctx.guard(key, check, ctx, key, w(name), *a, **k)

    for unit in ('ANGLES', 'KPC'):
        for geo in (True, False):
            src = "R.filter(a, lm, [x0, x1], [y0, y1], aperture_units='%s', geometric_weighting=%s, w_min=wm)" % (unit, geo)
            crit = 'abs(h.mass) >= 10**lm or ' + distance(unit, geo)
            for lab, zs in (('lower', (0.3, 0.5)), ('upper', (0.5, 0.3)), ('same', (0.4, 0.4))):
                go('filter:%s:%s:%s' % (unit, 'weighted' if geo else 'plain', lab), 'filter', src, crit, zs)
            go('filter:%s:%s:one' % (unit, 'weighted' if geo else 'plain'), 'filter', src, crit, None, n=1)
    go('filter:defaults', 'filter', "R.filter(a, lm, [x0, x1], [y0, y1])", ('abs(h.mass) >= 10**lm or ' + distance('ANGLES', True)).replace('wm', '0.1'), None, n=1)

    def unknown():
        S, H, R, env = world(None, 1)
        v = S.expr("R.filter(a, lm, [x0, x1], [y0, y1], aperture_units='furlongs')", env)
        if v.op == 'bottom':
            return ctx.ok('filter:unknown-unit', w('filter'))
        pc = band(*S.st.pc)
        ctx.equal('filter:unknown-unit', band(pc, bnot(criterion(S, env, H[0], 'abs(h.mass) >= 10**lm'))), FALSE, w('filter'),
                  'an unknown unit raises whenever a distance has to be judged')
    ctx.guard('filter:unknown-unit', unknown)
    go('filter_subhalos', 'filter_subhalos', 'R.filter_subhalos(a, lm, [x0, x1], [y0, y1])',
       'not h.is_subhalo or abs(h.mass) > 10**lm or ' + ' or '.join('np.hypot(h.x-x%d, h.y-y%d) < a' % (i, i) for i in (0, 1)))
    go('filter_bound_mass', 'filter_bound_mass', 'R.filter_bound_mass(mb)', 'not h.is_subhalo or h.bound_mass >= mb')
    go('split_at_z:first', 'split_at_z', 'R.split_at_z(z0)[0]', 'h.z <= z0')
    go('split_at_z:second', 'split_at_z', 'R.split_at_z(z0)[1]', 'h.z > z0')
    go('halos_at_z', 'halos_at_z', 'R.halos_at_z(z0)[0]', 'h.z == z0')
    go('subhalos', 'subhalos', 'R.subhalos', 'h.is_subhalo')
    go('field_halos', 'field_halos', 'R.field_halos', 'not h.is_subhalo')

    def plane():
        fi = P.func('pyHalo.single_realization:realization_at_z')
        if fi is None:
            raise Broken('realization_at_z not found')
        for lab, args, crit in (('all', (), 'h.z == z0'), ('range', ('ax', 'ay', 'mr'), 'h.z == z0 and ((h.x-ax)**2+(h.y-ay)**2)**0.5 < mr')):
            S, H, R, env = world()
            for a in args:
                S.st.assume(bnot(TM.eq(env[a], NONE)))
            v = S.call(fi, R, env['z0'], *[env[a] for a in args])
            real, ind = S.I.get_item(v, num(0), S.st), S.I.get_item(v, num(1), S.st)
            m, other = membership(S, S.attr(real, 'halos'), H)
            pc = band(*S.st.pc)
            if m is None or other:
                ctx.undetermined('realization_at_z:' + lab, where_fn(fi), 'result list not recognised')
                continue
            es = entries(S, ind)
            for i, (h, t) in enumerate(zip(H, 'AB')):
                want = band(pc, criterion(S, env, h, crit))
                ctx.equal('realization_at_z:%s:%s' % (lab, t), band(pc, anyof(m[h])), want, where_fn(fi), crit)
                if es is None:
                    ctx.undetermined('realization_at_z:%s:%s:index' % (lab, t), where_fn(fi), 'index list not recognised')
                else:
                    ctx.equal('realization_at_z:%s:%s:index' % (lab, t), band(pc, anyof([band(c, TM.eq(x, num(i))) for c, x in es])), want,
                              where_fn(fi), 'the indexes returned are those of the halos kept')
            ctx.saw(S)
    ctx.guard('realization_at_z', plane)

    def counts():
        for n, c in (('number_of_halos_before_redshift', 'h.z < z0'), ('number_of_halos_after_redshift', 'h.z > z0'), ('number_of_halos_at_redshift', 'h.z == z0')):
            S, H, R, env = world()
            got = S.r(S.meth(R, n, env['z0']))
            want = S.r(S.expr(' + '.join('(1 if %s else 0)' % c.replace('h.', h + '.') for h in ('hA', 'hB')), dict(env, hA=H[0], hB=H[1])))
            ctx.equal(n, got, want, w(n), 'number of halos with ' + c)
            ctx.saw(S)
        S, H, R, env = world()
        got = S.r(S.meth(R, 'mass_at_z_exact', env['z0']))
        def one(h, lens):
            return S.expr('0 if h.z != z0 else (%s)' % ('h.bound_mass if h.is_subhalo else h.mass' if lens else 'h.mass'), dict(env, h=h))
        zl = S.attr(S.attr(R, 'lens_cosmo'), 'z_lens')
        tot = lambda lens: add(S.r(one(H[0], lens)), S.r(one(H[1], lens)))
        ctx.equal('mass_at_z_exact', got, ite(TM.eq(env['z0'], zl), tot(True), tot(False)), w('mass_at_z_exact'),
                  'total mass at a redshift; bound masses of subhalos on the lens plane')
        ctx.saw(S)
    ctx.guard('counts', counts)
