"""P16 mass sheets are negative and match the population they compensate."""
from .common import *
from .sheets import *
from .p01 import parent, session, assume_centre, RZ

EXPLAIN = ("The sheet requests of every population class and their assembly in Realization.lensing_quantities are evaluated as list terms "
           "over symbolic planes, limits and settings. The mean mass is required to be the first moment of the very mass-function object "
           "whose draw() renders the population, built with the sheet limits (or the population's own limits when requested); sign, "
           "scale, area, critical density, redshift range and centre are compared with the definition.")
ASSUME = ['first_moment of a mass function is decided in P18', 'sigma_crit_mass and angle_to_physical_area are decided in P21']
FLOOR = 40


def drawn(S, masses):
    """mass-function objects whose draw() gives the rendered masses"""
    out = []
    for u in TM.walk(masses):
        if u.op == 'meth' and u.args[1] == 'draw' and u.args[0] not in out:
            out.append(u.args[0])
    return out


def sess():
    return Session(Config(opaque_classes=['LensCosmo', 'Cosmology', 'Geometry']))


def where(cls):
    P = program()
    fi = P.lookup(P.cls(cls), 'convergence_sheet_correction')
    if fi is None:
        raise Broken('convergence_sheet_correction not found')
    return where_fn(fi)


def get(S, o, k):
    return S.I.get_item(o, num(k), S.st)


def sub_sheet(ctx):
    w = where(SUB)
    for norm in ('sigma_sub', 'dndA'):
        for own in (False, True):
            for host in ('host_m200', 'log_m_host'):
                S = sess()
                kw = {} if host == 'host_m200' else {'log_m_host': S.sym('log_m_host')}

                def kws(S, limits):
                    k = kw_sub(S, limits, norm)
                    if host == 'log_m_host':
                        d = dict(S.I.obj(S.st, k).items)
                        S.I.del_item(k, const('host_m200'), S.st, None)
                        S.I.set_item(k, const('log_m_host'), S.sym('log_m_host'), S.st, None)
                    return k
                # the object that would be rendered with the limits of the sheet
                r0 = sub_class(S, kws(S, ('mlo', 'mhi') if own else ('a', 'b')))
                X = drawn(S, S.r(get(S, S.meth(r0, 'render'), 0)))
                if len(X) != 1:
                    raise Broken('subhalo rendering does not draw from one mass function')
                X = X[0]
                r = sub_class(S, kws(S, ('mlo', 'mhi')))
                o = S.meth(r, 'convergence_sheet_correction', S.sym('scale'), limit(S, 'a'), limit(S, 'b'), TRUE if own else FALSE)
                env = dict(X=X, scale=S.sym('scale'), geo=geom(S), L=lens(S))
                spec = ('[{"kappa": -scale*X.first_moment/L.sigma_crit_mass(L.z_lens, geo.angle_to_physical_area(geo.cone_opening_angle/2, L.z_lens))} for i in range(1) if X.first_moment != 0]',
                        '["CONVERGENCE" for i in range(1) if X.first_moment != 0]', '[L.z_lens for i in range(1) if X.first_moment != 0]')
                for i, (nm, e) in enumerate(zip(('kappa', 'profile', 'redshift'), spec)):
                    ctx.equal('sub:%s:%s:%s:%s' % (norm, 'own' if own else 'sheet', host, nm), S.r(get(S, o, i)), S.r(S.expr(e, env)), w,
                              'subhalo sheet at the lens plane: minus scale x mean rendered mass / critical mass')
                ctx.saw(S)


def los_sheet(ctx):
    w = where(LOS)
    for own in (False, True):
        for rng in ('given', 'default'):
            for form in ('num', 'callable'):
                S = sess()
                zs, dzs = S.py([S.sym('z1'), S.sym('z2')]), S.py([S.sym('dz1'), S.sym('dz2')])
                lim = ('mlo', 'mhi') if own else ('a', 'b')
                kwd = kw_los(S, lim, form)
                r0 = los_class(S, kwd, zs, dzs)
                X = drawn(S, S.r(get(S, S.meth(r0, 'render'), 0)))
                if len(X) != 2:
                    raise Broken('line-of-sight rendering does not draw once per plane')
                zo = {u: (1 if contains_sym(u, 'z1') else 2) for u in X}
                X1 = [u for u in X if zo[u] == 1][0]
                X2 = [u for u in X if zo[u] == 2][0]
                r = los_class(S, kw_los(S, ('mlo', 'mhi'), form), zs, dzs)
                a = [S.sym('scale'), limit(S, 'a', form), limit(S, 'b', form)]
                if rng == 'given':
                    a += [S.sym('zmin'), S.sym('zmax')]
                    S.st.assume(bnot(TM.eq(S.sym('zmin'), NONE)))
                    S.st.assume(bnot(TM.eq(S.sym('zmax'), NONE)))
                    lo, hi = S.sym('zmin'), S.sym('zmax')
                else:
                    a += [NONE, NONE]
                    lo, hi = ZERO, S.attr(geom(S), '_zsource')
                o = S.meth(r, 'convergence_sheet_correction', *(a + [TRUE if own else FALSE]))
                env = dict(planes=S.py([(S.sym('z1'), X1), (S.sym('z2'), X2)]), scale=S.sym('scale'), geo=geom(S), L=lens(S), lo=lo, hi=hi)
                K = 'X.first_moment/L.sigma_crit_mass(z, geo.angle_to_physical_area(geo.cone_opening_angle/2, z))'
                tail = ' for z, X in planes if lo <= z and z <= hi and %s > 0]' % K
                for i, (nm, e) in enumerate(zip(('kappa', 'profile', 'redshift'), ('{"kappa": -scale*%s}' % K, '"CONVERGENCE"', 'z'))):
                    ctx.equal('los:%s:%s:%s:%s' % ('own' if own else 'sheet', rng, form, nm), S.r(get(S, o, i)), S.r(S.expr('[' + e + tail, env)), w,
                              'one negative sheet per plane inside the redshift range', asg={('b', TM.eq(S.sym('zmin'), NONE)): False, ('b', TM.eq(S.sym('zmax'), NONE)): False})
                ctx.saw(S)


def contains_sym(u, n):
    return any(x is TM.sym(n) for x in TM.walk(u))


def none_sheet(ctx):
    for cls, nm in ((NOS, 'nosheet'), (TWO, 'two')):
        S = sess()
        r = rclasses(S, nm)[0]
        o = S.meth(r, 'convergence_sheet_correction', S.sym('scale'), S.sym('a'), S.sym('b'), S.sym('zmin'), S.sym('zmax'), FALSE)
        for i in range(3):
            ctx.equal('%s:empty%d' % (nm, i), S.r(get(S, o, i)), S.r(S.py([])), where(cls), 'this population has no sheets')


def assembly(ctx):
    P = program()
    fi = P.lookup(P.cls(RZ), 'lensing_quantities')
    w = where_fn(fi)
    for own in (False, True):
        for given in (True, False):
            S = sess()
            zs, dzs = S.sym('zs'), S.sym('dzs')
            rs, rl = sub_class(S), los_class(S)
            par = parent(S, S.py([]))
            S.I.set_attr(par, 'rendering_classes', S.py([rs, None, rl]), S.st, None)
            S.I.set_attr(par, 'apply_mass_sheet_correction', TRUE, S.st, None)
            v = {k: S.sym(k) for k in ('kappa_scale_subhalos', 'kappa_scale', 'log_mlow_sheets', 'log_mhigh_sheets', 'zmin', 'zmax')} if given else \
                dict(kappa_scale_subhalos=num(1), kappa_scale=num(1), log_mlow_sheets=num(7), log_mhigh_sheets=num(10), zmin=NONE, zmax=NONE)
            kw = dict(kwargs_mass_sheet=S.py(v)) if given else {}
            if own:
                kw['use_class_mass_ranges'] = TRUE
            out = S.meth(par, 'lensing_quantities', **kw)
            os_ = S.meth(rs, 'convergence_sheet_correction', v['kappa_scale_subhalos'], v['log_mlow_sheets'], v['log_mhigh_sheets'], TRUE if own else FALSE)
            ol = S.meth(rl, 'convergence_sheet_correction', v['kappa_scale'], v['log_mlow_sheets'], v['log_mhigh_sheets'], v['zmin'], v['zmax'], TRUE if own else FALSE)
            tag = '%s:%s' % ('own' if own else 'sheet', 'given' if given else 'default')
            env = dict(a=get(S, os_, 2), b=get(S, ol, 2), ka=get(S, os_, 0), kb=get(S, ol, 0), cx=S.sym('cx'), cy=S.sym('cy'), LC=S.sym('lens_cosmo'))
            ctx.equal('assembly:%s:redshifts' % tag, S.r(get(S, out, 1)), S.r(S.expr('a+b', env)), w, 'each sheet sits at the redshift of its population')
            kws = as_seq(S.r(get(S, out, 2)))
            want = TM.zip_segs(list(as_seq(S.r(S.expr('ka+kb', env))).args), [list(as_seq(S.r(S.expr('a+b', env))).args)],
                               lambda e, es: centred(S, e, es[0], env))
            if want is None:
                ctx.undetermined('assembly:%s:kwargs' % tag, w, 'sheet lists could not be aligned')
            else:
                ctx.equal('assembly:%s:kwargs' % tag, kws, mk('seq', *want), w, 'kappa of each population centred on the rendering axis at its comoving distance', asg=assume_centre())
            ctx.saw(S)


def centred(S, e, z, env):
    d = as_dict(e)
    if d is None:
        return None
    D = S.r(S.expr('LC.cosmo.D_C_z(z)', dict(env, z=z)))
    x = S.r(S.expr('cx(D)', dict(env, D=D)))
    y = S.r(S.expr('cy(D)', dict(env, D=D)))
    dd = {'kappa': d['kappa'], 'ra_0': x, 'dec_0': y}
    fl = []
    for k in sorted(dd, key=lambda k: TM.show(const(k))):
        fl += [const(k), dd[k]]
    return mk('dict', *fl)


def exact(ctx):
    P = program()
    w = where_fn(P.lookup(P.cls(RZ), 'lensing_quantities'))
    S = sess()
    par = parent(S)
    S.I.set_attr(par, 'apply_mass_sheet_correction', TRUE, S.st, None)
    S.I.set_attr(par, 'halos', S.py([]), S.st, None)
    S.I.set_attr(par, 'geometry', geom(S), S.st, None)
    out = S.meth(par, 'lensing_quantities', kwargs_mass_sheet={'subtract_exact_sheets': True})
    got = as_seq(S.r(get(S, out, 2)))
    zs = S.r(get(S, out, 1))
    S2 = S
    env = dict(par=par, geo=geom(S), LC=S.sym('lens_cosmo'), cx=S.sym('cx'), cy=S.sym('cy'), zs=zs)
    want = S.r(S.expr('[{"kappa": -par.mass_at_z_exact(z)/LC.sigma_crit_mass(z, geo.angle_to_physical_area(geo.cone_opening_angle/2, z)), "ra_0": cx(LC.cosmo.D_C_z(z)), "dec_0": cy(LC.cosmo.D_C_z(z))} for z in zs]', env))
    ctx.equal('exact:kwargs', got, want, w, 'exact sheets compensate the mass of each lens plane')


def run(ctx):
    ctx.guard('sub', sub_sheet, ctx)
    ctx.guard('los', los_sheet, ctx)
    ctx.guard('none', none_sheet, ctx)
    ctx.guard('assembly', assembly, ctx)
    ctx.guard('exact', exact, ctx)
