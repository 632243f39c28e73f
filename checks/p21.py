"""P21 unit conversions follow their definitions."""
from .common import *

EXPLAIN = ("Each public conversion of Cosmology, Geometry (all three volume types) and LensCosmo is evaluated abstractly on symbolic "
           "redshifts, masses and cosmology; the resulting value term is compared in polynomial normal form with a term "
           "transcribed from the definition (every power of h, 1+z, unit constant and solid angle), for all inputs at once.")
ASSUME = ['astropy, colossus and lenstronomy functions return what their documentation says',
          'linear interpolation of a table of f equals f']
FLOOR = 60
COS = 'pyHalo.Cosmology.cosmology:Cosmology'
GEO = 'pyHalo.Cosmology.geometry:Geometry'
LEN = 'pyHalo.Halos.lens_cosmo:LensCosmo'
PRIM = ['Cosmology.' + m for m in ('D_A', 'D_A_z', 'D_C_z', 'D_C_transverse', 'kpc_proper_per_asec', 'halo_age')]


def interp_call(t):
    """(x grid, y table, kwargs) of an interpolation object"""
    if t.op == 'call' and t.args[0] == 'scipy.interpolate.interp1d':
        a = list(t.args[1].args)
        if len(a) == 2:
            return a[0], a[1], t.args[2]
    return None


def interp_tables(t):
    return {u for u in TM.walk(t) if interp_call(u)}


def cosmology(ctx):
    P = program()
    ci = P.cls(COS)
    if ci is None:
        raise Broken('Cosmology not found')

    # class constants (SI values converted to Mpc, solar masses, seconds): 0.5 per cent tolerance
    S = Session()
    Mpc, Ms = 3.0856776e22, 1.98847e30
    import math
    for n, val in (('c', 299792458 / Mpc), ('G', 6.674e-11 * Ms / Mpc ** 3), ('arcsec', math.pi / 648000),
                   ('density_to_MsunperMpc', 0.001 * 100 ** 3 * Mpc ** 3 / Ms)):
        C = S.sym('C', COS)
        t = S.r(S.attr(C, n))
        from engine import ri
        if TM.leaves(t) if hasattr(TM, 'leaves') else decide.leaves(t):
            ctx.undetermined('constant:' + n, '', 'not a number: ' + TM.show(t))
            continue
        v = ri.evaluate(t, 0, {})
        ctx.require('constant:' + n, abs(v.real / val - 1) < 5e-3, 'pyHalo/Cosmology/cosmology.py Cosmology.' + n,
                    'value %g, expected %g' % (v.real, val), 'unit constants are the SI values in Mpc, solar mass and second')

    def mk_(opq=()):
        # no query has been made before: the memo dictionaries are empty (history independence is P25)
        S = Session(Config(opaque=opq))
        A = S.sym('astropy')
        S.st.assume(bnot(TM.eq(A, NONE)))
        C = S.new(ci, A)
        for f, v in list(S.I.obj(S.st, C).fields.items()):
            if v.op == 'ref' and S.I.obj(S.st, v).kind == 'dict':
                S.I.obj(S.st, C).fields[f] = S.I.new_dict(S.st, {})
        return S, A, C

    def undo(S, A, t):
        """expand the opaque two-redshift distance (decided on its own below)"""
        def f(u):
            if u.op == 'meth' and u.args[1] == 'D_A' and len(u.args[2].args) == 2:
                a, b = u.args[2].args
                return S.r(S.expr('astropy.angular_diameter_distance_z1z2(a, b).value', dict(astropy=A, a=a, b=b)))
            return None
        return TM.subst(t, f)

    def w(n):
        fi = P.lookup(ci, n)
        if fi is None:
            raise Broken('Cosmology.%s not found' % n)
        return where_fn(fi)

    def simple(name, args, spec):
        S, A, C = mk_()
        env = {a: S.sym(a) for a in args}
        got = S.r(S.meth(C, name, *[env[a] for a in args]))
        e = dict(env, astropy=A, C=C)
        ctx.equal('Cosmology.' + name, got, S.r(S.expr(spec, e)), w(name), name + ' = ' + spec)
        ctx.saw(S)
    simple('scale_factor', ['z'], '1/(1+z)')
    simple('E_z', ['z'], 'astropy.efunc(z)')
    simple('D_C_transverse', ['z'], 'astropy.comoving_transverse_distance(z).value')
    simple('rho_crit', ['z'], 'astropy.critical_density(z).value * C.density_to_MsunperMpc')
    S, A, C = mk_()
    ctx.equal('Cosmology.rho_dark_matter_crit', S.r(S.attr(C, 'rho_dark_matter_crit')),
              S.r(S.expr('astropy.Odm(0)*astropy.critical_density(0).value*C.density_to_MsunperMpc', dict(astropy=A, C=C))),
              w('rho_dark_matter_crit'), 'comoving dark-matter density')
    ctx.equal('Cosmology.h', S.r(S.attr(C, 'h')), S.r(S.expr('astropy.h', dict(astropy=A))), w('__init__'), 'h of the cosmology')

    def table(name, args, ytab, extra, label):
        """scalar query: interpolation of the tabulated definition, or the definition itself"""
        S, A, C = mk_(['Cosmology.D_A'])
        zs = [S.sym(a) for a in args]
        got = undo(S, A, S.r(S.meth(C, name, *zs)))
        env = dict(astropy=A, C=C, **dict(zip(args, zs)))
        tabs = interp_tables(got)
        allowed = []
        for t in tabs:
            x, y, kw = interp_call(t)
            allowed.append((t, x, y, kw))
        okt = []
        for t, x, y, kw in allowed:
            S2, A2, C2 = mk_()
            want = S2.r(S2.expr(ytab, dict(astropy=A2, zz=x, C=C2)))
            st, info = decide.verdict(y, want, None, ctx.budget)
            if st == 'equal':
                okt.append(t)
                ctx.ok('Cosmology.%s:table' % name, w(name), label)
            elif st == 'differ':
                ctx.violation('Cosmology.%s:table' % name, w(name), str(info), 'the table of %s is %s' % (name, label))
            else:
                ctx.undetermined('Cosmology.%s:table' % name, w(name), info)
        return S, A, C, got, env, okt

    A1 = '[astropy.angular_diameter_distance_z1z2(0, zi).value for zi in zz]'
    for name, ytab, direct in (
            ('D_A_z', A1, 'astropy.angular_diameter_distance_z1z2(0, z).value'),
            ('D_C_z', '[astropy.comoving_transverse_distance(zi).value for zi in zz]', None),
            ('kpc_proper_per_asec', '[1/astropy.arcsec_per_kpc_proper(zi).value for zi in zz]', '1/astropy.arcsec_per_kpc_proper(z).value')):
        def f(name=name, ytab=ytab, direct=direct):
            S, A, C, got, env, okt = table(name, ['z'], ytab, None, name)
            z = env['z']
            allowed = [S.I.apply(t, [z], [], S.st) for t in okt]
            allowed += [mk('meth', t, '__call__', mk('args', z), mk('kw')) for t in okt]
            if name == 'D_C_z':
                allowed = allowed + [S.expr('astropy.comoving_transverse_distance(z).value', env)]
                # the fall-back outside the table is derived from the angular diameter distance
                dtabs = [t for t in interp_tables(got) if t not in okt]
                allowed += [mul(add(ONE, z), S.expr('astropy.angular_diameter_distance_z1z2(0, z).value', env))]
                S2, A2, C2 = mk_()
                for t in interp_tables(got):
                    if t in okt:
                        continue
                    x, y, kw = interp_call(t)
                    if decide.verdict(y, S2.r(S2.expr(A1, dict(astropy=A2, zz=x))))[0] == 'equal':
                        allowed.append(mul(add(ONE, z), S.I.apply(t, [z], [], S.st)))
            if direct:
                allowed.append(S.expr(direct, env))
            ctx.one_of('Cosmology.' + name, got, [S.r(x) for x in allowed], w(name), 'the query returns the tabulated or exact ' + name)
            ctx.saw(S)
        ctx.guard('Cosmology.' + name, f)

    def da():
        S, A, C = mk_()
        a, b = S.sym('z1'), S.sym('z2')
        got = S.r(S.meth(C, 'D_A', a, b))
        ctx.one_of('Cosmology.D_A', got, [S.r(S.expr('astropy.angular_diameter_distance_z1z2(z1, z2).value', dict(astropy=A, z1=a, z2=b)))],
                   w('D_A'), 'angular diameter distance between two redshifts')
    ctx.guard('D_A', da)

    def age():
        S, A, C = mk_()
        z, zf = S.sym('z'), S.sym('zform')
        got = S.r(S.meth(C, 'halo_age', z, zf))
        tabs = list(interp_tables(got))
        if len(tabs) != 1:
            return ctx.undetermined('Cosmology.halo_age', w('halo_age'), '%d tables' % len(tabs))
        x, y, kw = interp_call(tabs[0])
        ctx.equal('Cosmology.halo_age:table', y, S.r(S.expr('astropy.age(zz).value', dict(astropy=A, zz=x))), w('halo_age'), 'table of the age')
        want = S.r(S.expr('0 if z > zf else t(z) - t(zf)', dict(z=z, zf=zf, t=tabs[0])))
        ctx.equal('Cosmology.halo_age', got, want, w('halo_age'), 'age since formation, zero before formation')
    ctx.guard('halo_age', age)


def geometry(ctx):
    P = program()
    ci = P.cls(GEO)
    if ci is None:
        raise Broken('Geometry not found')

    def w(n):
        fi = P.lookup(ci, n)
        if fi is None:
            raise Broken('Geometry.%s not found' % n)
        return where_fn(fi)
    scale = {'DOUBLE_CONE': '1 if z <= zl else 1 - pad*C.D_A(0, zs)/C.D_A(zl, zs)*C.D_A(zl, z)/C.D_A_z(z)',
             'CYLINDER': 'C.D_C_transverse(zl)/C.D_C_transverse(z)', 'CONE': '1.0'}
    for g, sc in scale.items():
        def f(g=g, sc=sc):
            S = Session(Config(opaque=PRIM))
            C = S.sym('C', COS)
            S.st.assume(bnot(TM.eq(S.sym('r'), NONE)))
            env = dict(C=C, zl=S.sym('zl'), zs=S.sym('zs'), ang=S.sym('ang'), pad=S.sym('pad'), z=S.sym('z'), r=S.sym('r'), dz=S.sym('dz'))
            G = S.new(ci, C, env['zl'], env['zs'], env['ang'], const(g), env['pad'])
            z, r, dz = env['z'], env['r'], env['dz']
            rs = S.r(S.expr(sc, env))
            env['rs'] = rs
            env['asec'] = S.attr(C, 'arcsec')

            def eq_(name, got, spec):
                ctx.equal('Geometry[%s].%s' % (g, name), S.r(got), S.r(S.expr(spec, env)), w(name), '%s = %s' % (name, spec))
            eq_('rendering_scale', S.meth(G, 'rendering_scale', z), sc)
            eq_('kpc_per_arcsec', S.meth(G, 'kpc_per_arcsec', z), 'C.kpc_proper_per_asec(z)')
            eq_('angle_to_physicalradius', S.meth(G, 'angle_to_physicalradius', r, z), 'r*asec*rs*C.D_A_z(z)')
            eq_('angle_to_comovingradius', S.meth(G, 'angle_to_comovingradius', r, z), 'r*asec*rs*C.D_A_z(z)*(1+z)')
            eq_('angle_to_comoving_area', S.meth(G, 'angle_to_comoving_area', r, z), 'np.pi*(r*asec*rs*C.D_A_z(z)*(1+z))**2')
            eq_('angle_to_physical_area', S.meth(G, 'angle_to_physical_area', r, z), 'np.pi*(r*asec*rs*C.D_A_z(z))**2')
            ctx.equal('Geometry[%s].kpc_per_arcsec_zlens' % g, S.r(S.attr(G, 'kpc_per_arcsec_zlens')), S.r(S.expr('C.kpc_proper_per_asec(zl)', env)),
                      w('__init__'), 'scale at the lens redshift')
            ctx.equal('Geometry[%s].cone_opening_angle' % g, S.r(S.attr(G, 'cone_opening_angle')), env['ang'], w('__init__'), 'opening angle stored')
            # volume element: comoving area times comoving path length
            integrand = 'np.pi*(rr*asec*rs*C.D_A_z(z)*(1+z))**2*C.astropy.hubble_distance.value/C.astropy.efunc(z)'
            for nm, rad, rr in (('default radius', None, 'ang/2'), ('given radius', r, 'r')):
                args = [z, dz] + ([rad] if rad is not None else [])
                got = S.meth(G, 'volume_element_comoving', *args)
                got = S.r(got)
                e = dict(env, rr=S.expr(rr, env))
                thin = S.r(S.expr('(' + integrand + ')*dz', e))
                for t, asg in decide.cases_top(got):
                    q = [u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'scipy.integrate.quad']
                    key = 'Geometry[%s].volume_element_comoving(%s)' % (g, nm)
                    if q and len(q) == 1:
                        a, kw = list(q[0].args[1].args), q[0].args[2]
                        kwd = {kw.args[i]: kw.args[i + 1] for i in range(0, len(kw.args), 2)}
                        lo, hi = a[1], a[2]
                        fargs = kwd.get('args', a[3] if len(a) > 3 else mk('tup'))
                        fargs = list(fargs.args) if fargs.op == 'tup' else [fargs]
                        zz = S.sym('zq')
                        fv = S.r(S.I.apply(S.quad_fn(a[0]), [zz] + fargs, [], S.st))
                        e2 = dict(e, z=zz)
                        e2['rs'] = S.r(S.expr(sc, e2))
                        ctx.equal(key + ':integrand', fv, S.r(S.expr(integrand, e2)), w('volume_element_comoving'), 'integrand of the comoving volume')
                        ctx.equal(key + ':limits', mk('tup', lo, hi), mk('tup', z, add(z, dz)), w('volume_element_comoving'), 'limits of the slice')
                        ctx.equal(key + ':integral', t, TM.idx(q[0], ZERO), w('volume_element_comoving'), 'the integral itself is returned')
                    else:
                        ctx.equal(key + ':thin', t, thin, w('volume_element_comoving'), 'thin slice: integrand times thickness', asg=asg)
            ctx.saw(S)
        ctx.guard('Geometry[%s]' % g, f)

    def vol():
        S = Session(Config(opaque=PRIM + ['Geometry.volume_element_comoving']))
        C = S.sym('C', COS)
        G = S.new(ci, C, S.sym('zl'), S.sym('zs'), S.sym('ang'), const('CONE'))
        got = S.r(S.attr(G, 'volume_MPC3'))
        # the sum over adjacent slices of one thickness
        env = dict(G=G, zs=S.sym('zs'))
        want = S.r(S.expr('sum([G.volume_element_comoving(zi, 0.01) for zi in np.arange(0.0, zs, 0.01)[:-1]])', env))
        ctx.equal('Geometry.volume_MPC3', got, want, w('volume_MPC3'), 'sum of the comoving volume of adjacent slices')
    ctx.guard('volume', vol)

    def bad():
        S = Session(Config(opaque=PRIM))
        S.new(ci, S.sym('C', COS), S.sym('zl'), S.sym('zs'), S.sym('ang'), S.sym('gtype'))
        rs = [e for e in S.I.events if e.kind == 'raise']
        g = TM.FALSE
        for e in rs:
            g = TM.bor(g, e.guard)
        for n in scale:
            g = decide.simp(g, {('b', TM.eq(TM.sym('gtype'), const(n))): False}, {})
        ctx.require('Geometry.unknown type', g is TM.TRUE, w('__init__'), 'an unknown geometry type is accepted', 'unknown volume type is an error')
    ctx.guard('unknown type', bad)


def lenscosmo(ctx):
    P = program()
    ci = P.cls(LEN)
    if ci is None:
        raise Broken('LensCosmo not found')

    def w(n):
        fi = P.lookup(ci, n)
        if fi is None:
            raise Broken('LensCosmo.%s not found' % n)
        return where_fn(fi)
    S = Session(Config(opaque=PRIM))
    C = S.sym('C', COS)
    zl, zs = S.sym('zl'), S.sym('zs')
    for x in (C, zl, zs):
        S.st.assume(bnot(TM.eq(x, NONE)))
    L = S.new(ci, zl, zs, C, NONE)
    names = 'm c z z1 z2 M N rho0 Rs s area mhm mth r200 rs lam zi zf rhos sig dens xs r h1 rmin rmax sc'.split()
    env = {n: S.sym(n) for n in names}
    env.update(C=C, L=L, zl=zl, zs=zs, h=S.attr(C, 'h'), nfw=S.attr(L, '_nfw_param'), asec=S.attr(C, 'arcsec'), G=S.attr(C, 'G'), cc=S.attr(C, 'c'))
    SC = 'cc**2/(4*np.pi*G)*C.D_A_z(%s)/(C.D_A(%s,%s)*C.D_A_z(%s))'
    env['scr_lens'] = S.expr(SC % ('zs', 'zl', 'zs', 'zl'), env)
    env['scr'] = S.expr(SC % ('zs', 'z', 'zs', 'z'), env)

    def eq_(name, got, spec, key=None):
        ctx.equal('LensCosmo.' + (key or name), S.r(got), S.r(S.expr(spec, env)), w(name), '%s = %s' % (key or name, spec))

    def m(name, args, spec, key=None, **kw):
        def f():
            eq_(name, S.meth(L, name, *[env[a] if isinstance(a, str) else a for a in args], **{k: v for k, v in kw.items()}), spec, key)
        ctx.guard('LensCosmo.' + (key or name), f)

    def at(name, spec):
        ctx.guard(name, lambda: ctx.equal('LensCosmo.' + name, S.r(S.attr(L, name)), S.r(S.expr(spec, env)), w('__init__'), name + ' = ' + spec))
    at('sigma_crit_lensing', 'scr_lens')
    at('sigma_crit_lens_kpc', 'scr_lens/1e6')
    at('sigmacrit', 'scr_lens/1e6*C.kpc_proper_per_asec(zl)**2')
    at('D_d', 'C.D_A_z(zl)')
    at('D_s', 'C.D_A_z(zs)')
    at('D_ds', 'C.D_A(zl, zs)')
    at('h', 'C.h')
    at('z_lens', 'zl')
    at('z_source', 'zs')
    m('get_sigma_crit_lensing', ['z1', 'z2'], SC % ('z2', 'z1', 'z2', 'z1'))
    m('sigma_crit_mass', ['z', 'area'], 'area*scr')
    m('rN_M', ['M', 'z', 'N'], '(3*M/(4*np.pi*nfw.rhoc_z(z)*N))**(1/3)/h')
    r200 = '(nfw.r200_M(m*h, z)/h)'
    m('nfwParam_physical', ['m', 'c', 'z'], '(nfw.rho0_c(c, z)*h**2, %s/c, %s)' % (r200, r200))
    ps = '(2*c**3*nfw.rhoc_z(z)*200/(3*np.log(1+c**2)))'
    m('nfwParam_physical', ['m', 'c', 'z'], '(%s*h**2, %s/c, %s)' % (ps, r200, r200), 'nfwParam_physical[pseudo]', pseudo_nfw=TRUE)
    m('NFW_params_physical', ['m', 'c', 'z'], '(nfw.rho0_c(c, z)*h**2/1e9, 1000*%s/c, 1000*%s)' % (r200, r200))
    m('NFW_params_physical', ['m', 'c', 'z'], '(%s*h**2/1e9, 1000*%s/c, 1000*%s)' % (ps, r200, r200), 'NFW_params_physical[pseudo]', pseudo_nfw=TRUE)
    ang = '(Rs/C.D_A_z(z)/asec, rho0*4*Rs**2*(%s)/scr/C.D_A_z(z)/asec)'
    F, FP = '1+np.log(1/2)', 'np.sqrt(2)*np.log(1+np.sqrt(2))+np.log(1/2)'
    m('nfw_physical2angle_fromNFWparams', ['rho0', 'Rs', 'z'], ang % F)
    m('nfw_physical2angle_fromNFWparams', ['rho0', 'Rs', 'z'], ang % FP, 'nfw_physical2angle_fromNFWparams[pseudo]', pseudo_nfw=TRUE)
    a2 = ang.replace('rho0', '(nfw.rho0_c(c,z)*h**2)').replace('Rs', '(%s/c)' % r200)
    m('nfw_physical2angle', ['m', 'c', 'z'], a2 % F)
    a3 = ang.replace('rho0', '(%s*h**2)' % ps).replace('Rs', '(%s/c)' % r200)
    m('nfw_physical2angle', ['m', 'c', 'z'], a3 % FP, 'nfw_physical2angle[pseudo]', pseudo_nfw=TRUE)
    fwd = '2.32*(C.astropy.Om0/0.25)**0.4*(h/0.7)**0.8*(%s/1e9)**(-0.3)'
    m('halfmode_to_thermal', ['mhm'], fwd % 'mhm')
    m('mhm_to_fsl', ['mhm'], '2*(3*mhm/(4*np.pi*L.rhoc*h**2))**(1/3)/13.93')

    def inv():
        t = S.r(S.meth(L, 'mthermal_to_halfmode', env['mth']))
        closed = S.r(S.expr('1e9*(2.32*(C.astropy.Om0/0.25)**0.4*(h/0.7)**0.8/mth)**(1/0.3)', env))
        q = [u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'scipy.optimize.minimize']
        if q:
            fn = S.quad_fn(q[0].args[1].args[0])
            obj = S.r(S.I.apply(fn, [closed], [], S.st))
            ctx.require('LensCosmo.mthermal_to_halfmode', decide.verdict(obj, ZERO)[0] == 'equal' or None if decide.verdict(obj, ZERO)[0] != 'differ' else False,
                        w('mthermal_to_halfmode'), 'objective at the inverse is ' + TM.show(obj, 8), 'the objective vanishes at the inverse of halfmode_to_thermal')
            off = S.r(S.I.apply(fn, [S.sym('moff')], [], S.st))
            ctx.require('LensCosmo.mthermal_to_halfmode:objective', TM.contains(off, S.sym('moff')) and off is not ZERO, w('mthermal_to_halfmode'), TM.show(off), 'the objective depends on the mass')
        else:
            ctx.equal('LensCosmo.mthermal_to_halfmode', t, closed, w('mthermal_to_halfmode'), 'inverse of halfmode_to_thermal')
    ctx.guard('mthermal_to_halfmode', inv)
    m('thetaE_from_sigma', ['z', 's'], '4*np.pi*(s/299792.5)**2*C.D_A(z,zs)/C.D_A(0.0,zs)*206265')
    m('point_mass_factor_z', ['z'], 'np.sqrt(4*G/cc**2*C.D_A(z,zs)/(C.D_A_z(z)*C.D_A_z(zs)))/asec')
    m('nfw_vmax', ['rhos', 'rs'], '1.64*np.sqrt(4.3e-6*rhos*rs**2)')
    m('halo_dynamical_time', ['m', 'z', 'c'], '3.086e16*3.17e-17*(1000*%s)/(1.64*np.sqrt(4.3e-6*(nfw.rho0_c(c,z)*h**2/1e9)*(1000*%s/c)**2))' % (r200, r200))
    m('sidm_halo_effective_age', ['z', 'zi', 'lam', 'zf'],
      'C.halo_age(10 if zi > 10 else zi, zform=zf) + lam*C.halo_age(z, zform=(10 if zi > 10 else zi))')
    m('sidm_collapse_timescale', ['rhos', 'rs', 'sig'],
      '3.171e-17*150/0.75/(2.0889e-10*sig*rhos*rs*np.sqrt(4*np.pi*4.3e-6*rhos*1.05e-33))')
    m('mean_free_path', ['dens', 'xs'], '1/(dens*1.99e33/3.086e21**3*xs)/3.086e21')
    m('twohaloterm', ['r', 'M', 'z'], "twoHaloTerm(r*h, M*h, z, mdef='200c')/C._colossus_cosmo.rho_m(z)") if False else None

    def boost():
        t = S.r(S.meth(L, 'two_halo_boost', env['M'], env['z'], env['rmin'], env['rmax']))
        q = [u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'scipy.integrate.quad']
        if len(q) != 1:
            return ctx.undetermined('LensCosmo.two_halo_boost', w('two_halo_boost'), 'no single integral')
        env['I'] = TM.idx(q[0], ZERO)
        ctx.equal('LensCosmo.two_halo_boost', t, S.r(S.expr('1 + 2*I/(rmax-rmin)', env)), w('two_halo_boost'), 'average of both sides of the lens')
        a, kw = list(q[0].args[1].args), q[0].args[2]
        kwd = {kw.args[i]: kw.args[i + 1] for i in range(0, len(kw.args), 2)}
        ctx.equal('LensCosmo.two_halo_boost:limits', mk('tup', a[1], a[2]), mk('tup', env['rmin'], env['rmax']), w('two_halo_boost'), 'radial limits')
        fargs = kwd.get('args', a[3] if len(a) > 3 else mk('tup'))
        fargs = list(fargs.args) if fargs.op == 'tup' else [fargs]
        fv = S.r(S.I.apply(S.quad_fn(a[0]), [env['r']] + fargs, [], S.st))
        th = [u for u in TM.walk(fv) if u.op == 'call' and u.args[0].endswith('twoHaloTerm')]
        if len(th) == 1:
            ta = list(th[0].args[1].args)
            env['T'] = th[0]
            ctx.equal('LensCosmo.twohaloterm', fv, S.r(S.expr('T/C._colossus_cosmo.rho_m(z)', env)), w('twohaloterm'), 'two-halo density over the mean matter density')
            ctx.equal('LensCosmo.twohaloterm:args', mk('tup', *ta[:3]), S.r(S.expr('(r*h, M*h, z)', env)), w('twohaloterm'), 'colossus arguments in units of h')
        else:
            ctx.undetermined('LensCosmo.twohaloterm', w('twohaloterm'), 'two-halo term not found')
    ctx.guard('two_halo_boost', boost)

    def rhoc():
        t = S.r(S.attr(L, 'rhoc'))
        q = [u for u in TM.walk(t) if u.op == 'attr' and u.args[1] == 'value']
        if len(q) == 1:
            env['q'] = q[0]
            ctx.equal('LensCosmo.rhoc', t, S.r(S.expr('q/h**2', env)), w('__init__'), 'critical density in units of h^2 M_sun / Mpc^3')
            cd = [u for u in TM.walk(q[0]) if u.op == 'meth' and u.args[1] == 'critical_density']
            ctx.require('LensCosmo.rhoc:redshift', len(cd) == 1 and cd[0].args[2].args[0] is ZERO, w('__init__'), TM.show(q[0]), 'critical density today')
        else:
            ctx.undetermined('LensCosmo.rhoc', w('__init__'), TM.show(t))
    ctx.guard('rhoc', rhoc)

    def interp():
        t = S.r(S.attr(L, 'sigma_crit_arcsecond_interp'))
        ic = interp_call(t)
        if not ic:
            return ctx.undetermined('LensCosmo.sigma_crit_arcsecond_interp', w('__init__'), TM.show(t, 3))
        x, y, kw = ic
        e = dict(env, zz=x)
        ctx.equal('LensCosmo.sigma_crit_arcsecond_interp', y, S.r(S.expr('np.array([%s*(0.001*C.kpc_proper_per_asec(v))**2 for v in zz])' % (SC % ('zs', 'v', 'zs', 'v')), e)),
                  w('__init__'), 'critical density per square arcsecond on the plane grid')
    ctx.guard('interp', interp)
    ctx.saw(S)

    def mz():
        S2 = Session(Config(opaque=PRIM + ['_ConcentrationCDM.nfw_concentration', 'ConcentrationDiemerJoyce.nfw_concentration']))
        C2 = S2.sym('C', COS)
        for x in (C2, zl, zs):
            S2.st.assume(bnot(TM.eq(x, NONE)))
        L2 = S2.new(ci, zl, zs, C2, NONE)
        t = S2.r(S2.meth(L2, 'NFW_params_physical_fromMZ', env['m'], env['z'], env['sc']))
        q = [u for u in TM.walk(t) if u.op == 'meth' and u.args[1] == 'nfw_concentration']
        q = sorted(set(q), key=lambda u: u.size)
        if not q:
            return ctx.undetermined('LensCosmo.NFW_params_physical_fromMZ', w('NFW_params_physical_fromMZ'), TM.show(t, 4))
        e = dict(env, L=L2, C=C2, c=mul(env['sc'], q[0]), h=S2.attr(C2, 'h'), nfw=S2.attr(L2, '_nfw_param'))
        ctx.equal('LensCosmo.NFW_params_physical_fromMZ', t, S2.r(S2.expr('(nfw.rho0_c(c, z)*h**2/1e9, 1000*%s/c, 1000*%s)' % (r200, r200), e)),
                  w('NFW_params_physical_fromMZ'), 'NFW parameters with the Diemer and Joyce concentration at the same mass and redshift')
    ctx.guard('fromMZ', mz)


def run(ctx):
    ctx.guard('cosmology', cosmology, ctx)
    ctx.guard('geometry', geometry, ctx)
    ctx.guard('lenscosmo', lenscosmo, ctx)
