"""P10 physical halo sizes become lensing arguments with the right units and redshift."""
from .common import *
from .halos import *

EXPLAIN = ("For every halo type (subhalo and field) the lensing arguments are evaluated as value terms down to the primitive "
           "conversions (kpc per arcsecond, angular diameter distance, critical surface density) and compared, argument by argument and on "
           "every path, with a term transcribed from the definition of the profile in terms of the public physical quantities of the same halo "
           "(scale radius, concentration, truncation radius, mass); the physical quantities themselves are tied to the mass, "
           "concentration model and evaluation redshift of that halo.")
ASSUME = ['lenstronomy profile functions (rho0/alpha conversions, enclosed masses) compute what their names say']
FLOOR = 80
PRIM = ['LensCosmo.' + m for m in ('get_sigma_crit_lensing', 'thetaE_from_sigma', 'point_mass_factor_z', 'z_accreted_from_zlens', 'nfw_vmax',
                                   'sidm_halo_effective_age', 'halo_age')]
# definitions; h halo, L lens cosmology, k kpc per arcsec at the halo redshift, S critical surface density [Msun/Mpc^2] at the
# halo redshift, SA the same in Msun/arcsec^2, P/RS/R2 density, scale radius and r200 of the halo in Msun, kpc
NFWA = 'L.nfw_physical2angle_fromNFWparams(P*1e9, RS*1e-3, z)'
TRIAL = ('np.trapezoid(4*np.pi*R**2*(S*1e-6/k)*TNFWC().density_lens(R/k, h.profile_args[1]/k, 1.0, h.profile_args[2]/k, h.profile_args[3]/k), R)')
XM = "(2.16 if 'x_match' not in A else (c if A['x_match'] == 'c' else A['x_match']))"
ZETA = '((18*np.pi**2 + 82*(OM({0})-1) - 39*(OM({0})-1)**2)/OM({0}))'
RCORE = ("1.6/10**(A['log10_m_uldm']+22)*(1+z)**(-0.5)*(" + ZETA.format('z') + '/' + ZETA.format('0') +
         ")**(-1/6)*(h.mass/1e9)**(-A['uldm_plaw'])")
UKAPPA = ("429*np.pi*1.9*(1+z)*10**(-2*A['log10_m_uldm']-46)*(RC*(1+z))**-4*RC*1000/(2048*0.091**0.5*S*1e-12)")
SPEC = {
    'NFW': [dict(alpha_Rs=NFWA + '[1]', Rs=NFWA + '[0]')],
    'TNFW': [dict(alpha_Rs=NFWA + '[1]', Rs=NFWA + '[0]', r_trunc='h.profile_args[1]/k')],
    'CNFW': [dict(alpha_Rs=NFWA + "[1]*CNFW().mass_2d(RS, RS, 1.0, A['beta']*RS)/CNFW().mass_2d(RS, RS, 1.0, 1e-4*RS)", Rs='RS/k', r_core="A['beta']*RS/k")],
    'TNFWC': [dict(Rs='h.profile_args[1]/k', r_core='h.profile_args[2]/k', r_trunc="A['rt_kpc']/k",
                   alpha_Rs="A['mass_conservation']/" + TRIAL)],
    'PJAFFE': [dict(Ra='0.01*RS/k', Rs='RS/k',
                    sigma0='PseudoJaffe().rho2sigma(4*np.pi*RS**3*P*(np.log(1+R2/RS) - (R2/RS)/(1+R2/RS))/FJ, 0.01*RS/k, RS/k)/(S*1e-6*k**2)')],
    'PSEUDO_DPL': [dict(Rs='RS/k', gamma_inner="A['gamma_inner']", gamma_outer="A['gamma_outer']",
                        alpha_Rs="PseudoDoublePowerlaw().rho02alpha((A['mass_conservation'] if 'mass_conservation' in A else 4*np.pi*A.get('r_transition', RS)**3*PN*(np.log(1+X) - X/(1+X)))"
                                 "/PseudoDoublePowerlaw().mass_3d(X*A.get('r_transition', RS)/k, A.get('r_transition', RS)/k, L.sigma_crit_arcsecond_interp(z), A['gamma_inner'], A['gamma_outer']),"
                                 " RS/k, A['gamma_inner'], A['gamma_outer'])")],
    'SPL_CORE': [dict(gamma="A['log_slope_halo']", r_core="A['x_core_halo']*RS/k",
                      sigma0="4*np.pi*RS**3*P*(np.log(1+X) - X/(1+X))/SPLCORE().mass_3d(X*RS/k, SA, A['x_core_halo']*RS/k, A['log_slope_halo'])*A['x_core_halo']*RS/k")],
    'POINT_MASS': [dict(theta_E='L.point_mass_factor_z(z)*h.mass**0.5')],
    'GAUSSIAN': [dict(amp="A['amp']", sigma="A['sigma']")],
    'ULDM': [dict(Rs=NFWA + '[0]'), dict(theta_c='RC/(1000*L.cosmo.D_A_z(z))/arcsec')],
}
GC = [dict(gamma="A['gamma']", r_core="A['gc_size_pc']*1e-3/k/A['gc_concentration']",
           sigma0="h.mass/SPLCORE().mass_3d(A['gc_size_pc']*1e-3/k, SA, A['gc_size_pc']*1e-3/k/A['gc_concentration'], A['gamma'])"
                  "*A['gc_size_pc']*1e-3/k/A['gc_concentration']")]
SISP = [dict(theta_E='L.thetaE_from_sigma(z, 0.646*n.vmax_nfw)')]
GAL = [dict(Rs='(n.profile_args[1] if n.is_subhalo else n.nfw_params[1])/k', gamma_inner='2.0', gamma_outer='5.0',
            alpha_Rs="n.mass_3d('r200')/PseudoDoublePowerlaw().mass_3d_lens(n.nfw_params[2]/k, (n.profile_args[1] if n.is_subhalo else n.nfw_params[1])/k, 1.0, 2.0, 5.0)/SA")]
EMU = [dict(alpha_Rs='L.nfw_physical2angle(h.mass, h.c, z)[1]', Rs='L.nfw_physical2angle(h.mass, h.c, z)[0]', r_trunc='h.profile_args[1]/k')]
FROMP = [dict(alpha_Rs="L.nfw_physical2angle_fromNFWparams(A['rhos']*1e9, A['rs']*1e-3, z)[1]",
              Rs="L.nfw_physical2angle_fromNFWparams(A['rhos']*1e9, A['rs']*1e-3, z)[0]", r_trunc="A['r_trunc_kpc']/k")]
M = {'t': "TNFW().mass_3d({r}, RS/k, TNFW().alpha2rho0(1.0, RS/k), A['rt_kpc']/RS)",
     'd': "PseudoDoublePowerlaw().mass_3d_lens({r}, A['Rs_inner_kpc']/k, 1.0, A['gamma_inner'], A['gamma_outer'])"}
a, c_ = (M['t'].format(r=r) for r in ("A['r_match_kpc']/k", 'R2/k'))
b, d_ = (M['d'].format(r=r) for r in ("A['r_match_kpc']/k", 'R2/k'))
DET = '(%s*%s - %s*%s)' % (a, d_, b, c_)
T1, T2 = "A['m_target_R']", "A['m_target_r200']"
SPECIAL = {'CORE_COLLAPSED_HALO': [dict(
    Rs_inner="A['Rs_inner_kpc']/k", Rs_outer='RS/k', r_trunc="A['rt_kpc']/k", gamma_inner="A['gamma_inner']", gamma_outer="A['gamma_outer']",
    alpha_Rs_outer='(%s*%s - %s*%s)/%s/SA' % (d_, T1, b, T2, DET), alpha_Rs_inner='(%s*%s - %s*%s)/%s/SA' % (a, T2, c_, T1, DET))]}

SPECIAL['CORE_COLLAPSED_HALO_BH'] = [dict(
    Rs_outer='RS/k', r_trunc="A['rt_kpc']/k", theta_E_inner=T1.join(['L.point_mass_factor_z(z)*', '**0.5']),
    alpha_Rs_outer='(%s*%s - %s*%s)/%s/SA' % (d_, T1, b, T2, DET))]


def env(S, h, ci, nfw=None, lc=None):
    L = lc
    A = S.sym('args')
    e = dict(h=h, L=L, A=A)
    e['z'] = S.expr('h.z', e)
    e['k'] = S.expr('L.cosmo.kpc_proper_per_asec(z)', e)
    e['S'] = S.expr('L.get_sigma_crit_lensing(z, L.z_source)', e)
    e['SA'] = S.expr('S*(0.001*k)**2', e)
    if nfw is not None:
        e['n'] = nfw
    return e


def nfw(S, e, ci, src='h.nfw_params'):
    for n, i in (('P', 0), ('RS', 1), ('R2', 2)):
        e[n] = S.expr('%s[%d]' % (src, i), e)


def definition(name, ci, L):
    """term definitions of the arguments of each profile of a halo"""
    n = ci.name
    P = program()
    anc = {c.name for c in P.mro(ci) if hasattr(c, 'name')}
    if n == 'GlobularCluster':
        return GC
    if n == 'SIS':
        return SISP
    if n == 'MassiveGalaxy':
        return GAL
    if n == 'TNFWSubhaloEmulator':
        return EMU
    if n == 'TNFWFromParams':
        return FROMP
    return None


PSEUDO = {'PSEUDO_DPL': True, 'GeneralNFWSubhalo': True, 'GeneralNFWFieldHalo': True, 'TNFWCHaloEvolving': True}


def one(ctx, ci, sub):
    P = program()
    label = hlabel(ci, sub)
    where = where_fn(P.lookup(ci, 'lenstronomy_params'))
    S = Session(Config(opaque=PRIM, opaque_classes=('Cosmology',)))
    lc = S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
    init = P.lookup(ci, '__init__').params
    given = {}
    if ci.name == 'Hybrid':
        return hybrid(ctx, ci, sub, label, where)
    if 'nfw_halo' in init:
        given['nfw_halo'] = make(S, P.cls(HM + ('TNFW:TNFWSubhalo' if sub is TRUE else 'TNFW:TNFWFieldHalo')), sub, lc=lc)
    h = make(S, ci, sub=sub, lc=lc, given=given)
    e = env(S, h, ci, given.get('nfw_halo'), lc)
    physical(ctx, S, h, ci, label, e)
    ids = lens_ids(S, h)
    names = [x.args[0] for x in ids[0][0]]
    spec = definition(names, ci, lc)
    if spec is None:
        spec = SPECIAL.get(names[0]) or (SPEC.get(names[0]) if names[0] != 'CNFW' or len(names) == 1 else SPEC['ULDM'])
    if spec is None:
        ctx.undetermined(label, where, 'no definition for %s' % names)
        return
    if 'X' in str(spec):
        e['X'] = S.expr(XM, e)
    if 'ULDM' in names:
        e['arcsec'] = S.expr('arcsec', e)
        e['OM'] = S.expr('lambda v: L.cosmo.astropy.Om(v)', e)
        e['RC'] = S.expr(RCORE, e)
    if names[0] == 'PJAFFE':
        e['FJ'] = S.expr('4*np.pi*(0.01*RS/k)**2*(RS/k)**2*((RS/k)*np.arctan(R2/RS) - (0.01*RS/k)*np.arctan(R2/(0.01*RS)))/((RS/k)**2 - (0.01*RS/k)**2)', e)
    if names[0] == 'TNFWC':
        e['R'] = S.expr('np.logspace(-4, np.log10(h.c), 250)*RS', e)
    compare(ctx, S, h, label, where, spec, e)
    if 'ULDM' in names:
        ctx.equal(label + ':kappa_0', S.r(S.expr('h.profile_args[2]', e)), S.r(S.expr(UKAPPA, e)), where,
                  'the soliton convergence follows from its central density and core radius at the redshift of the halo')
    density(ctx, S, h, ci, label, names[0], e)
    ctx.saw(S)


def tabulated(S, e):
    """the tabulated critical density stands for the function it interpolates"""
    def norm(t):
        def f(u):
            if u.op == 'meth' and 'sigma_crit_arcsecond_interp' in u.args or u.op == 'call' and u.args[0] == 'sigma_crit_arcsecond_interp':
                a = [x for x in u.args if isinstance(x, T) and x.op == 'args'][0].args
                x = TM.subst(a[0], f)
                return S.r(S.expr('L.get_sigma_crit_lensing(v, L.z_source)*(0.001*L.cosmo.kpc_proper_per_asec(v))**2', dict(e, v=x)))
            return None
        return TM.subst(unround(t), f)
    return norm


def compare(ctx, S, h, label, where, spec, e):
    norm = tabulated(S, e)
    for kw, t, g in lens_params(S, h):
        if kw is None:
            ctx.undetermined(label, where, 'arguments not resolved: ' + TM.show(t, 4)[:200])
            continue
        for i, (d, want) in enumerate(zip(kw, spec)):
            for k, src in sorted(want.items()):
                if k not in d:
                    continue      # P09
                exp = S.r(S.expr(src, e))
                ctx.equal('%s:%s%s' % (label, k, i or ''), norm(d[k]), norm(exp), where,
                          'argument equals its definition from the physical quantities of the same halo at its own redshift', asg=g)


def physical(ctx, S, h, ci, label, e):
    """tie concentration, evaluation redshift, scale radius and density of the halo to its mass and models"""
    P = program()
    sub = TM.eq(S.r(S.attr(h, 'is_subhalo')), TRUE)
    w = lambda n: where_fn(P.lookup(ci, n))
    e['ze'] = S.attr(h, 'z_eval')
    own = P.lookup(ci, '__init__').params
    if 'infall_concentration' in own or ci.name in ('GlobularCluster', 'GaussianHalo'):
        zspec = 'z'
    elif ci.name == 'PowerLawSubhalo':
        zspec = "(z if 'evaluate_mc_at_zlens' in A and A['evaluate_mc_at_zlens'] else h.z_infall)"
    else:
        zspec = 'h.z_infall if h.is_subhalo else z'
    ctx.equal(label + ':z_eval', S.r(e['ze']), S.r(S.expr(zspec, e)), w('z_eval'),
              'quantities are evaluated at infall for subhalos and at the halo redshift for field halos')
    if ci.name in ('BlackHole', 'GaussianHalo', 'GlobularCluster'):
        return
    cfn = P.lookup(ci, 'c')
    if cfn is not None and cfn.cls is not P.cls(HB):
        e['c'] = S.attr(h, 'c')
    elif ci.name in ('PowerLawFieldHalo', 'PowerLawSubhalo'):
        e['c'] = S.expr('h.profile_args[0]', e)
    else:
        return                          # no concentration of its own
    if ci.name == 'TNFWSubhaloEmulator':
        want = S.sym('cinf')
    elif ci.name == 'TNFWFromParams':
        want = S.expr("A['rv']/A['rs']", e)
    elif ci.name == 'MassiveGalaxy':
        want = S.expr('n.c', e)
    else:
        e['conc'] = S.sym('conc')
        want = S.expr('conc.nfw_concentration(h.mass, ze)', e)
        if ci.name == 'PowerLawSubhalo':
            want = S.expr("A['c'] if 'c' in A else conc.nfw_concentration(h.mass, ze)", e)
    ctx.equal(label + ':concentration', S.r(e['c']), S.r(want), w('profile_args'),
              'the concentration is that of the configured model at the mass and evaluation redshift of the halo')
    pseudo = ci.name in PSEUDO or ci.name == 'MassiveGalaxy'
    if not ci.name.startswith(('PowerLaw', 'PJaffe', 'TNFWSubhaloEmulator')):    # these do not define them
        t = S.attr(h, 'nfw_params')
        e['pp'] = const(pseudo)
        ref = S.expr('L.NFW_params_physical(h.mass, c, ze, pp)', e)
        for i, q in enumerate(('rhos', 'rs', 'r200')):
            e['t'], e['ref'], e['i'] = t, ref, num(i)
            ctx.equal(label + ':' + q, S.r(S.expr('t[i]', e)), S.r(S.expr('ref[i]', e)), w('nfw_params'),
                      'NFW parameters follow from the mass, concentration and evaluation redshift of the halo')
    e['nfw'] = S.expr('L.NFW_params_physical(h.mass, c, ze)', e)
    nfw(S, e, ci, 'nfw')
    e['PN'] = e['P']


# three-dimensional density [Msun/kpc^3] at r kpc from the lensing arguments K of the halo
DENS = {'NFW': None, 'CNFW': ('density_profile_3d', "F*CNFW().density_lens(r/k, K['Rs'], K['alpha_Rs'], K['r_core'])"),
        'TNFW': ('density_profile_3d_lenstronomy', "F*TNFW().density(r/k, K['Rs'], TNFW().alpha2rho0(K['alpha_Rs'], K['Rs']), K['r_trunc'])"),
        'TNFWC': ('density_profile_3d_lenstronomy', "F*TNFWC().density_lens(r/k, K['Rs'], K['alpha_Rs'], K['r_core'], K['r_trunc'])"),
        'PSEUDO_DPL': ('density_profile_3d', "F*PseudoDoublePowerlaw().density_lens(r/k, K['Rs'], K['alpha_Rs'], K['gamma_inner'], K['gamma_outer'])"),
        'SPL_CORE': ('density_profile_3d_lenstronomy', "F*SPLCORE().density_lens(r/k, K['sigma0'], K['r_core'], K['gamma'])")}


def density(ctx, S, h, ci, label, name, e):
    """the density profile reported by a halo is that of its lensing arguments in physical units"""
    d = DENS.get(name)
    fi = d and program().lookup(ci, d[0])
    if ci.name == 'MassiveGalaxy':
        d = ('density_profile_3d_lenstronomy', DENS['PSEUDO_DPL'][1])
        fi = program().lookup(ci, d[0])
    if not fi or fi.cls is program().cls(HB):
        return
    e['K'] = S.expr('h.lenstronomy_params[0][0]', e)
    e['F'] = S.expr('S*1e-6/k', e)
    e['r'] = S.sym('radius')
    act = S.meth(h, d[0], e['r'])
    norm = tabulated(S, e)
    ctx.equal(label + ':density', norm(S.r(act)), norm(S.r(S.expr(d[1], e))), where_fn(fi),
              'the density profile is that of the lensing arguments, converted to kpc with the scale at the redshift of the halo')


def hybrid(ctx, ci, sub, label, where):
    P = program()
    S = Session(Config(opaque=PRIM, opaque_classes=('Cosmology',)))
    lc = S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
    g = {'tnfw_halo': make(S, P.cls(HM + ('TNFW:TNFWSubhalo' if sub is TRUE else 'TNFW:TNFWFieldHalo')), sub, lc=lc),
         'tnfwc_halo': make(S, P.cls(HM + 'NFW_core_trunc:TNFWCHaloEvolving'), sub, lc=lc)}
    h = make(S, ci, sub=sub, lc=lc, given=g)
    e = dict(a=g['tnfw_halo'], b=g['tnfwc_halo'], f=S.sym('f'))
    spec = []
    for n, fac in (('a', '(1-f)'), ('b', 'f')):
        ks = as_dict(as_list(lens_params(S, g['tnfw_halo' if n == 'a' else 'tnfwc_halo'])[0][1])[0])
        spec.append({k: '%s.lenstronomy_params[0][0][%r]%s' % (n, k, '*' + fac if k == 'alpha_Rs' else '') for k in ks})
    e['z'], e['L'] = S.attr(h, 'z'), lc
    compare(ctx, S, h, label, where, spec, e)
    ctx.equal(label + ':concentration', S.r(S.attr(h, 'c')), S.r(S.attr(g['tnfw_halo'], 'c')), where, 'components share one concentration')
    ctx.equal(label + ':concentration2', S.r(S.attr(g['tnfwc_halo'], 'c')), S.r(S.attr(g['tnfw_halo'], 'c')), where, 'components share one concentration')


def run(ctx):
    for ci in halo_classes():
        for sub in subs_of(ci):
            ctx.guard(hlabel(ci, sub), one, ctx, ci, sub)
