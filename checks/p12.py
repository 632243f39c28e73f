"""P12 model names select the documented model and unknown names are errors."""
from .common import *
from .halos import *
from .p01 import RZ
from . import p02

EXPLAIN = ("Each name table of the library (presets, mass functions, concentration relations, truncation models, mass definitions, population models, "
           "infall models) is evaluated for every documented name, and the class or function selected and the settings it comes with are compared with "
           "the documented ones; for a symbolic name assumed different from all documented names every path must raise.")
FLOOR = 60
CM, TMOD, MF, PM = ('pyHalo.concentration_models:preset_concentration_models', 'pyHalo.truncation_models:truncation_models',
                    'pyHalo.mass_function_models:preset_mass_function_models', 'pyHalo.preset_models:preset_model_from_name')

PRESETS = {'CDM': 'CDM', 'WDM': 'WDM', 'SIDM_core_collapse': 'SIDM_core_collapse', 'SIDM_parametric': 'SIDM_parametric',
           'SIDM_parametric_fixedbins': 'SIDM_parametric_fixedbins', 'ULDM': 'ULDM', 'DMEmulator': 'DMSubhalosFromEmulator', 'WDM_mixed': 'WDM_mixed',
           'WDMGeneral': 'WDMGeneral', 'DMGalacticus': 'DMFromGalacticus', 'CDM_plus_BH': 'CDM_plus_BH', 'JointLOSWithEmulator': 'JointLOSWithEmulator'}
POLY = dict(c_scale=60.0, c_power=-0.17, c_power_inner=1.0, mc_suppression_redshift_evolution=False)
CONC = {'DIEMERJOYCE19': ('ConcentrationDiemerJoyce', {}), 'LUDLOW2016': ('ConcentrationLudlow', {}), 'PEAK_HEIGHT_POWERLAW': ('ConcentrationPeakHeight', {}),
        'BINNED_HALO_MASS': ('BinnedHaloMass', {}), 'WDM_HYPERBOLIC': ('ConcentrationWDMHyperbolic', {}), 'WDM_POLYNOMIAL': ('ConcentrationWDMPolynomial', {}),
        'BOSE2016': ('ConcentrationWDMPolynomial', dict(POLY, cdm='ConcentrationDiemerJoyce')),
        'BOSE2016_LUDLOW': ('ConcentrationWDMPolynomial', dict(POLY, cdm='ConcentrationLudlow')),
        'LAROCHE2022': ('ConcentrationWDMPolynomial', dict(c_scale=21.42, c_power=-0.42, c_power_inner=1.62, cdm='ConcentrationDiemerJoyce')),
        'LUDLOW_WDM': ('ConcentrationLudlowWDM', {}), 'CONSTANT': ('ConcentrationConstant', {})}
TRUNC = {'TRUNCATION_R50': ('TruncationRN', {'LOS_truncation_factor': 50}), 'TRUNCATION_R200': ('TruncationRN', {'LOS_truncation_factor': 200}),
         'TRUNCATION_RN': ('TruncationRN', {}), 'TRUNCATION_ROCHE': ('TruncationRoche', {}),
         'TRUNCATION_ROCHE_GILMAN2020': ('TruncationRoche', {'RocheNorm': 1.4, 'm_power': '1/3', 'RocheNu': '2/3'}), 'SPLASHBACK': ('TruncationSplashBack', {}),
         'TRUNCATION_MEAN_DENSITY': ('TruncateMeanDensity', {}), 'TRUNCATION_GALACTICUS': ('TruncationGalacticus', {}),
         'TRUNCATION_GALACTICUS_ZINFALL': ('TruncationGalacticusZinfall', {}), 'TRUNCATION_GALACTICUS_KEELEY24': ('TruncationGalacticusKeeley24', {}),
         'CONSTANT': ('ConstantTruncationArcsec', {}), 'MULTIPLE_RS': ('Multiple_RS', {}), 'BOUND_MASS_PDF': ('TruncationBoundMassPDF', {}),
         'TRUNCATION_GALACTICUS_CDM_APPROX': ('TruncationGalacticusApproxCDM', {})}


def abc(a, b, c):
    return dict(a_wdm=a, b_wdm=b, c_wdm=c)


MASSF = {'SHMF_LOVELL2020': ('WDMPowerLaw', abc(36.15, 2.5, -0.2)), 'LOVELL2020': ('ShethTormenTurnover', abc(1.95, 0.8, -1.0)),
         'SHMF_LOVELL2014': ('WDMPowerLaw', abc(1.0, 1.0, -1.3)), 'LOVELL2014': ('ShethTormenTurnover', abc(1.0, 1.0, -1.3)),
         'SCHIVE2016': ('ShethTormenTurnover', abc(1.0, 1.1, -2.2)), 'SHMF_SCHIVE2016': ('WDMPowerLaw', abc(1.0, 1.1, -2.2)),
         'POWER_LAW': ('CDMPowerLaw', {}), 'POWER_LAW_TURNOVER_SHMF': ('WDMPowerLaw', {}), 'POWER_LAW_TURNOVER': ('ShethTormenTurnover', {}),
         'SHMF_MIXED_WDM_TURNOVER': ('MixedWDMPowerLaw', {}), 'MIXED_WDM_TURNOVER': ('ShethTormenMixedWDM', {})}
INFALL = {'HYBRID_INFALL': 'InfallDistributionHybrid', 'DIRECT_INFALL': 'InfallDistributionDirect', 'GALACTICUS_2024': 'InfallDistributionGalacticus2024',
          'DIRECT_INFALL_CLUSTER': 'InfallDistributionClusterDirect', 'INFALL_ZLENS': 'InfallAtZlens', 'INFALL_0': 'Infall0'}
MDEF = {'NFW': ('NFWSubhhalo', 'NFWFieldHalo'), 'TNFW': ('TNFWSubhalo', 'TNFWFieldHalo'), 'TNFWC_SIDM': ('TNFWCHaloEvolving',) * 2,
        'PT_MASS': ('BlackHole',) * 2, 'PJAFFE': ('PJaffeSubhalo',) * 2, 'ULDM': ('ULDMSubhalo', 'ULDMFieldHalo'), 'GAUSSIAN_KAPPA': ('GaussianHalo',) * 2,
        'GNFW': ('GeneralNFWSubhalo', 'GeneralNFWFieldHalo'), 'SPL_CORE': ('PowerLawSubhalo', 'PowerLawFieldHalo')}
POP = {'SUBHALOS': 'Subhalos', 'LINE_OF_SIGHT': 'LineOfSight', 'LINE_OF_SIGHT_NOSHEET': 'LineOfSightNoSheet', 'TWO_HALO': 'TwoHaloContribution'}


def anchor(q):
    f = program().func(q)
    if f is None:
        raise Broken('%s not found' % q)
    return f


def short(t):
    return str(t.args[0]).split(':')[-1] if t.op in ('cls', 'fn') else TM.show(t, 4)


def expect(S, spec):
    d = {}
    for k, v in spec.items():
        if k == 'cdm':
            d['concentration_cdm_class'] = v
            d['kwargs_cdm'] = S.r(S.py({}))
        else:
            d[k] = S.expr(v, {}) if isinstance(v, str) else S.r(S.py(v))
    return d


def pair(ctx, S, v, key, w, cls, spec, extra=()):
    """v is (class, settings): the class is cls, and the settings are exactly spec plus what the user gave"""
    for x, g in gated(S, v):
        r = S.r(x)
        if r.op != 'tup' or len(r.args) != 2:
            (ctx.violation if r.op == 'bottom' else ctx.undetermined)(key, w, 'a class and its settings are not returned: %s' % TM.show(r, 4), 'the documented name is accepted')
            continue
        ctx.require(key + ':class', short(r.args[0]) == cls if r.args[0].op == 'cls' else None, w, 'selected %s, documented %s' % (short(r.args[0]), cls), 'the documented class')
        d = as_dict(r.args[1])
        if d is None:
            ctx.undetermined(key + ':settings', w, 'settings not resolved')
            continue
        want = expect(S, spec)
        want.update({k: S.sym(k) for k in extra})
        for k in sorted(set(d) | set(want)):
            got = d.get(k)
            if got is None or got.op == 'absent' or k not in want:
                ctx.require('%s:%s' % (key, k), (got is None or got.op == 'absent') and k not in want, w, 'setting %s is %s, documented %s'
                            % (k, got is not None and TM.show(got, 4), TM.show(want[k], 4) if k in want and isinstance(want[k], T) else want.get(k, 'not set')), 'exactly the documented settings')
            elif isinstance(want[k], str):
                ctx.require('%s:%s' % (key, k), short(got) == want[k] if got.op == 'cls' else None, w, 'setting %s is %s, documented %s' % (k, short(got), want[k]), 'the documented setting')
            else:
                ctx.equal('%s:%s' % (key, k), got, want[k], w, 'the documented setting')


def unknown(ctx, S, v, key, w):
    """no path returns for an unknown name"""
    v = S.I.simplify_value(v, S.st)
    st, info = decide.verdict(band(*S.st.pc), FALSE)
    if v.op == 'bottom' or S.st.dead or st == 'equal':
        ctx.ok(key, w, 'an unknown name raises')
        return
    live = [x for x, g in gated(S, v) if x.op != 'bottom']
    bad = [x for x in live if x.op in ('tup', 'ref', 'cls', 'fn', 'const')]
    if bad:
        ctx.violation(key, w, 'an unknown name returns %s' % TM.show(S.r(bad[0]), 4), 'an unknown name raises')
    elif not live:
        ctx.ok(key, w, 'an unknown name raises')
    else:
        ctx.undetermined(key, w, 'result for an unknown name: %s' % TM.show(S.r(live[0]), 4))


def strange(S, names, isstr=True):
    """a name that is none of the documented ones"""
    n = S.sym('name')
    S.I.tags[n] = 'str'
    for k in names:
        S.st.assume(bnot(TM.eq(n, const(k))))
    return n


def tables(ctx):
    f = anchor(PM)
    w = where_fn(f)
    for name, target in PRESETS.items():
        S = Session(Config())
        v = S.call(f, name)
        k = 'preset:' + name
        if v.op == 'fn':
            ctx.require(k, short(v) == target, w, 'selected %s, documented %s' % (short(v), target), 'the documented preset')
            ctx.require(k + ':home', v.args[0].startswith('pyHalo.PresetModels.'), w, v.args[0], 'a preset of this library')
        elif v.op == 'unknown' or v.op == 'bottom':
            ctx.violation(k, w, 'the name resolves to %s' % TM.show(v, 4), 'the documented name is accepted')
        else:
            ctx.undetermined(k, w, TM.show(v, 4))
    S = Session(Config())
    ctx.equal('preset:CUSTOM', S.r(S.call(f, 'CUSTOM', S.sym('fn'))), S.sym('fn'), w, 'the given function is used as is')
    S = Session(Config())
    unknown(ctx, S, S.call(f, strange(S, list(PRESETS) + ['CUSTOM']), S.sym('fn')), 'preset:unknown', w)
    ctx.saw(S)

    f = anchor(CM)
    w = where_fn(f)
    for name, (cls, spec) in CONC.items():
        for given, kw in (('', {}), (':given', {'q': 'q'}), (':override', {k: k for k in spec if k != 'cdm'})):
            if given == ':override' and not kw:
                continue
            S = Session(Config())
            v = S.call(f, name, S.py({k: S.sym(k) for k in kw}))
            pair(ctx, S, v, 'concentration:%s%s' % (name, given), w, cls, spec, extra=['q'] if given == ':given' else ())
    S = Session(Config())
    d = S.sym('d')
    v = S.call(f, 'FROM_FORMATION_HISTORY', S.py({'dlogT_dlogk': d, 'q': S.sym('q')}))
    spec = dict(a=S.expr('0.75*(0.7/d)**0.4', dict(d=d)), b=S.expr('0.94*abs(np.log(1.76+0.6)/np.log(d+0.6))**0.7', dict(d=d)))
    pair(ctx, S, v, 'concentration:FROM_FORMATION_HISTORY', w, 'ConcentrationWDMHyperbolic', spec, extra=['q'])
    for has in (True, False):
        S = Session(Config())
        c = mk('cls', program().cls('pyHalo.Halos.concentration:ConcentrationConstant' if has else 'pyHalo.Cosmology.geometry:Geometry').qual)
        v = S.call(f, 'CUSTOM', S.py({'custom_class': c, 'q': S.sym('q')}))
        if has:
            pair(ctx, S, v, 'concentration:CUSTOM', w, 'ConcentrationConstant', {}, extra=['q'])
        else:
            unknown(ctx, S, v, 'concentration:CUSTOM:not-a-model', w)
    S = Session(Config())
    unknown(ctx, S, S.call(f, strange(S, list(CONC) + ['FROM_FORMATION_HISTORY', 'CUSTOM']), S.py({'q': S.sym('q')})), 'concentration:unknown', w)
    ctx.saw(S)

    f = anchor(TMOD)
    w = where_fn(f)
    for name, (cls, spec) in TRUNC.items():
        S = Session(Config())
        pair(ctx, S, S.call(f, name), 'truncation:' + name, w, cls, spec)
    S = Session(Config())
    c = mk('cls', program().cls('pyHalo.Cosmology.geometry:Geometry').qual)
    pair(ctx, S, S.call(f, c), 'truncation:class', w, 'Geometry', {})
    S = Session(Config())
    for n in ('NO_SUCH_MODEL', '', 'truncation_r50', 'TRUNCATION', 'TRUNCATION_R'):
        S = Session(Config())
        unknown(ctx, S, S.call(f, n), 'truncation:unknown:' + n, w)
    ctx.saw(S)

    f = anchor(MF)
    w = where_fn(f)
    for name, (cls, spec) in MASSF.items():
        for given, kw in (('', {}), (':given', {'q': 'q'}), (':override', {k: k for k in spec})):
            if given == ':override' and not kw:
                continue
            S = Session(Config())
            v = S.call(f, name, S.py({k: S.sym(k) for k in kw}))
            pair(ctx, S, v, 'mass function:%s%s' % (name, given), w, cls, spec, extra=['q'] if given == ':given' else ())
    st = anchor('pyHalo.Rendering.MassFunctions.stucker:stucker_suppression_params')
    for name, cls in (('STUCKER', 'ShethTormenTurnover'), ('STUCKER_SHMF', 'WDMPowerLaw')):
        S = Session(Config())
        d = S.sym('d')
        e = S.r(S.call(st, d))
        v = S.call(f, name, S.py({'dlogT_dlogk': d, 'q': S.sym('q')}))
        pair(ctx, S, v, 'mass function:' + name, w, cls, abc(*e.args) if e.op == 'tup' else {}, extra=['q'])
        S = Session(Config())
        unknown(ctx, S, S.call(f, name, S.py({'q': S.sym('q')})), 'mass function:%s:no-slope' % name, w)
        for k in 'abc':
            S = Session(Config())
            unknown(ctx, S, S.call(f, name, S.py({'dlogT_dlogk': S.sym('d'), k + '_wdm': S.sym('q')})), 'mass function:%s:%s_wdm given' % (name, k), w)
    S = Session(Config())
    unknown(ctx, S, S.call(f, strange(S, list(MASSF) + ['STUCKER', 'STUCKER_SHMF']), S.py({'q': S.sym('q')})), 'mass function:unknown', w)
    ctx.saw(S)


def infall(ctx):
    P = program()
    lc = P.cls('pyHalo.Halos.lens_cosmo:LensCosmo')
    if lc is None:
        raise Broken('LensCosmo not found')
    w = where_fn(P.lookup(lc, 'setup_infall_model'))

    def models(S, o):
        out = []
        for k, v in S.I.obj(S.st, o).fields.items():
            if isinstance(v, T):
                for x, g in gated(S, v):
                    c = S.I.obj(S.st, x).cls if x.op == 'ref' and S.I.obj(S.st, x).kind == 'inst' else None
                    if c is not None and 'nfall' in c.name:
                        out.append((c.name, x, g))
        return out

    def lens(S, *a):
        return S.new(lc, S.sym('zl'), S.sym('zs'), S.sym('cosmo'), *a)
    cfg = lambda: Config(opaque_classes=['Cosmology', 'Geometry'])
    for name, cls in INFALL.items():
        for how in ('constructor', 'setup_infall_model'):
            for m in ('log_m_host', 'm_host'):
                S = Session(cfg())
                kw = S.py({m: S.sym(m)})
                if how == 'constructor':
                    o = lens(S, const(name), kw)
                else:
                    o = lens(S)
                    S.meth(o, 'setup_infall_model', name, kw)
                key = 'infall:%s:%s:%s' % (name, how, m)
                ms = models(S, o)
                if not ms:
                    ctx.undetermined(key, w, 'infall model not found on the lens cosmology')
                    continue
                ctx.require(key, all(c == cls for c, _, _ in ms), w, 'selected %s, documented %s' % ([c for c, _, _ in ms], cls), 'the documented infall model')
    for how in ('constructor', 'setup_infall_model'):
        S = Session(cfg())
        n = strange(S, INFALL)
        for bad in ('NO_SUCH_MODEL', 'hybrid_infall', ''):
            S = Session(cfg())
            if how == 'constructor':
                v = lens(S, const(bad), S.py({}))
            else:
                v = S.meth(lens(S), 'setup_infall_model', bad, S.py({}))
            unknown(ctx, S, v, 'infall:unknown:%s:%s' % (how, bad), w)
    S = Session(cfg())
    o = lens(S, mk('cls', P.cls('pyHalo.Halos.accretion:InfallAtZlens').qual), S.py({}))
    ctx.require('infall:class', [c for c, _, _ in models(S, o)] == ['InfallAtZlens'] or None, w, 'class not used', 'a class is used as is')
    ctx.saw(S)


def mdefs(ctx):
    P = program()
    rz = P.cls(RZ)
    w = where_fn(P.lookup(rz, '__init__'))

    def one(S, name, flag, kw=None):
        k = S.py(kw or {x: S.sym(x) for x in ('truncation_model_subhalos', 'truncation_model_field_halos', 'concentration_model_subhalos',
                                              'concentration_model_field_halos', 'kwargs_density_profile')})
        for x in ('truncation_model_subhalos', 'truncation_model_field_halos'):
            S.st.assume(bnot(TM.eq(S.sym(x), NONE)))
        s = lambda n: S.py([S.sym(n)])
        return S.new(rz, s('m'), s('x'), s('y'), s('r3d'), S.py([name]), s('z'), S.py([flag]), S.sym('lc', 'pyHalo.Halos.lens_cosmo:LensCosmo'), None, k)
    for name, (sub, fld) in MDEF.items():
        for flag, cls in ((True, sub), (False, fld)):
            S = hsession(draws=())
            key = 'mass definition:%s:%s' % (name, 'sub' if flag else 'field')
            o = one(S, name, flag)
            if o.op == 'bottom':
                ctx.violation(key, w, 'the documented name raises', 'the documented name is accepted')
                continue
            es = list_items(S, S.attr(o, 'halos'))
            if len(es) != 1 or es[0][0] is None or len(es[0][0]) != 1:
                ctx.undetermined(key, w, 'halo list not resolved')
                continue
            for h, g in gated(S, es[0][0][0]):
                c = S.I.obj(S.st, h).cls if h.op == 'ref' else None
                ctx.require(key, c.name == cls if c is not None else (False if h.op in ('unknown', 'bottom') else None), w,
                            'selected %s, documented %s' % (c.name if c is not None else TM.show(h, 3), cls), 'the documented halo type')
            ctx.saw(S)
    for flag in (True, False):
        S = hsession(draws=())
        unknown(ctx, S, one(S, strange(S, MDEF), flag), 'mass definition:unknown:%s' % ('sub' if flag else 'field'), w)


def population(ctx):
    P = program()
    ci = P.cls('pyHalo.Rendering.halo_population:HaloPopulation')
    if ci is None:
        raise Broken('HaloPopulation not found')
    w = where_fn(P.lookup(ci, '__init__'))

    def one(S, name):
        sp = mk('cls', P.cls('pyHalo.Rendering.SpatialDistributions.uniform:LensConeUniform').qual)
        mf = mk('cls', P.cls('pyHalo.Rendering.MassFunctions.mass_function_base:CDMPowerLaw').qual)
        kw = S.py({'log_m_host': S.sym('lmh'), 'LOS_normalization': S.sym('n'), 'draw_poisson': True})
        return S.new(ci, S.py([name]), S.py([mf]), S.py([kw]), S.py([sp]), S.py([{'cone_opening_angle': S.sym('cone'), 'geometry': S.sym('geo')}]),
                     S.sym('lc', 'pyHalo.Halos.lens_cosmo:LensCosmo'), S.sym('geo'), S.sym('zz'), S.sym('dzz'))
    cfg = lambda: Config(opaque=LENS, opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'])
    for name, cls in POP.items():
        S = Session(cfg())
        o = one(S, name)
        key = 'population:' + name
        if o.op == 'bottom':
            ctx.violation(key, w, 'the documented name raises', 'the documented name is accepted')
            continue
        for its, g in list_items(S, S.attr(o, 'rendering_classes')):
            c = S.I.obj(S.st, its[0]).cls if its and len(its) == 1 and its[0].op == 'ref' else None
            ctx.require(key, c.name == cls if c is not None else None, w, 'selected %s, documented %s' % (c and c.name, cls), 'the documented population')
        ctx.saw(S)
    S = Session(cfg())
    unknown(ctx, S, one(S, strange(S, POP)), 'population:unknown', w)


def run(ctx):
    ctx.guard('tables', tables, ctx)
    ctx.guard('infall', infall, ctx)
    ctx.guard('mass definitions', mdefs, ctx)
    ctx.guard('populations', population, ctx)
