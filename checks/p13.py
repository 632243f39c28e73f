"""P13 preset parameters reach the population they describe."""
from .common import *
from .halos import as_dict, as_list
from .p12 import anchor

EXPLAIN = ("Every preset is evaluated with symbolic parameters up to its call of pyHalo.render; the populations, mass functions, spatial distributions, halo "
           "models and geometry it hands over, the infall model it configures, and the extensions applied to the rendered realization are compared with "
           "those the documented meaning of the parameters prescribes. Presets built on cold dark matter are compared with the CDM preset itself.")
FLOOR = 200
PM = 'pyHalo.PresetModels.'
MFB, DP = 'pyHalo.Rendering.MassFunctions.mass_function_base:', 'pyHalo.Rendering.MassFunctions.density_peaks:'
UNI, NFWS = 'pyHalo.Rendering.SpatialDistributions.uniform:', 'pyHalo.Rendering.SpatialDistributions.nfw:'
EXT = ['SIS_injection', 'add_globular_clusters', 'toSIDM_from_cross_section', 'core_collapse_by_mass', 'add_core_collapsed_halos', 'add_ULDM_fluctuations',
       'add_black_holes']
NUM = ['sigma_sub', 'log_mlow', 'log_mhigh', 'shmf_log_slope', 'cone_opening_angle_arcsec', 'log_m_host', 'r_tidal', 'LOS_normalization',
       'host_scaling_factor', 'redshift_scaling_factor', 'two_halo_Lazar_correction', 'draw_poisson', 'c_host', 'geometry_type', 'kwargs_cosmo', 'lens_plane_spacing']


class Run:
    """one abstract evaluation of a preset"""

    def __init__(self, preset, args, opaque=()):
        self.S = S = Session(Config(opaque=['MinHaloMassULDM', 'de_broglie_wavelength', 'stucker_suppression_params', 'NFW_params_physical'] + list(opaque),
                                    opaque_classes=['LensCosmo', 'Cosmology', 'Geometry', 'MinHaloMassULDM']))
        self.renders, self.exts, self.infall = [], [], []
        self.fi = anchor(PM + preset)
        self.where = where_fn(self.fi)
        I = S.I

        def on_call(fi, a, k, st, node):
            if fi.cls is not None and fi.cls.name == 'pyHalo' and fi.name == 'render':
                env = I.bind(fi, a, k, st, node)
                self.renders.append((band(*st.pc), {p: I.reify(env[p], st) for p in fi.params[1:]}, I.reify(I.get_attr(env[fi.params[0]], 'lens_cosmo', st), st)))
                return I.new_list(st, [mk('item', TM.sym('rendered%d' % len(self.renders)))])
            if fi.cls is not None and fi.cls.name == 'RealizationExtensions' and fi.name in EXT:
                env = I.bind(fi, a, k, st, node)
                d = {p: I.reify(env[p], st) for p in fi.params[1:]}
                if fi.kwarg:
                    d.update({'**' + x: v for x, v in (as_dict(I.reify(env[fi.kwarg], st)) or {'?': NONE}).items()})
                src = I.reify(I.get_attr(env[fi.params[0]], '_realization', st), st)
                self.exts.append((band(*st.pc), fi.name, d, src))
                flat = []
                for x in sorted(d):
                    flat += [x, d[x]]
                return mk('call', 'ext.' + fi.name, mk('args', src), mk('kw', *flat))
            if fi.cls is not None and fi.name == 'nfw_concentration':
                env = I.bind(fi, a, k, st, node)
                return mk('call', 'nfw_concentration', mk('args', *[I.reify(env[p], st) for p in fi.params]), mk('kw'))
            if fi.cls is not None and fi.cls.name == 'LensCosmo' and fi.name == 'setup_infall_model':
                env = I.bind(fi, a, k, st, node)
                self.infall.append((band(*st.pc), {p: I.reify(env[p], st) for p in fi.params}))
            return None
        self.on_call = I.on_call = on_call
        self.args = {k: (S.sym(v[1:]) if isinstance(v, str) and v.startswith('$') else S.py(v)) for k, v in args.items()}
        for k, v in args.items():
            if isinstance(v, str) and v.startswith('$'):
                S.st.assume(bnot(TM.eq(self.args[k], NONE)))
        self.given = band(*S.st.pc)
        out = S.call(self.fi, **self.args)
        self.out = S.r(out)
        self.returns = band(*S.st.pc)

    def sub(self):
        if len(self.renders) != 1:
            return None
        return self.renders[0][1]


def lists(r):
    """[(population, class, kwargs, spatial class, spatial kwargs)] handed to render"""
    cols = [as_list(r[k]) for k in ('population_model_list', 'mass_function_class_list', 'kwargs_mass_function_list', 'spatial_distribution_class_list', 'kwargs_spatial_distribution_list')]
    if any(c is None for c in cols):
        return None
    n = len(cols[0])
    if any(len(c) < n for c in cols[1:]):
        return False
    return [tuple(c[i] for c in cols) for i in range(n)]


def same_dict(ctx, key, got, want, w, either=()):
    """want: name -> term, or a list of acceptable terms"""
    d = as_dict(got)
    if d is None:
        ctx.undetermined(key, w, 'keyword arguments not resolved: ' + TM.show(got, 3))
        return
    d = {k: v for k, v in d.items() if v.op != 'absent'}
    d.setdefault('draw_poisson', TRUE) if 'draw_poisson' in want else None
    for k in sorted(set(d) | set(want)):
        if k not in want:
            if k in either:
                continue
            ctx.violation('%s:%s' % (key, k), w, 'unexpected setting %s = %s' % (k, TM.show(d[k], 4)), 'exactly the documented settings are passed')
        elif k not in d:
            ctx.violation('%s:%s' % (key, k), w, 'the setting %s is not passed' % k, 'exactly the documented settings are passed')
        elif isinstance(want[k], list):
            ctx.one_of('%s:%s' % (key, k), d[k], want[k], w, 'the parameter documented for this setting')
        else:
            ctx.equal('%s:%s' % (key, k), d[k], want[k], w, 'the parameter documented for this setting')


def cls(q):
    c = program().cls(q)
    if c is None:
        raise Broken(q + ' not found')
    return mk('cls', c.qual)


class Spec:
    """what a preset must hand to render; built in the same session from the same symbols"""

    def __init__(self, R, a):
        self.R, self.S, self.a = R, R.S, a
        S = self.S
        self.zl, self.zs = R.args['z_lens'], R.args['z_source']
        P = S.new('pyHalo.pyhalo:pyHalo', self.zl, self.zs, a('kwargs_cosmo'))
        self.cosmology = S.attr(P, 'cosmology')
        self.astropy = S.attr(P, 'astropy_cosmo')
        self.lens_cosmo = S.attr(P, 'lens_cosmo')
        self.geometry = S.new('pyHalo.Cosmology.geometry:Geometry', self.cosmology, self.zl, self.zs, a('cone_opening_angle_arcsec'), a('geometry_type'))

    def e(self, src, **kw):
        env = {k: self.a(k) for k in NUM + ['log10_sigma_sub', 'log10_dNdA', 'delta_power_law_index', 'log_mc'] if self.a(k) is not None}
        env.update(kw)
        return self.S.expr(src, env)

    def sub_norm(self):
        a = self.a
        if a('log10_dNdA') is not None and a('log10_dNdA') is not NONE:
            return {'dndA': self.e('10**log10_dNdA')}
        if a('log10_sigma_sub') is not None and a('log10_sigma_sub') is not NONE:
            return {'sigma_sub': self.e('10**log10_sigma_sub')}
        return {'sigma_sub': a('sigma_sub')}

    def subhalos(self, **more):
        a = self.a
        d = dict(log_mlow=a('log_mlow'), log_mhigh=a('log_mhigh'), m_pivot=self.e('10**8'), power_law_index=a('shmf_log_slope'), log_m_host=a('log_m_host'),
                 delta_power_law_index=self.e('0.0'), host_scaling_factor=a('host_scaling_factor'), redshift_scaling_factor=a('redshift_scaling_factor'),
                 draw_poisson=a('draw_poisson') if a('draw_poisson') is not None else TRUE)
        if a('delta_power_law_index') is not None:
            # documented for both populations, while the slope of the subhalo mass function has its own argument
            d['delta_power_law_index'] = [d['delta_power_law_index'], a('delta_power_law_index')]
        d.update(self.sub_norm())
        d.update(more)
        return d

    def field(self, **more):
        a = self.a
        d = dict(log_mlow=a('log_mlow'), log_mhigh=a('log_mhigh'), m_pivot=self.e('10**8'), LOS_normalization=a('LOS_normalization'), log_m_host=a('log_m_host'),
                 delta_power_law_index=a('delta_power_law_index') if a('delta_power_law_index') is not None else self.e('0.0'),
                 draw_poisson=a('draw_poisson') if a('draw_poisson') is not None else TRUE)
        d.update(more)
        return d

    def spatial(self, name, c_host):
        half = self.e('cone_opening_angle_arcsec/2')
        if name == 'UNIFORM':
            return cls(UNI + 'Uniform'), dict(rmax2d_arcsec=half, geometry=self.geometry)
        return cls(NFWS + 'ProjectedNFW'), dict(m_host=self.e('10**log_m_host'), zlens=self.zl, c_host=c_host, rmax2d_arcsec=half, r_core_units_rs=self.a('r_tidal'),
                                                lens_cosmo=self.lens_cosmo)

    def los_spatial(self):
        return cls(UNI + 'LensConeUniform'), dict(cone_opening_angle=self.a('cone_opening_angle_arcsec'), geometry=self.geometry)

    def table(self, fn, name, kw):
        """(class, settings) of a model name, through the tables decided by P12"""
        v = self.S.call(fn, name, self.S.py(kw)) if kw is not None else self.S.call(fn, name)
        return v.args[0], v.args[1]

    def inst(self, c, d, **more):
        S = self.S
        kw = {k.args[0]: x for k, x in S.I.obj(S.st, d).items.items() if x.op != 'absent'}
        kw.update(more)
        return S.new(program().cls(c.args[0]), **kw)

    def conc(self, name, kw, **more):
        c, d = self.table('pyHalo.concentration_models:preset_concentration_models', name, dict(kw, cosmo=self.astropy, **({'log_mc': self.a('log_mc')} if self.a('log_mc') is not None else {})))
        return self.inst(c, d, **more)

    def trunc(self, name, kw, c_host=None):
        c, d = self.table('pyHalo.truncation_models:truncation_models', name, None)
        more = dict(kw, lens_cosmo=self.lens_cosmo)
        if 'GALACTICUS' in name and 'APPROX' not in name:
            more['c_host'] = c_host
        return self.inst(c, d, **more)


def check(ctx, key, R, sp, pops, halo, mdef, w):
    """pops: list of (name, mass function class, kwargs, (spatial class, kwargs))"""
    S = R.S
    if len(R.renders) != 1:
        (ctx.undetermined if R.renders or R.out.op != 'bottom' else ctx.violation)(key, w, '%d render calls, result %s' % (len(R.renders), TM.show(R.out, 3)), 'the preset renders one realization')
        return
    pc, r, lc = R.renders[0]
    ctx.equal(key + ':rendered', band(R.returns, bnot(pc)), FALSE, w, 'the populations are rendered for all inputs')
    ctx.equal(key + ':lens_cosmo', lc, S.r(sp.lens_cosmo), w, 'cosmology and lens geometry of the given redshifts')
    ctx.equal(key + ':geometry', r['geometry_class'], S.r(sp.geometry), w, 'the rendering volume')
    L = lists(r)
    if L is None or L is False:
        ctx.require(key + ':populations', L, w, 'population lists not resolved' if L is None else 'fewer mass functions or spatial distributions than populations',
                    'every population has its mass function and spatial distribution')
        return
    names = [x[0].args[0] if x[0].op == 'const' else '?' for x in L]
    want = [p[0] for p in pops]
    ctx.require(key + ':populations', sorted(names) == sorted(want) if '?' not in names else None, w, 'rendered populations %s, expected %s' % (names, want), 'the documented populations')
    left = list(range(len(L)))
    for pname, mcls, mkw, (scls, skw) in pops:
        idx = [i for i in left if names[i] == pname]
        if not idx:
            continue
        i = idx[0]
        left.remove(i)
        k = '%s:%s' % (key, pname)
        ctx.equal(k + ':mass function', L[i][1], mcls, w, 'the mass function class of this population')
        same_dict(ctx, k + ':mass function', L[i][2], mkw, w, either=('host_m200',))
        ctx.equal(k + ':spatial', L[i][3], scls, w, 'the spatial distribution class of this population')
        same_dict(ctx, k + ':spatial', L[i][4], {a: (S.r(b) if isinstance(b, T) else b) for a, b in skw.items()}, w)
    same_dict(ctx, key + ':halo model', r['kwargs_halo_model'], {a: S.r(b) for a, b in halo.items()}, w)
    ctx.equal(key + ':mdef_subhalos', r['mdef_subhalos'], mdef[0], w, 'density profile of subhalos')
    ctx.equal(key + ':mdef_field_halos', r['mdef_field_halos'], mdef[1], w, 'density profile of field halos')
    a = sp.a
    ctx.equal(key + ':Lazar', r['two_halo_Lazar_correction'], a('two_halo_Lazar_correction') if a('two_halo_Lazar_correction') is not None else TRUE, w, 'two-halo correction switch')
    ctx.equal(key + ':boost', r['scale_2halo_boost_factor'], a('scale_2halo_boost_factor') if a('scale_2halo_boost_factor') is not None else S.expr('1.0', {}), w, 'two-halo boost')
    ctx.equal(key + ':spacing', r['lens_plane_spacing'], a('lens_plane_spacing') if a('lens_plane_spacing') is not None else NONE, w, 'spacing of the lens planes')


def infall(ctx, key, R, name, w):
    """the infall model is set up on the lens cosmology used for rendering, for the host mass of the preset"""
    key += ':infall'
    if len(R.infall) != 1:
        ctx.require(key, False if not R.infall else None, w, '%d infall models configured' % len(R.infall), 'the infall model is configured once')
        return
    pc, d = R.infall[0]
    v = list(d.values())
    ctx.equal(key + ':configured', band(R.returns, bnot(pc)), FALSE, w, 'the infall model is configured for all inputs')
    if R.renders:
        ctx.equal(key + ':lens cosmology', v[0], R.renders[0][2], w, 'configured on the lens cosmology that is rendered with')
    ctx.equal(key + ':model', v[1], const(name), w, 'the requested infall model')
    kw = as_dict(v[2])
    if kw is None:
        ctx.undetermined(key + ':arguments', w, 'not resolved')
    elif name in ('HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER'):
        same_dict(ctx, key + ':arguments', v[2], dict(R.infall_given, log_m_host=R.args['log_m_host']), w)
    else:
        same_dict(ctx, key + ':arguments', v[2], dict(R.infall_given), w, either=('log_m_host',))


def final(ctx, key, R, want, w):
    """operations applied to the rendered realization: list of (name, {argument: term})"""
    S = R.S
    got = []
    t = R.out
    while t.op == 'call' and str(t.args[0]).startswith('ext.'):
        kw = t.args[2].args
        got.append((t.args[0][4:], dict(zip(kw[::2], kw[1::2]))))
        t = t.args[1].args[0]
    if t.op != 'sym' or not str(t.args[0]).startswith('rendered'):
        ctx.undetermined(key + ':result', w, 'result %s' % TM.show(R.out, 4))
        return
    ctx.require(key + ':result', sorted(n for n, _ in got) == sorted(n for n, _ in want), w, 'operations applied %s, expected %s'
                % ([n for n, _ in got], [n for n, _ in want]), 'exactly the requested operations are applied to the rendered realization')
    for n, a in want:
        for m, b in got:
            if m == n:
                for k in sorted(a):
                    ctx.equal('%s:%s:%s' % (key, n, k), b.get(k, mk('absent')), a[k], w, 'the parameter documented for this operation')


SYMS = {k: '$' + k for k in NUM}
BASE = dict(SYMS, z_lens='$z_lens', z_source='$z_source', geometry_type='$geometry_type', kwargs_cosmo=None)
TRN = dict(truncation_model_subhalos='TRUNCATION_GALACTICUS', truncation_model_fieldhalos='TRUNCATION_RN', infall_redshift_model='DIRECT_INFALL')


def getter(R, over=None):
    def a(k):
        if over and k in over:
            return over[k]
        v = R.args.get(k)
        if v is None and k in R.fi.params + R.fi.kwonly and k in R.fi.defaults:
            v = R.S.I.eval(R.fi.defaults[k], R.S.st) if not isinstance(R.fi.defaults[k], T) else R.fi.defaults[k]
        return v
    return a


def variants(tier):
    """named argument overrides"""
    V = {'plain': {}, 'log10_sigma_sub': dict(log10_sigma_sub='$l10s'), 'log10_dNdA': dict(log10_dNdA='$l10n'),
         'both norms': dict(log10_sigma_sub='$l10s', log10_dNdA='$l10n'), 'uniform': dict(subhalo_spatial_distribution='UNIFORM'),
         'nfw': dict(subhalo_spatial_distribution='PROJECTED_NFW'), 'free c_host': dict(c_host=None, subhalo_spatial_distribution='PROJECTED_NFW'),
         'no two halo': dict(two_halo_contribution=False), 'cosmo': dict(kwargs_cosmo={'H0': '$H0', 'Ob0': '$Ob0', 'Om0': '$Om0'}),
         'keeley': dict(truncation_model_subhalos='TRUNCATION_GALACTICUS_KEELEY24'), 'zinfall': dict(truncation_model_subhalos='TRUNCATION_GALACTICUS_ZINFALL'),
         'roche': dict(truncation_model_subhalos='TRUNCATION_ROCHE', truncation_model_fieldhalos='TRUNCATION_R50'),
         'sis': dict(mass_threshold_sis='$mt'), 'gc': dict(add_globular_clusters=True, kwargs_globular_clusters={'log10_mgc_mean': '$ngc'}),
         'sis+gc': dict(mass_threshold_sis='$mt', add_globular_clusters=True, kwargs_globular_clusters={'log10_mgc_mean': '$ngc'}),
         'hybrid': dict(infall_redshift_model='HYBRID_INFALL'), 'cluster': dict(infall_redshift_model='DIRECT_INFALL_CLUSTER')}
    return V


def symd(S, d):
    return {k: (S.sym(v[1:]) if isinstance(v, str) and v.startswith('$') else v) for k, v in d.items()}


def args_of(preset, base, over):
    f = anchor(PM + preset)
    a = dict(base)
    a.update(over)
    out = {}
    for k, v in a.items():
        if k not in f.params + f.kwonly:
            continue
        if isinstance(v, dict):
            v = {x: (TM.sym(y[1:]) if isinstance(y, str) and y.startswith('$') else y) for x, y in v.items()}
        out[k] = v
    return out


def relevant(preset, over):
    f = anchor(PM + preset)
    return all(k in f.params + f.kwonly for k in over)


def extras(S, over, f):
    out = []
    if over.get('mass_threshold_sis'):
        sis = program().lookup(program().cls('pyHalo.realization_extensions:RealizationExtensions'), 'SIS_injection')
        d = {sis.params[1]: S.sym('mt')}
        if 'galaxy_model' in f.params:
            d[sis.params[2]] = S.sym('galaxy_model')
        out.append(('SIS_injection', d))
    if over.get('add_globular_clusters'):
        out.append(('add_globular_clusters', {'log10_mgc_mean': S.sym('ngc')}))
    return out


def cdm(ctx):
    for vn, over in variants(ctx.tier).items():
        base = dict(BASE, **TRN)
        base.update(subhalo_spatial_distribution='UNIFORM', concentration_model_subhalos='LUDLOW2016', concentration_model_fieldhalos='DIEMERJOYCE19',
                    kwargs_concentration_model_subhalos={'scatter': '$scs'}, kwargs_concentration_model_fieldhalos={'scatter': '$scf'},
                    kwargs_truncation_model_fieldhalos={'LOS_truncation_factor': '$ltf'}, kwargs_truncation_model_subhalos={}, kwargs_infall_model={'log_m_host': '$lmi'},
                    delta_power_law_index='$delta_power_law_index', two_halo_contribution=True, galaxy_model='$galaxy_model', halo_mass_profile='NFW')
        ctx.guard('CDM:' + vn, cdm1, ctx, 'CDM:' + vn, 'cdm:CDM', base, over)


def models(sp, R, args, conc_more=None):
    """expected concentration and truncation instances (subhalos, field), host concentration"""
    S = R.S
    sy = lambda n: {k: (v if isinstance(v, T) else S.py(v)) for k, v in args.get(n, {}).items()}
    conc = [sp.conc(args['concentration_model_' + p], sy('kwargs_concentration_model_' + p), **(conc_more or {})) for p in ('subhalos', 'fieldhalos')]
    return conc, lambda ch: [sp.trunc(args['truncation_model_subhalos'], sy('kwargs_truncation_model_subhalos'), ch),
                             sp.trunc(args['truncation_model_fieldhalos'], sy('kwargs_truncation_model_fieldhalos'))]


def halo_model(conc, tr, dens):
    return dict(truncation_model_subhalos=tr[0], concentration_model_subhalos=conc[0], truncation_model_field_halos=tr[1], concentration_model_field_halos=conc[1],
                kwargs_density_profile=dens)


def start(preset, base, over):
    args = args_of(preset, base, over)
    R = Run(preset, args)
    R.infall_given = {k: (v if isinstance(v, T) else R.S.py(v)) for k, v in args.get('kwargs_infall_model', {}).items()}
    return args, R, R.S, R.where, Spec(R, getter(R))


def cdm1(ctx, key, preset, base, over):
    args, R, S, w, sp = start(preset, base, over)
    conc, trunc = models(sp, R, args, dict(scatter_dex=S.py(0.2)))
    ch = R.args['c_host'] if args['c_host'] is not None else S.meth(conc[1], 'nfw_concentration', S.expr('10**lm', dict(lm=R.args['log_m_host'])), sp.zl)
    tr = trunc(ch)
    los = sp.los_spatial()
    pops = [('SUBHALOS', cls(MFB + 'CDMPowerLaw'), sp.subhalos(), sp.spatial(args['subhalo_spatial_distribution'], ch)),
            ('LINE_OF_SIGHT', cls(DP + 'ShethTormen'), sp.field(), los)]
    if args['two_halo_contribution']:
        pops.append(('TWO_HALO', cls(DP + 'ShethTormen'), sp.field(), los))
    check(ctx, key, R, sp, pops, halo_model(conc, tr, S.py({})), (const(args['halo_mass_profile']),) * 2, w)
    infall(ctx, key, R, args['infall_redshift_model'], w)
    final(ctx, key, R, extras(S, over, R.fi), w)
    ctx.saw(S)


def wdm(ctx):
    for vn, over in variants(ctx.tier).items():
        base = dict(BASE, **TRN)
        base.update(log_mc='$log_mc', subhalo_spatial_distribution='UNIFORM', mass_function_model_subhalos='SHMF_LOVELL2020', mass_function_model_fieldhalos='SCHIVE2016',
                    kwargs_mass_function_subhalos={}, kwargs_mass_function_fieldhalos={},
                    concentration_model_subhalos='BOSE2016', concentration_model_fieldhalos='LAROCHE2022',
                    kwargs_concentration_model_subhalos={'scatter': '$scs'}, kwargs_concentration_model_fieldhalos={'scatter': '$scf'},
                    kwargs_truncation_model_fieldhalos={}, kwargs_truncation_model_subhalos={}, kwargs_infall_model={'log_m_host': '$lmi'},
                    two_halo_contribution=True, mdef_subhalos='TNFW', mdef_field_halos='NFW', kwargs_density_profile={'q': '$dens'})
        ctx.guard('WDM:' + vn, wdm1, ctx, 'WDM:' + vn, 'wdm:WDM', base, over)
        if vn == 'plain':
            for n, o in (('ludlow', dict(concentration_model_subhalos='BOSE2016_LUDLOW')), ('ludlow field', dict(concentration_model_fieldhalos='BOSE2016_LUDLOW')),
                         ('hyperbolic', dict(concentration_model_subhalos='WDM_HYPERBOLIC', concentration_model_fieldhalos='WDM_HYPERBOLIC', cdm_relation=True,
                                             kwargs_concentration_model_subhalos={'a': '$ca', 'b': '$cb'}, kwargs_concentration_model_fieldhalos={'a': '$fa', 'b': '$fb'}))):
                ctx.guard('WDM:' + n, wdm1, ctx, 'WDM:' + n, 'wdm:WDM', base, o)
        if relevant('wdm:WDM_mixed', over):
            b = dict(base, mixed_DM_frac='$fmix', mass_function_model_subhalos='SHMF_MIXED_WDM_TURNOVER', mass_function_model_fieldhalos='MIXED_WDM_TURNOVER')
            ctx.guard('WDM_mixed:' + vn, wdm1, ctx, 'WDM_mixed:' + vn, 'wdm:WDM_mixed', b, over)
            if vn == 'plain':
                b2 = dict(b, kwargs_mass_function_subhalos={'a_wdm': '$as', 'c_wdm': '$cs'}, kwargs_mass_function_fieldhalos={'b_wdm': '$bf'})
                ctx.guard('WDM_mixed:given', wdm1, ctx, 'WDM_mixed:given', 'wdm:WDM_mixed', b2, over)
        if relevant('wdm:WDMGeneral', {k: v for k, v in over.items() if k != 'two_halo_contribution'}) and 'two_halo_contribution' not in over:
            b = dict(base, dlogT_dlogk='$dlogT', mass_threshold_sis=None)
            ctx.guard('WDMGeneral:' + vn, general1, ctx, 'WDMGeneral:' + vn, 'wdm:WDMGeneral', b, over)


def default_of(fi, S, args, k):
    """the value of an argument as the preset receives it"""
    if k in args:
        return args[k]
    d = fi.defaults.get(k)
    if d is None:
        return None
    v = S.I.eval(d, S.st)
    return v.args[0] if v.op == 'const' else v


def wdm1(ctx, key, preset, base, over):
    args, R, S, w, sp = start(preset, base, over)
    mixed = 'mixed' in preset
    if mixed:
        # what the mixed preset does not expose behaves as in the warm dark matter preset
        wfi = anchor(PM + 'wdm:WDM')
        for k in NUM + ['two_halo_contribution', 'subhalo_spatial_distribution', 'mdef_subhalos', 'mdef_field_halos', 'infall_redshift_model', 'log10_sigma_sub', 'log10_dNdA']:
            if k not in args and k in wfi.defaults:
                v = S.I.eval(wfi.defaults[k], S.st)
                args[k] = v.args[0] if v.op == 'const' else v
                R.args.setdefault(k, v)
        sp = Spec(R, getter(R, {k: (v if isinstance(v, T) else S.py(v)) for k, v in args.items() if k not in R.fi.params}))
    # relations that do not name the cold relation they modify use the one of Diemer & Joyce
    conc, trunc = models(sp, R, args, {'concentration_cdm_class': cls('pyHalo.Halos.concentration:ConcentrationDiemerJoyce')} if over.get('cdm_relation') else None)
    ch = R.args['c_host'] if args['c_host'] is not None else S.meth(conc[1], 'nfw_concentration', S.expr('10**lm', dict(lm=R.args['log_m_host'])), sp.zl)
    tr = trunc(ch)
    los = sp.los_spatial()

    def mf(p, common):
        kw = {k: (v if isinstance(v, T) else S.py(v)) for k, v in args.get('kwargs_mass_function_' + p, {}).items()}
        if mixed:
            kw = dict(a_wdm=S.py(0.5), b_wdm=S.py(0.8), c_wdm=S.py(-3.0), **{k: v for k, v in kw.items() if k not in ('a_wdm', 'b_wdm', 'c_wdm')}) | kw
            kw['mixed_DM_frac'] = R.args['mixed_DM_frac']
        c, d = sp.table('pyHalo.mass_function_models:preset_mass_function_models', args['mass_function_model_' + p], kw)
        o = dict(common, log_mc=R.args['log_mc'])
        for k, v in as_dict(S.r(d)).items():
            o[k] = v
        return c, o
    cs, ks = mf('subhalos', sp.subhalos())
    cf, kf = mf('fieldhalos', sp.field())
    pops = [('SUBHALOS', cs, ks, sp.spatial(args['subhalo_spatial_distribution'], ch)), ('LINE_OF_SIGHT', cf, kf, los)]
    if args['two_halo_contribution']:
        pops.append(('TWO_HALO', cf, kf, los))
    check(ctx, key, R, sp, pops, halo_model(conc, tr, S.py(args['kwargs_density_profile'])), (const(args['mdef_subhalos']), const(args['mdef_field_halos'])), w)
    infall(ctx, key, R, args['infall_redshift_model'], w)
    final(ctx, key, R, extras(S, over, R.fi), w)
    ctx.saw(S)


def general1(ctx, key, preset, base, over):
    args, R, S, w, sp = start(preset, base, over)
    d = R.args['dlogT_dlogk']
    args.update(concentration_model_subhalos='LUDLOW_WDM', concentration_model_fieldhalos='LUDLOW_WDM')
    args.pop('kwargs_concentration_model_subhalos', None), args.pop('kwargs_concentration_model_fieldhalos', None)
    conc, trunc = models(sp, R, args, {'dlogT_dlogk': d})
    cdmc = S.new('pyHalo.Halos.concentration:ConcentrationDiemerJoyce', sp.astropy)
    ch = R.args['c_host'] if args['c_host'] is not None else S.meth(cdmc, 'nfw_concentration', S.expr('10**lm', dict(lm=R.args['log_m_host'])), sp.zl)
    tr = trunc(ch)
    los = sp.los_spatial()

    def mf(name, common):
        c, k = sp.table('pyHalo.mass_function_models:preset_mass_function_models', name, {'dlogT_dlogk': d})
        o = dict(common, log_mc=R.args['log_mc'])
        o.update({a: b for a, b in as_dict(S.r(k)).items() if b.op != 'absent'})
        return c, o
    cs, ks = mf('STUCKER_SHMF', sp.subhalos())
    if 'dndA' in ks:
        ks.pop('log_m_host')
    cf, kf = mf('STUCKER', sp.field())
    pops = [('SUBHALOS', cs, ks, sp.spatial(args['subhalo_spatial_distribution'], ch)), ('LINE_OF_SIGHT', cf, kf, los), ('TWO_HALO', cf, kf, los)]
    check(ctx, key, R, sp, pops, halo_model(conc, tr, S.py(args['kwargs_density_profile'])), (const(args['mdef_subhalos']), const(args['mdef_field_halos'])), w)
    infall(ctx, key, R, args['infall_redshift_model'], w)
    final(ctx, key, R, extras(S, over, R.fi), w)
    ctx.saw(S)


COPT = ['sigma_sub', 'log_mlow', 'log_mhigh', 'log10_sigma_sub', 'log10_dNdA', 'shmf_log_slope', 'cone_opening_angle_arcsec', 'log_m_host', 'r_tidal', 'LOS_normalization',
        'host_scaling_factor', 'redshift_scaling_factor', 'two_halo_Lazar_correction', 'draw_poisson', 'c_host', 'mass_threshold_sis', 'galaxy_model', 'add_globular_clusters']


def same_render(ctx, key, A, B, w, skip=()):
    """preset A hands to render what preset B does"""
    if len(A.renders) != 1 or len(B.renders) != 1:
        ctx.undetermined(key, w, '%d and %d render calls' % (len(A.renders), len(B.renders)))
        return
    (_, a, la), (_, b, lb) = A.renders[0], B.renders[0]
    ctx.equal(key + ':lens cosmology', la, lb, w, 'same as in the underlying preset')
    for k in sorted(b):
        if k in ('nrealizations',) or k in skip:
            continue
        ctx.equal('%s:%s' % (key, k), a[k], b[k], w, 'same as in the underlying preset called with the same arguments')
    if len(A.infall) == len(B.infall) == 1:
        for (k, x), (_, y) in zip(A.infall[0][1].items(), B.infall[0][1].items()):
            ctx.equal('%s:infall:%s' % (key, k), x, y, w, 'same as in the underlying preset called with the same arguments')
    else:
        ctx.require(key + ':infall', len(A.infall) == len(B.infall) or None, w, '%d and %d infall models' % (len(A.infall), len(B.infall)))


CDMARGS = dict(BASE, sigma_sub='$sigma_sub', truncation_model_subhalos='TRUNCATION_GALACTICUS', truncation_model_fieldhalos='TRUNCATION_RN',
               infall_redshift_model='GALACTICUS_2024', kwargs_infall_model={'log_m_host': '$lmi'}, concentration_model_subhalos='LUDLOW2016',
               concentration_model_fieldhalos='DIEMERJOYCE19', kwargs_concentration_model_subhalos={'scatter': '$scs'},
               kwargs_concentration_model_fieldhalos={'scatter': '$scf'}, kwargs_truncation_model_subhalos={}, kwargs_truncation_model_fieldhalos={'LOS_truncation_factor': '$ltf'},
               galaxy_model='$galaxy_model')


def under_args(R, under, base, over):
    """arguments of the underlying preset: what the caller gives, and the wrapping preset's own defaults"""
    ua = {k: v for k, v in args_of(under, base, over).items() if k in R.fi.params + R.fi.kwonly}
    f = anchor(PM + under)
    for k, d in R.fi.defaults.items():
        if k in f.params + f.kwonly and k not in ua:
            v = R.S.r(R.S.I.eval(d, R.S.st))
            if v.op in ('num', 'str', 'const', 'neg') or v.op == 'none':
                ua[k] = v
    return ua


def built_on(ctx, key, preset, base, over, under, fixed, ops, skip=()):
    """a preset built on another one: same rendering, then the operations ops(R) -> [(name, args)]"""
    a = args_of(preset, base, over)
    R = Run(preset, a)
    w = R.where
    ua = under_args(R, under, base, over)
    ua.update(fixed(R) if callable(fixed) else fixed)
    U = Run(under, ua)
    same_render(ctx, key, R, U, w, skip)
    final(ctx, key, R, ops(R, U), w)
    ctx.saw(R.S)


def call_args(name, R, *a, **k):
    """arguments of an extension by name, bound to its current signature"""
    fi = program().lookup(program().cls('pyHalo.realization_extensions:RealizationExtensions'), name)
    if fi is None:
        raise Broken('RealizationExtensions.%s not found' % name)
    d = dict(zip(fi.params[1:], a))
    for x, v in k.items():
        d[x if x in fi.params else '**' + x] = v
    return name, d


def inner(U):
    """operations already applied by the underlying preset"""
    out, t = [], U.out
    while t.op == 'call' and str(t.args[0]).startswith('ext.'):
        kw = t.args[2].args
        out.append((t.args[0][4:], dict(zip(kw[::2], kw[1::2]))))
        t = t.args[1].args[0]
    return out


def built(ctx):
    fixed = dict(two_halo_contribution=True, delta_power_law_index=0.0, subhalo_spatial_distribution='UNIFORM')
    V = {k: v for k, v in variants(ctx.tier).items() if k not in ('uniform', 'nfw', 'no two halo')}
    for vn, over in V.items():
        for preset in ('sidm:SIDM_core_collapse', 'sidm:SIDM_parametric', 'sidm:SIDM_parametric_fixedbins', 'mbh:CDM_plus_BH'):
            over2 = {k: v for k, v in over.items() if k != 'subhalo_spatial_distribution'}
            if not relevant(preset, over2) or 'c_host' in over2:
                continue
            n = preset.split(':')[1]
            base = dict(CDMARGS, mass_ranges_subhalos='$mrs', mass_ranges_field_halos='$mrf', probabilities_subhalos='$ps', probabilities_field_halos='$pf',
                        collapsed_halo_profile='$prof', log10_mass_ranges='$lmr', log10_effective_cross_section_list='$xs', log10_subhalo_time_scaling='$lts',
                        evolving_SIDM_profile='$ev', evolving_profile='$ev', x_core_halo='$xc', log10_sigma_eff_mlow_8='$s1', log10_sigma_eff_8_mhigh='$s2',
                        log10_mass_ratio='$lmrat', log10_occupation_frac='$locc', log10_mlow_halos_subres='$lsub', log10_min_mbh='$lmin', log10_mass_maximum='$lmaxbh')
            gc = [('add_globular_clusters', {'log10_mgc_mean': TM.sym('ngc')})] if over.get('add_globular_clusters') else []

            def ops(R, U, n=n, gc=gc):
                a = R.args
                if n == 'SIDM_core_collapse':
                    return inner(U) + [call_args('add_core_collapsed_halos', R, None, a['collapsed_halo_profile'])] if True else []
                if n == 'SIDM_parametric':
                    return inner(U) + [call_args('toSIDM_from_cross_section', R, a['log10_mass_ranges'], a['log10_effective_cross_section_list'], a['log10_subhalo_time_scaling'],
                                                 a['evolving_SIDM_profile'], a['x_core_halo'])] + gc
                if n == 'SIDM_parametric_fixedbins':
                    S = R.S
                    e = lambda s: S.r(S.expr(s, {k: v for k, v in a.items()}))
                    return inner(U) + [call_args('toSIDM_from_cross_section', R, e('[[log_mlow, 8.0], [8.0, log_mhigh]]'), e('[log10_sigma_eff_mlow_8, log10_sigma_eff_8_mhigh]'),
                                                 a['log10_subhalo_time_scaling'], a['evolving_profile'], a['x_core_halo'])] + gc
                return []
            fx = dict(fixed)
            if n in ('SIDM_parametric', 'SIDM_parametric_fixedbins'):
                # globular clusters are added after the conversion
                fx['add_globular_clusters'] = False
            if n == 'CDM_plus_BH':
                ctx.guard(n + ':' + vn, with_bh, ctx, n + ':' + vn, preset, base, over2, gc)
            elif n == 'SIDM_core_collapse':
                ctx.guard(n + ':' + vn, collapse, ctx, n + ':' + vn, preset, base, over2, fx)
            else:
                ctx.guard(n + ':' + vn, built_on, ctx, n + ':' + vn, preset, base, over2, 'cdm:CDM', fx, ops)


def collapse(ctx, key, preset, base, over, fixed):
    a = args_of(preset, base, over)
    a['x_extra'] = '$extra'
    R = Run(preset, a)
    w = R.where
    ua = under_args(R, 'cdm:CDM', base, over)
    ua.update(fixed)
    U = Run('cdm:CDM', ua)
    same_render(ctx, key, R, U, w)
    A = R.args
    sel = [e for e in R.exts if e[1] == 'core_collapse_by_mass']
    ctx.require(key + ':selection', len(sel) == 1 or (False if not sel else None), w, '%d selections' % len(sel), 'halos are selected for core collapse once')
    if len(sel) != 1:
        return
    _, want = call_args('core_collapse_by_mass', R, A['mass_ranges_subhalos'], A['mass_ranges_field_halos'], A['probabilities_subhalos'], A['probabilities_field_halos'])
    for k in want:
        ctx.equal('%s:selection:%s' % (key, k), sel[0][2].get(k, mk('absent')), want[k], w, 'the parameter documented for this operation')
    flat = []
    for x in sorted(sel[0][2]):
        flat += [x, sel[0][2][x]]
    index = mk('call', 'ext.core_collapse_by_mass', mk('args', sel[0][3]), mk('kw', *flat))
    ctx.equal(key + ':selection:of', sel[0][3], U.out, w, 'selected in the rendered realization')
    final(ctx, key, R, inner(U) + [call_args('add_core_collapsed_halos', R, index, A['collapsed_halo_profile'], x_extra=A['x_extra'])], w)
    ctx.saw(R.S)


def with_bh(ctx, key, preset, base, over, gc):
    a = args_of(preset, base, over)
    R = Run(preset, a)
    w = R.where
    ua = {k: v for k, v in under_args(R, 'cdm:CDM', base, over).items() if 'globular' not in k}
    U = Run('cdm:CDM', ua)
    same_render(ctx, key, R, U, w)
    A, S = R.args, R.S
    bh = [e for e in R.exts if e[1] == 'add_black_holes']
    ctx.require(key + ':black holes', len(bh) == 1 or (False if not bh else None), w, '%d black hole populations' % len(bh), 'black holes are added once')
    if len(bh) != 1:
        return
    _, want = call_args('add_black_holes', R, A['log10_mass_ratio'], S.expr('10**x', dict(x=A['log10_occupation_frac'])), A['log10_mlow_halos_subres'], A['log10_min_mbh'],
                        A['log_mlow'], A['log10_mass_maximum'], A['LOS_normalization'])
    for k in want:
        ctx.equal('%s:black holes:%s' % (key, k), bh[0][2].get(k, mk('absent')), want[k], w, 'the parameter documented for this operation')
    ctx.equal(key + ':black holes:of', bh[0][3], U.out, w, 'black holes are added to the rendered realization')
    ctx.saw(S)


def uldm(ctx):
    base = dict(CDMARGS, log10_m_uldm='$mu', log10_fluc_amplitude='$la', fluctuation_size_scale='$fs', fluctuation_size_dispersion='$fd', n_fluc_scale='$nf', velocity_scale='$vs',
                mass_function_model_subhalos='SHMF_SCHIVE2016', mass_function_model_fieldhalos='LOVELL2014', kwargs_mass_function_subhalos={}, kwargs_mass_function_fieldhalos={},
                concentration_model_subhalos='LAROCHE2022', concentration_model_fieldhalos='BOSE2016', uldm_plaw='$plaw', n_cut='$ncut', r_ein='$rein', mdef_halos='ULDM',
                flucs_shape='aperture', log10_sigma_sub='$l10s', kwargs_truncation_model_fieldhalos={})
    for vn, over in {'plain': {}, 'linear norm': dict(log10_sigma_sub=None), 'dndA': dict(log10_dNdA='$l10n'), 'tnfw': dict(mdef_halos='TNFW'),
                     'flucs': dict(flucs=True, flucs_args={'aperture': '$ap'})}.items():
        o = dict(flucs=False)
        o.update(over)
        key = 'ULDM:' + vn

        def fixed(R):
            S, A = R.S, R.args
            e = lambda s, **k: S.r(S.expr(s, dict({a: b for a, b in A.items()}, **k)))
            P = S.new('pyHalo.pyhalo:pyHalo', A['z_lens'], A['z_source'], A.get('kwargs_cosmo', NONE))
            mmin = S.r(S.new('pyHalo.utilities:MinHaloMassULDM', A['log10_m_uldm'], S.attr(P, 'astropy_cosmo'), A['log_mlow']))
            return dict(log_mc=e('np.log10(1.6e10*(10**(log10_m_uldm+22))**(-4/3))'), log_mlow=mmin, mdef_subhalos=over.get('mdef_halos', 'ULDM'), mdef_field_halos=over.get('mdef_halos', 'ULDM'),
                        kwargs_density_profile={'log10_m_uldm': A['log10_m_uldm'], 'scale_nfw': True, 'uldm_plaw': A['uldm_plaw']})

        def ops(R, U):
            if not o.get('flucs'):
                return inner(U)
            S, A = R.S, R.args
            lam = S.r(S.call(anchor('pyHalo.utilities:de_broglie_wavelength'), A['log10_m_uldm'], A['velocity_scale']))
            e = lambda s: S.r(S.expr(s, dict(A, lam=lam)))
            n, d = call_args('add_ULDM_fluctuations', R, de_Broglie_wavelength=lam, fluctuation_size=e('lam*fluctuation_size_scale'),
                             fluctuation_size_variance=e('lam*fluctuation_size_scale*fluctuation_size_dispersion'), n_fluc_scale=A['n_fluc_scale'],
                             shape=A['flucs_shape'], args=S.r(A['flucs_args']), n_cut=A['n_cut'])
            return inner(U) + [(n, d)]
        ctx.guard(key, built_on, ctx, key, 'uldm:ULDM', base, o, 'wdm:WDM', fixed, ops)


def binned(ctx):
    """the binned and correlated-structure presets"""
    for vn, over in {'plain': {}, 'log10_sigma_sub': dict(log10_sigma_sub='$l10s'), 'hybrid': dict(infall_redshift_model='HYBRID_INFALL'), 'keeley': dict(truncation_model_subhalos='TRUNCATION_GALACTICUS_KEELEY24'),
                     'gc': dict(add_globular_clusters=True, kwargs_globular_clusters={'log10_mgc_mean': '$ngc'})}.items():
        ctx.guard('CDMBinned:' + vn, binned1, ctx, 'CDMBinned:' + vn, over)
    for vn, over in {'plain': {}, 'sis': dict(mass_threshold_sis='$mt')}.items():
        ctx.guard('CDMCorrelatedStructure:' + vn, correlated1, ctx, 'CDMCorrelatedStructure:' + vn, over)


def binned1(ctx, key, over):
    base = dict(BASE, **TRN)
    base.update(log10_mc_low='$cl', log10_mc_high='$chi', scale_mass_function_low='$sl', scale_mass_function_high='$sh', beta='$beta', zeta='$zeta', concentration_scatter_dex='$sd',
                kwargs_truncation_model_fieldhalos={'LOS_truncation_factor': '$ltf'}, kwargs_truncation_model_subhalos={}, kwargs_infall_model={'log_m_host': '$lmi'}, halo_mass_profile='NFW')
    base.pop('draw_poisson'), base.pop('two_halo_Lazar_correction')
    args, R, S, w, sp = start('cdm:CDMBinned', base, over)
    A = R.args
    e = lambda s: S.expr(s, dict(A))
    kw = lambda: dict(normalization_list=e('[10**log10_mc_low, 10**log10_mc_high]'), beta_list=e('[beta, beta]'), zeta_list=e('[zeta, zeta]'), redshift_evolution=const('RHO_CRIT'),
                      log10_mass_bins=e('[[6, 8], [8, 10.7]]'))
    conc = [sp.conc('BINNED_HALO_MASS', kw(), scatter_dex=A['concentration_scatter_dex']) for _ in range(2)]
    _, trunc = None, None
    sy = lambda n: {k: (v if isinstance(v, T) else S.py(v)) for k, v in args.get(n, {}).items()}
    tr = [sp.trunc(args['truncation_model_subhalos'], sy('kwargs_truncation_model_subhalos'), A['c_host']), sp.trunc(args['truncation_model_fieldhalos'], sy('kwargs_truncation_model_fieldhalos'))]
    los = sp.los_spatial()
    pops = []
    for lo, hi, sc in ((6, 8, 'scale_mass_function_low'), (8, '10.7', 'scale_mass_function_high')):
        lim = dict(log_mlow=e(str(lo)), log_mhigh=e(str(hi)))
        n = sp.sub_norm()['sigma_sub']
        pops.append(('SUBHALOS', cls(MFB + 'CDMPowerLaw'), sp.subhalos(sigma_sub=S.expr('a*b', dict(a=A[sc], b=n)), **lim), sp.spatial('UNIFORM', None)))
        f = sp.field(LOS_normalization=S.expr('a*b', dict(a=A[sc], b=A['LOS_normalization'])), **lim)
        pops.append(('LINE_OF_SIGHT', cls(DP + 'ShethTormen'), f, los))
        pops.append(('TWO_HALO', cls(DP + 'ShethTormen'), f, los))
    check(ctx, key, R, sp, pops, halo_model(conc, tr, S.py({})), (const(args['halo_mass_profile']),) * 2, w)
    infall(ctx, key, R, args['infall_redshift_model'], w)
    final(ctx, key, R, extras(S, over, R.fi), w)
    ctx.saw(S)


def correlated1(ctx, key, over):
    base = dict(BASE, scale_2halo_boost_factor='$boost', delta_power_law_index='$dpl', mass_threshold_sis=None, concentration_model='DIEMERJOYCE19', kwargs_concentration_model={'scatter': '$sc'},
                truncation_model='TRUNCATION_RN', kwargs_truncation_model={'LOS_truncation_factor': '$ltf'})
    args, R, S, w, sp = start('cdm:CDMCorrelatedStructure', base, over)
    sp.a = getter(R)
    conc = sp.conc(args['concentration_model'], {'scatter': S.sym('sc')})
    tr = sp.trunc(args['truncation_model'], {'LOS_truncation_factor': S.sym('ltf')})
    pops = [('TWO_HALO', cls(DP + 'ShethTormen'), sp.field(), sp.los_spatial())]
    check(ctx, key, R, sp, pops, halo_model([conc, conc], [tr, tr], S.py({})), (const('TNFW'),) * 2, w)
    final(ctx, key, R, [(n, {k: v for k, v in d.items() if v is S.sym('mt')}) for n, d in extras(S, over, R.fi)], w)
    ctx.saw(S)


def run(ctx):
    ctx.known = {'inst:pyHalo.Halos.concentration:Concentration' + n for n in ('Constant', 'DiemerJoyce', 'Ludlow', 'PeakHeight', 'WDMPolynomial', 'WDMHyperbolic', 'LudlowWDM')}
    cdm(ctx)
    wdm(ctx)
    built(ctx)
    uldm(ctx)
    binned(ctx)
