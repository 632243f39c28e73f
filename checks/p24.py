"""P24 truncation models evaluate their own halo; bound masses respect the infall mass."""
from .common import *
from engine import ri
import math
from fractions import Fraction
from .halos import make, HM
from .p15 import seqs

EXPLAIN = ("Every truncation model is evaluated on a symbolic truncated halo and the truncation radius, bound mass and normalisation are compared with the documented "
           "relation written in terms of that halo's own mass, concentration, evaluation redshift, position and infall time; halo-level and parameter-level entry points of a model "
           "must agree, bound mass fractions must not exceed one, the truncated profile must contain the bound mass it was derived from, and the closed-form mass profiles are "
           "compared with the density they integrate.")
ASSUME = ['colossus, lenstronomy, numpy and scipy functions are deterministic functions of their arguments', 'fitted coefficients and calibration tables are taken as given']
FLOOR = 20
TT = 'pyHalo.Halos.tidal_truncation:'
TF = 'pyHalo.Halos.galacticus_truncation.transfer_function_density_profile:'
IM = 'pyHalo.Halos.galacticus_truncation.interp_mass_loss:'
NFW = 'NFW_params_physical'


def cls_(n, mod=TT):
    ci = program().cls(mod + n)
    if ci is None:
        raise Broken('class %s not found' % n)
    return ci


def w(ci, n):
    fi = program().lookup(ci, n)
    return where_fn(fi) if fi is not None else ''


class Rig:
    def __init__(self, arrays=False):
        self.S = S = Session(Config(opaque=[NFW, 'nfw_concentration', 'tau_mf_interpolation'], opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], arrays=arrays,
                                    draws=['z_accreted_from_zlens']))
        self.loss, self.solved, self.normals = [], [], []
        self.S.I.on_call = self.call
        self.S.I.on_ext = self.ext

    def call(self, fi, args, kwargs, st, node):
        S = self.S
        if fi.cls is not None and fi.cls.name.startswith('Interp') and fi.name == '__call__':
            env = S.I.bind(fi, args, kwargs, st, node)
            ps = fi.params
            self.loss.append((fi.cls.name, [S.I.reify(env[p], st) for p in ps[1:]]))
            return S.sym('L%d' % len(self.loss))
        if fi.name == 'compute_r_te_and_f_t' and fi.cls is None:
            env = S.I.bind(fi, args, kwargs, st, node)
            self.solved.append({p: S.I.reify(env[p], st) for p in fi.params})
            k = len(self.solved)
            return mk('tup', S.sym('RTE%d' % k), S.sym('FT%d' % k))
        if fi.name == 'tau_mf_interpolation' and fi.cls is None:
            return S.sym('TAUMF')
        return None

    def ext(self, name, args, kwargs, st):
        if name == 'numpy.random.normal' and 0 <= len(args) + len(kwargs) <= 2:
            pos, star, kw, _ = self.S.I.expand_args(args, kwargs, st)
            d = dict(zip(('loc', 'scale'), pos), **kw)
            self.normals.append(tuple(self.S.I.reify(d[k], st) if k in d else e for k, e in (('loc', ZERO), ('scale', ONE))))
            x = self.S.sym('G%d' % len(self.normals))
            l, s = self.normals[-1]
            return add(l, mul(s, x))
        return None


def halo(R, model, kw, name='TNFWSubhalo', sub=TRUE):
    S = R.S
    lc = S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
    t = S.new(model, **{k: (lc if v == '$LC' else S.sym(v[1:]) if isinstance(v, str) and v[0] == '$' else v) for k, v in kw.items()})
    h = make(S, program().cls(HM + 'TNFW:' + name), sub, t, None, S.py({}), '', lc)
    return t, h, lc


def own(S, h, lc):
    env = dict(h=h, LC=lc)
    g = lambda e: S.r(S.expr(e, env))
    d = dict(m=g('h.mass'), c=g('h.c'), z=g('h.z_eval'), r3d=g('h.r3d'))
    p = S.r(S.expr('LC.NFW_params_physical(m, c, z, False)', dict(d, LC=lc)))
    d['rs'], d['r200'] = S.r(S.expr('p[1]', dict(p=p))), S.r(S.expr('p[2]', dict(p=p)))
    return d


LOSSY = {'TruncationGalacticus': ('t', dict(lens_cosmo='$LC', c_host='$ch'), 'InterpGalacticus'),
         'TruncationGalacticusMilkyWay': ('t', dict(lens_cosmo='$LC', c_host='$ch'), 'InterpGalacticusMW'),
         'TruncationGalacticusZinfall': ('dz', dict(lens_cosmo='$LC', c_host='$ch'), 'InterpGalacticusZinfall')}


def transfer(ctx):
    """models that solve for the radius and normalisation containing a bound mass"""
    for name, (kind, kw, _) in sorted(LOSSY.items()):
        ctx.guard(name, lossy, ctx, name, kind, kw)
    ctx.guard('approx', approx, ctx)
    ctx.guard('pdf', pdf, ctx)


def solved(ctx, key, R, o, mb, wh, sol=None):
    S = R.S
    s = sol or R.solved[-1]
    names = list(s)
    exp = dict(zip(names, (mb, o['m'], o['r200'], o['c'])))
    dflt = {'alpha': ONE, 'beta': num(3), 'gamma': ONE, 'delta': num(2)}
    for p in names:
        e = exp.get(p, dflt.get(p))
        if e is not None:
            ctx.equal('%s:%s' % (key, p), s[p], e, wh, 'the radius is solved for the bound mass, infall mass, virial radius and concentration of this halo')


def lossy(ctx, name, kind, kw):
    ci = cls_(name)
    for entry in ('profile_args', 'truncation_radius_halo', 'truncation_radius_from_bound_mass', 'truncation_radius', 'calculate_mbound'):
        if entry != 'profile_args' and program().lookup(ci, entry) is None:
            continue
        wh = w(ci, entry) or w(cls_('TNFWSubhalo', HM + 'TNFW:'), entry)
        R = Rig()
        S = R.S
        t, h, lc = halo(R, ci, kw)
        o = own(S, h, lc)
        key = '%s.%s' % (name, entry)
        T = S.r(S.expr('h.time_since_infall' if kind == 't' else 'h.z_infall - LC.z_lens', dict(h=h, LC=lc)))
        if entry == 'profile_args':
            v = S.r(S.attr(h, entry))
            rt = v.args[1] if v.op == 'tup' and len(v.args) == 2 else v
            if v.op == 'tup' and len(v.args) == 2:
                ctx.equal(key + ':c', v.args[0], o['c'], wh, 'the concentration of this halo')
        elif entry == 'truncation_radius':
            fi = program().lookup(ci, entry)
            names = {'halo_mass': o['m'], 'infall_concentration': o['c'], 'time_since_infall': T, 'deltaz_infall': T, 'z_eval': o['z'], 'chost': S.sym('ch')}
            ps = [p for p in fi.params[1:] if p not in fi.defaults]
            if any(p not in names for p in ps):
                ctx.undetermined(key, wh, 'unknown parameters')
                continue
            rt = S.r(S.meth(t, entry, **{p: names[p] for p in ps}))
        elif entry == 'truncation_radius_from_bound_mass':
            rt = S.r(S.meth(t, entry, h, S.sym('MB')))
        else:
            rt = S.r(S.meth(t, entry, h))
        if entry == 'truncation_radius_from_bound_mass':
            ctx.require(key + ':no draw', not R.loss, wh, 'a new bound mass is drawn', 'the bound mass given is used')
            mb = S.sym('MB')
        else:
            if len(R.loss) != 1:
                ctx.require(key + ':draws', False if R.loss else None, wh, '%d bound masses drawn' % len(R.loss), 'one bound mass per halo')
                continue
            cname, a = R.loss[0]
            if len(a) == 3:
                for got, e, n in zip(a, (S.r(S.expr('np.log10(c)', dict(c=o['c']))), T, S.sym('ch')), ('concentration', 'infall', 'host')):
                    ctx.equal('%s:%s' % (key, n), got, e, wh, 'mass loss follows from the concentration and infall of this halo and the concentration of the host')
            mb = S.r(S.expr('m*10**L', dict(m=o['m'], L=S.sym('L1'))))
        if entry == 'calculate_mbound':
            ctx.equal(key, rt, mb, wh, 'bound mass = infall mass x bound fraction')
            continue
        if len(R.solved) != 1:
            ctx.require(key + ':solved', False if len(R.solved) > 1 else None, wh, '%d solutions' % len(R.solved), 'one solution')
            continue
        solved(ctx, key, R, o, mb, wh)
        ctx.equal(key, rt, S.sym('RTE1'), wh, 'the solved radius')
        if entry != 'truncation_radius':
            ctx.equal(key + ':norm', S.r(S.attr(h, 'rescale_norm')), S.sym('FT1'), wh, 'the density is normalised by the factor that belongs to this bound mass')
        if entry == 'profile_args' and name in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
            b = S.r(S.attr(h, 'bound_mass_galacticus_definition'))
            ctx.equal(key + ':reported', b, mb, w(cls_('TNFWSubhalo', HM + 'TNFW:'), 'bound_mass_galacticus_definition'), 'the reported bound mass is the one the profile was solved for')
            # the other order
            R2 = Rig()
            S = R2.S
            t, h, lc = halo(R2, ci, kw)
            b = S.r(S.attr(h, 'bound_mass_galacticus_definition'))
            S.r(S.attr(h, 'profile_args'))
            S.r(S.attr(h, 'params_physical'))
            ctx.require(key + ':one draw', len(R2.loss) == 1, wh, '%d bound masses drawn' % len(R2.loss), 'one bound mass per halo')
            if R2.solved:
                ctx.equal(key + ':reported first', list(R2.solved[-1].values())[0], b, wh, 'the reported bound mass is the one the profile was solved for')
        ctx.saw(S)


def keeley(ctx):
    ci = cls_('TruncationGalacticusKeeley24')
    kw = dict(lens_cosmo='$LC', c_host='$ch')
    for entry in ('profile_args', 'truncation_radius_halo', 'truncation_radius_from_bound_mass', 'truncation_radius', 'calculate_mbound'):
        wh = w(ci, entry)
        R = Rig()
        S = R.S
        t, h, lc = halo(R, ci, kw)
        o = own(S, h, lc)
        T = S.r(S.attr(h, 'time_since_infall'))
        key = 'Keeley24.%s' % entry
        lg = lambda e, **k: S.r(S.expr(e, dict(o, **k)))
        if entry == 'profile_args':
            v = S.r(S.attr(h, entry))
            rt = v.args[1] if v.op == 'tup' and len(v.args) == 2 else v
        elif entry == 'truncation_radius':
            rt = S.r(S.meth(t, entry, halo_mass=o['m'], infall_concentration=o['c'], time_since_infall=T, chost=S.sym('ch'), z_eval=o['z']))
        elif entry == 'truncation_radius_from_bound_mass':
            rt = S.r(S.meth(t, entry, h, S.sym('MB')))
        else:
            rt = S.r(S.meth(t, entry, h))
        if entry == 'truncation_radius_from_bound_mass':
            f = lg('np.log10(MB/m)', MB=S.sym('MB'))
        else:
            if len(R.loss) != 1 or len(R.loss[0][1]) != 3:
                ctx.require(key + ':draws', False if len(R.loss) > 1 else None, wh, '%d bound masses drawn' % len(R.loss), 'one bound mass per halo')
                continue
            for got, e, n in zip(R.loss[0][1], (lg('np.log10(c)'), T, S.sym('ch')), ('concentration', 'infall', 'host')):
                ctx.equal('%s:%s' % (key, n), got, e, wh, 'mass loss follows from the concentration and infall of this halo and the concentration of the host')
            f = S.sym('L1')
        if entry == 'calculate_mbound':
            ctx.equal(key, rt, lg('m*10**L', L=S.sym('L1')), wh, 'bound mass = infall mass x bound fraction')
            continue
        tau = S.r(S.expr('T((min(max(np.log10(c), 0.0), 2.7), min(max(f, -8.0), -0.001)))', dict(o, T=S.sym('TAUMF'), f=f)))
        e = lg('10**float(t)*rs', t=tau)
        for c in (0.4, 1.7, 30, 470, 900):
            for q in (-11, -5.3, -1.1, -0.2, -0.0003, 0.4):
                at = {o['c']: num(Fraction(str(c))), S.sym('L1'): num(Fraction(str(q))), o['m']: num(7), S.sym('MB'): num(Fraction(7 * 10**q))}
                ctx.equal('%s:c=%g,log10f=%g' % (key, c, q), constants(settle(rt, at)), constants(settle(e, at)), wh,
                          'the truncation radius whose truncated profile encloses the bound fraction, limited to the tabulated range')
        ctx.saw(S)


def approx(ctx):
    ci = cls_('TruncationGalacticusApproxCDM')
    kw = dict(lens_cosmo='$LC')

    def rig():
        R = Rig()
        S = R.S
        R.tn = []
        old = R.S.I.on_ext

        def ext(name, args, kwargs, st):
            if name.endswith('truncnorm.rvs'):
                pos, star, kw_, _ = S.I.expand_args(args, kwargs, st)
                d = dict(zip(('a', 'b', 'loc', 'scale', 'size'), pos), **kw_)
                R.tn.append({k: S.I.reify(v, st) for k, v in d.items()})
                x = S.sym('F%d' % len(R.tn))
                if 'size' in d:
                    return S.expr('[x]', dict(x=x))
                return x
            return old(name, args, kwargs, st)
        S.I.on_ext = ext
        return R
    wh = w(ci, 'compute_f_bound') or w(ci, 'calculate_mbound')
    for entry in ('truncation_radius_halo', 'truncation_radius_from_bound_mass', 'truncation_radius', 'calculate_mbound', 'profile_args'):
        R = rig()
        S = R.S
        t, h, lc = halo(R, ci, kw)
        o = own(S, h, lc)
        key = 'ApproxCDM.' + entry
        mb = S.r(S.expr('m*10**float(F)', dict(m=o['m'], F=S.sym('F1'))))
        if entry == 'truncation_radius_from_bound_mass':
            rt, mb = S.r(S.meth(t, entry, h, S.sym('MB'))), S.sym('MB')
        elif entry == 'truncation_radius':
            rt = S.r(S.meth(t, entry, o['m'], o['c'], o['z']))
        elif entry == 'profile_args':
            v = S.r(S.attr(h, entry))
            rt = v.args[1] if v.op == 'tup' and len(v.args) == 2 else v
        else:
            rt = S.r(S.meth(t, entry, h))
        wh2 = w(ci, entry) or wh
        if entry != 'truncation_radius_from_bound_mass':
            if len(R.tn) != 1:
                ctx.require(key + ':draws', False if len(R.tn) > 1 else None, wh2, '%d bound fractions drawn' % len(R.tn), 'one bound fraction per halo')
                continue
            d = R.tn[0]
            if all(k in d for k in ('a', 'b', 'scale', 'loc')):
                opaque = {}

                def name(u):
                    if u.op in ('call', 'meth') and not (u.op == 'call' and u.args[0] in ri.FN):
                        return opaque.setdefault(u, S.sym('q%d' % len(opaque)))
                    return None
                d = {k: TM.subst(q, name) for k, q in d.items()}
                up = S.r(S.expr('b*scale+loc', d))
                ctx.equal(key + ':upper', up, ZERO, wh, 'the bound fraction does not exceed one')
                lo = S.r(S.expr('a*scale+loc', d))
                ctx.equal(key + ':lower', lo, num(-10), wh, 'the bound fraction is at least 1e-10')
        if entry == 'calculate_mbound':
            ctx.equal(key, rt, mb, wh2, 'bound mass = infall mass x bound fraction')
            continue
        if len(R.solved) != 1:
            ctx.require(key + ':solved', False if len(R.solved) > 1 else None, wh2, '%d solutions' % len(R.solved), 'one solution')
            continue
        solved(ctx, key, R, o, mb, wh2)
        ctx.equal(key, rt, S.sym('RTE1'), wh2, 'the solved radius')
        if entry != 'truncation_radius':
            ctx.equal(key + ':norm', S.r(S.attr(h, 'rescale_norm')), S.sym('FT1'), wh2, 'the density is normalised by the factor that belongs to this bound mass')
        ctx.saw(S)


def pdf(ctx):
    ci = cls_('TruncationBoundMassPDF')
    wh = w(ci, 'truncation_radius_halo')
    R = Rig()
    S = R.S
    t, h, lc = halo(R, ci, dict(lens_cosmo='$LC', log10_fbound_mean='$mu', log10_fbound_standard_dev='$sd'))
    o = own(S, h, lc)
    v = S.r(S.attr(h, 'profile_args'))
    rt = v.args[1] if v.op == 'tup' and len(v.args) == 2 else v
    if len(R.normals) != 1 or len(R.solved) != 1:
        return ctx.require('BoundMassPDF:draws', False if len(R.normals) > 1 else None, wh, '%d draws, %d solutions' % (len(R.normals), len(R.solved)), 'one bound fraction per halo')
    ctx.equal('BoundMassPDF:mean', R.normals[0][0], S.sym('mu'), wh, 'log-normal bound fraction with the configured mean')
    ctx.equal('BoundMassPDF:width', R.normals[0][1], S.sym('sd'), wh, 'log-normal bound fraction with the configured width')
    f = S.r(S.expr('10**(mu+sd*G)', dict(mu=S.sym('mu'), sd=S.sym('sd'), G=S.sym('G1'))))
    s = R.solved[0]
    p0 = list(s)[0]
    fb = S.r(S.expr('a/m', dict(a=s[p0], m=o['m'])))
    # below the cap the drawn fraction; never one or more
    for e, rule in ((ite(TM.lt(f, ONE), fb, f), 'the bound fraction is the drawn one'),):
        ctx.equal('BoundMassPDF:fraction', e, f, wh, rule)
    le = S.r(S.expr('a < 1', dict(a=ite(TM.lt(f, ONE), num(0), fb))))
    ctx.equal('BoundMassPDF:cap', le, TRUE, wh, 'bound masses never exceed the infall mass')
    solved(ctx, 'BoundMassPDF', R, o, s[p0], wh)
    ctx.equal('BoundMassPDF:radius', rt, S.sym('RTE1'), wh, 'the solved radius')
    ctx.equal('BoundMassPDF:norm', S.r(S.attr(h, 'rescale_norm')), S.sym('FT1'), wh, 'the density is normalised by the factor that belongs to this bound mass')
    ctx.saw(S)


def simple(ctx):
    """models given by one relation; field halos and subhalos"""
    rows = [
        ('TruncationRN', dict(lens_cosmo='$LC', LOS_truncation_factor='$N'), 'LC.rN_M(m*LC.cosmo.h, z, N)*1000'),
        ('TruncationRoche', dict(lens_cosmo='$LC', RocheNorm='$A', m_power='$p', RocheNu='$q'), 'np.round(A*(m/1e7)**p*(r3d/50)**q, 3)'),
        ('Multiple_RS', dict(lens_cosmo='$LC', tau='$tau'), 'tau*rs'),
        ('ConstantTruncationArcsec', dict(lens_cosmo='$LC', rt_arcsec='$rt'), 'rt'),
        ('TruncateMeanDensity', dict(lens_cosmo='$LC', median_rt_over_rs='$A', c_power='$p'), 'rs*A*(c/cmed)**p'),
        ('TruncateMeanDensity:scatter', dict(lens_cosmo='$LC', median_rt_over_rs='$A', c_power='$p', intrinsic_scatter='$s'), 'rs*abs(A*(c/cmed)**p*(1+s*G))'),
        ('TruncationSplashBack', dict(lens_cosmo='$LC'), None),
    ]
    for name, kw, form in rows:
        for hn, sub in (('TNFWFieldHalo', FALSE), ('TNFWSubhalo', TRUE)):
            ctx.guard(name, one_simple, ctx, name, kw, form, hn, sub)


def one_simple(ctx, full, kw, form, hn, sub):
    name = full.split(':')[0]
    ci = cls_(name)
    wh = w(ci, 'truncation_radius_halo')
    key = '%s[%s]' % (full, hn)
    R = Rig()
    S = R.S
    for e in ('s > 0',):
        S.st.assume(S.r(S.expr(e, dict(s=S.sym('s')))))
    t, h, lc = halo(R, ci, kw, hn, sub)
    o = own(S, h, lc)
    v = S.r(S.attr(h, 'profile_args'))
    rt = v.args[1] if v.op == 'tup' and len(v.args) == 2 else v
    if hn == 'TNFWSubhalo' and name == 'TruncationSplashBack':
        return
    ctx.equal(key + ':norm', S.r(S.attr(h, 'rescale_norm')), ONE, wh, 'the model does not change the density normalisation')
    if form is None:
        fi = program().lookup(ci, 'truncation_radius')
        if fi is None or len(fi.params) != 3:
            return ctx.undetermined(key, wh, 'no parameter level method')
        ctx.equal(key, rt, S.r(S.meth(t, 'truncation_radius', o['m'], o['z'])), wh, 'the relation at the mass and redshift of this halo')
        mh = S.r(S.expr('m*LC.cosmo.h', dict(o, LC=lc)))
        n = 0
        for u in TM.walk(rt):
            a = u.args[2].args if u.op == 'meth' and u.args[1] == 'rN_M' else u.args[1].args if u.op == 'call' and str(u.args[0]).endswith('peakHeight') else None
            if a is not None and len(a) >= 2:
                n += 1
                ctx.equal(key + ':mass', a[0], mh, wh, 'splashback radius and peak height at the mass of this halo in solar masses over h')
                ctx.equal(key + ':z', a[1], o['z'], wh, 'splashback radius and peak height at the redshift of this halo')
            if u.op == 'call' and str(u.args[0]).endswith('splashbackModel'):
                kw = dict(zip(u.args[2].args[::2], u.args[2].args[1::2])) if len(u.args) > 2 and all(isinstance(q, str) for q in u.args[2].args[::2]) else {}
                if 'z' in kw:
                    ctx.equal(key + ':splashback z', kw['z'], o['z'], wh, 'splashback radius and peak height at the redshift of this halo')
        if not n:
            ctx.undetermined(key + ':mass', wh, TM.show(rt, 6))
        return
    env = dict(o, LC=lc, **{n: S.sym(n) for n in ('N', 'A', 'p', 'q', 'tau', 'rt', 's')})
    env['G'] = S.sym('G1')
    if 'cmed' in form:
        # the median relation: no scatter, own mass and redshift
        cm = [u for u in TM.walk(rt) if u.op == 'meth' and u.args[1] == 'nfw_concentration' or u.op == 'call' and str(u.args[0]).endswith('nfw_concentration')]
        cm = list(dict.fromkeys(cm))
        rel = S.r(S.meth(S.new(program().cls('pyHalo.Halos.concentration:ConcentrationDiemerJoyce'), S.r(S.attr(lc, 'cosmo')), scatter=False), 'nfw_concentration', o['m'], o['z']))
        env['cmed'] = rel
    e = S.r(S.expr(form, env))
    ctx.equal(key, rt, e, wh, 'the documented relation of the mass, position, concentration and redshift of this halo')
    ctx.saw(S)


# ------------------------------------------------------------------------ mass loss interpolators


def interpolators(ctx):
    P = program()
    m = P.modules.get(IM[:-1])
    for ci in sorted((c for c in P.all_classes() if c.qual.startswith(IM)), key=lambda c: c.name):
        if P.lookup(ci, '__call__') is None:
            continue
        ctx.guard(ci.name, interp, ctx, ci)


def interp(ctx, ci):
    """arguments reach the axis of the table they belong to; the bound fraction never exceeds one"""
    fi = program().lookup(ci, '__call__')
    wh = where_fn(fi)
    R = Rig()
    S = R.S
    S.I.on_call = None
    if len(fi.params) != 4:
        return ctx.undetermined(ci.name, wh, 'parameters')
    grids = {}

    def ext(name, args, kwargs, st):
        if name == 'numpy.linspace' and len(args) == 3:
            lo, hi = S.I.reify(args[0], st), S.I.reify(args[1], st)
            return mk('call', 'grid', mk('args', lo, hi), mk('kw'))
        if name.endswith('RegularGridInterpolator') and args:
            k = 'I%d' % (len(grids) + 1)
            pts = S.I.reify(args[0], st)
            grids[k] = pts.args if pts.op == 'tup' else None
            return S.sym(k)
        return R.ext(name, args, kwargs, st)
    S.I.on_ext = ext
    r = S.new(ci)
    if not grids or any(g is None or len(g) != 3 for g in grids.values()):
        return ctx.undetermined(ci.name, wh, 'tables')
    out = S.r(S.I.invoke(fi, [r, S.sym('lc'), S.sym('ti'), S.sym('ch')], [], S.st, None))
    pts = list(dict.fromkeys((u.args[0].args[0], u.args[2].args[0]) for u in TM.walk(out) if u.op == 'meth' and u.args[0].op == 'sym' and u.args[0].args[0] in grids and u.args[2].args))
    for l, s in R.normals:
        for q in (l, s):
            pts += [(u.args[0].args[0], u.args[2].args[0]) for u in TM.walk(q) if u.op == 'meth' and u.args[0].op == 'sym' and u.args[0].args[0] in grids and u.args[2].args]
    pts = list(dict.fromkeys(pts))
    if not pts:
        return ctx.undetermined(ci.name, wh, TM.show(out, 6))
    for k, p in pts:
        if p.op != 'tup' or len(p.args) != 3:
            ctx.undetermined(ci.name + ':point', wh, TM.show(p, 5))
            continue
        for g, a in zip(grids[k], p.args):
            if g.op != 'call' or g.args[0] != 'grid':
                ctx.undetermined(ci.name + ':axis', wh, TM.show(g, 4))
                continue
            lo = g.args[1].args[0]
            flo = value(lo, {})
            if flo is None:
                ctx.undetermined(ci.name + ':axis', wh, TM.show(g, 4))
                continue
            want = 'ti' if abs(flo) < 1e-9 else 'lc' if abs(flo - math.log10(2)) < 1e-6 else 'ch'
            names = {str(u.args[0]) for u in TM.walk(a) if u.op == 'sym'} & {'ti', 'lc', 'ch'}
            ctx.require('%s:%s axis' % (ci.name, want), names == {want}, wh, 'axis of %s receives %s' % (want, TM.show(a, 6)), 'each argument is looked up on its own axis of the table')
            # inside the table the argument itself is used
            s, hi = S.sym(want), value(g.args[1].args[1], {})
            for q in (0.13, 0.4, 0.77):
                x = Fraction(round(1000 * (flo + q * (hi - flo))), 1000) if hi is not None else None
                got = value(a, {s: num(x)}) if x is not None else None
                if ci.name == 'InterpGalacticusKeeley24' and got is None:
                    continue
                ctx.require('%s:%s inside' % (ci.name, want), None if got is None else abs(got - float(x)) < 1e-9, wh, '%s is looked up as %s' % (x and float(x), got), 'an argument inside the table is looked up unchanged')
    # far outside the table the arguments are limited (the Keeley24 table extrapolates by design)
    for k, p in pts:
        for g, a in zip(grids[k], p.args) if ci.name != 'InterpGalacticusKeeley24' and p.op == 'tup' else ():
            names = {u for u in TM.walk(a) if u in (S.sym('ti'), S.sym('lc'), S.sym('ch'))}
            lo, hi = [value(q, {}) for q in g.args[1].args]
            if len(names) != 1 or lo is None or hi is None:
                continue
            for x in (-1000, 1000):
                got = value(a, {next(iter(names)): num(x)})
                ctx.require('%s:limits' % ci.name, None if got is None else lo - 0.3 * (hi - lo) <= got <= hi + 0.3 * (hi - lo), wh, 'an argument of %d is looked up as %s in a table from %g to %g' % (x, got, lo, hi),
                            'arguments are limited to the calibrated range')
    ctx.equal(ci.name + ':bound', S.r(S.expr('o <= 0', dict(o=out))), TRUE, wh, 'the bound mass does not exceed the infall mass')
    ctx.saw(S)


# ------------------------------------------------------------------------ transfer function profile
COMBOS = [(1.0, 3.0, g) for g in (0.0, 0.5, 1.0, 1.5)] + [(1.0, 4.0, g) for g in (0.0, 0.5, 1.0, 1.5)] + [(2.0, 3.0, 0.0), (2.0, 4.0, 0.0)]


def fn_(n):
    fi = program().func(TF + n)
    return fi


def profile(ctx):
    ctx.guard('solve', solve, ctx)
    for combo in COMBOS:
        ctx.guard('mass%s' % (combo,), masses, ctx, combo)


def solve(ctx):
    """the truncated profile contains the bound mass"""
    fi = program().func(TF + 'compute_r_te_and_f_t')
    if fi is None:
        raise Broken('compute_r_te_and_f_t not found')
    wh = where_fn(fi)
    for delta in (2.0, 3.0):
        S = Session(Config())
        seen = {}

        def call(f, args, kwargs, st, node):
            if f.cls is None and f.qual.startswith(TF) and f.name != 'compute_r_te_and_f_t':
                env = S.I.bind(f, args, kwargs, st, node)
                a = [S.I.reify(env[p], st) for p in f.params]
                seen.setdefault(f.name, []).append((f, dict(zip(f.params, a))))
                if f.name == 'Convert_to_reference_model':
                    return mk('tup', S.sym('ys'), S.sym('Rs_'))
                return mk('call', f.name, mk('args', *a), mk('kw'))
            return None
        S.I.on_call = call
        al, be, ga = S.sym('al'), S.sym('be'), S.sym('ga')
        v = S.r(S.I.invoke(fi, [S.sym('mb'), S.sym('m'), S.sym('r'), S.sym('c'), al, be, ga, S.py(delta)], [], S.st, None))
        if v.op != 'tup' or len(v.args) != 2:
            return ctx.undetermined('solve', wh, TM.show(v, 5))
        r, f = v.args
        ts = [u for u in TM.walk(r) if u.op == 'call' and u.args[0] == '_Truncation_Radius']
        if len(ts) != 1 or '_Truncation_Radius' not in seen:
            return ctx.undetermined('solve', wh, TM.show(r, 5))
        a = seen['_Truncation_Radius'][0][1]
        M0 = S.r(S.expr('m/M(c)', dict(m=S.sym('m'), M=S.sym('Menc'), c=S.sym('c'))))
        env = {p: a[p] for p in a}
        enc = mk('call', '_M_enclosed_generalized_NFW_dimensionless', mk('args', S.sym('c'), al, be, ga), mk('kw'))
        key = 'solve:delta=%g' % delta
        ctx.equal(key + ':mass', a.get('M'), S.r(S.expr('mb*e/m', dict(mb=S.sym('mb'), e=enc, m=S.sym('m')))), wh, 'the bound mass in units of the characteristic mass of the infall profile',
                  known={'call:_M_enclosed_generalized_NFW_dimensionless', 'call:_R_max_generalized_NFW_dimensionless'})
        ctx.equal(key + ':norm', a.get('f_t'), f, wh, 'radius and normalisation belong together')
        for n, e in (('alpha', al), ('beta', be), ('gamma', ga), ('delta', S.r(S.py(delta)))):
            if n in a:
                ctx.equal('%s:%s' % (key, n), a[n], e, wh, 'radius and normalisation are solved for one and the same density profile')
        ctx.equal(key + ':scale', r, mul(ts[0], S.r(S.expr('r/c', dict(r=S.sym('r'), c=S.sym('c'))))), wh, 'dimensionless radius times scale radius')
        if '_f_t_Du_2024' in seen:
            b = seen['_f_t_Du_2024'][0][1]
            for n, e in (('alpha', al), ('beta', be), ('gamma', ga), ('delta', S.r(S.py(delta)))):
                if n in b:
                    ctx.equal('%s:f_t %s' % (key, n), b[n], e, wh, 'radius and normalisation are solved for one and the same density profile')
        ctx.saw(S)


def D(t, x):
    """derivative of a term"""
    if t is x:
        return ONE
    if not any(u is x for u in TM.walk(t)):
        return ZERO
    if t.op in ('poly', 'term'):
        out = ZERO
        for m, c in TM._poly(t).items():
            for i, (b, e) in enumerate(m):
                rest = TM.mk('num', c)
                for k, (b2, e2) in enumerate(m):
                    if k != i:
                        rest = mul(rest, TM.power(b2, e2))
                out = add(out, mul(rest, Dpow(b, e, x)))
        return out
    if t.op == 'call' and t.args[1].args:
        f = t.args[0].split('.')[-1]
        u = t.args[1].args[0]
        d = D(u, x)
        if f == 'pow':
            return Dpow(u, t.args[1].args[1], x)
        one = ONE
        g = {'log': lambda: TM.power(u, num(-1)), 'exp': lambda: t,
             'arctan': lambda: TM.power(add(one, mul(u, u)), num(-1)),
             'arcsin': lambda: TM.power(sub(one, mul(u, u)), num(-Fraction(1, 2))),
             'arcsinh': lambda: TM.power(add(one, mul(u, u)), num(-Fraction(1, 2))),
             'arccos': lambda: mul(num(-1), TM.power(sub(one, mul(u, u)), num(-Fraction(1, 2)))),
             'sqrt': lambda: mul(num(Fraction(1, 2)), TM.power(u, num(-Fraction(1, 2)))),
             }.get(f)
        if g is not None:
            return mul(g(), d)
    raise ValueError(TM.show(t, 3))


def Dpow(b, e, x):
    if any(u is x for u in TM.walk(e)):
        if b is TM.EUL:
            return mul(TM.power(b, e), D(e, x))
        raise ValueError('exponent')
    return mul(mul(e, TM.power(b, sub(e, ONE))), D(b, x))


def truthval(c, env):
    """truth of a condition on numbers, or None"""
    if c.op == 'const':
        return bool(c.args[0])
    if c.op in ('neg', 'pos', 'zero', 'eq', 'lt', 'nonneg', 'nonpos'):
        v = [value(a, env) for a in c.args]
        if None in v or any(x != x for x in v):
            return None
        return {'neg': lambda a: a < 0, 'pos': lambda a: a > 0, 'zero': lambda a: a == 0, 'eq': lambda a, b: a == b, 'lt': lambda a, b: a < b,
                'nonneg': lambda a: a >= 0, 'nonpos': lambda a: a <= 0}[c.op](*v)
    if c.op in ('not', 'and', 'or'):
        v = [truthval(a, env) for a in c.args]
        if c.op == 'not':
            return None if v[0] is None else not v[0]
        return (False if False in v else None if None in v else True) if c.op == 'and' else (True if True in v else None if None in v else False)
    return None


def settle(t, env):
    """t at given numbers: symbols replaced, alternatives chosen"""
    def f(u):
        if u in env:
            return env[u]
        if u.op == 'ite':
            b = truthval(u.args[0], env)
            if b is not None:
                return settle(u.args[1 if b else 2], env)
        return None
    return TM.subst(t, f)


def value(t, env):
    t = settle(t, env)
    if any(u.op not in ('num', 'poly', 'term', 'call', 'args', 'kw') and u not in (TM.PI, TM.EUL) or u.op == 'call' and u.args[0] not in ri.FN for u in TM.walk(t)):
        return None
    v = ri.evaluate(t, 0, {})
    return v.real if abs(v.imag) < 1e-9 * max(1, abs(v.real)) else None


def constants(t):
    """numeric constants in one form"""
    def f(u):
        if u.op not in ('poly', 'term', 'call'):
            return None
        v = value(u, {})
        return None if v is None or v != v else num(Fraction(round(v * 10**9), 10**9))
    return TM.subst(t, f)


def rho(x, a, b, g):
    return x ** -g * (1 + x ** a) ** (-(b - g) / a)


def masses(ctx, combo):
    a, b, g = combo
    S = Session(Config())
    lab = 'alpha=%g,beta=%g,gamma=%g' % combo
    fe = fn_('_M_enclosed_generalized_NFW_dimensionless')
    if fe is not None:
        wh = where_fn(fe)
        x = S.sym('x')
        M = S.r(S.I.invoke(fe, [x] + [S.py(q) for q in combo], [], S.st, None))
        M = decide.simp(M, {}, {})
        dens = S.r(S.expr('4*np.pi*x**2*x**(-g)*(1+x**a)**(-(b-g)/a)', dict(x=x, a=S.py(a), b=S.py(b), g=S.py(g))))
        try:
            d = D(M, x)
        except ValueError as e:
            d = None
            ctx.undetermined('enclosed:' + lab, wh, 'derivative: %s' % e)
        if d is not None:
            ctx.equal('enclosed:' + lab, d, dens, wh, 'the mass profile integrates its density profile')
            s = value(M, {x: num(Fraction(1, 100))})
            if s is not None:
                lead = 4 * math.pi * 0.01 ** (3 - g) / (3 - g)
                ctx.require('enclosed0:' + lab, abs(s / lead - 1) < 0.1, wh, 'M(0.01) = %g, leading order %g' % (s, lead), 'no mass at the centre')
    fr = fn_('_R_max_generalized_NFW_dimensionless')
    if fr is not None and fe is not None:
        wh = where_fn(fr)
        v = S.r(S.I.invoke(fr, [S.py(q) for q in combo], [], S.st, None))
        if v.op == 'num' and M is not None:
            X = float(v.args[0])
            m = value(M, {x: v})
            if m is not None:
                ctx.require('rmax:' + lab, abs(4 * math.pi * X ** 3 * rho(X, a, b, g) / m - 1) < 1e-5, wh, 'at x=%g the circular velocity is not stationary' % X, 'Rmax maximises the circular velocity of this profile')
    ft = fn_('_M_total_generalized_NFW_Truncated_dimensionless')
    if ft is not None:
        wh = where_fn(ft)
        for delta in (2.0, 3.0):
            S = Session(Config())
            quads = []
            tau = S.sym('tau')

            def ext(name, args, kwargs, st):
                if name.endswith('integrate.quad') or name.endswith('vectorize'):
                    quads.append(args)
                return None
            S.I.on_ext = ext
            T = S.r(S.I.invoke(ft, [tau] + [S.py(q) for q in combo] + [S.py(delta)], [], S.st, None))
            if quads or any(u.op in ('ext', 'lam', 'fn') for u in TM.walk(T)):
                continue  # integrated numerically
            for tv in (Fraction(1, 5), Fraction(3, 2), Fraction(7)):
                got = value(T, {tau: num(tv)})
                if got is None:
                    ctx.undetermined('total:%s,delta=%g' % (lab, delta), wh, TM.show(T, 4))
                    break
                want = integral(lambda q: 4 * math.pi * q * q * rho(q, a, b, g) / (1 + (q / float(tv)) ** delta))
                ctx.require('total:%s,delta=%g:tau=%g' % (lab, delta, tv), abs(got / want - 1) < 1e-5, wh, 'M_total = %.8g, integral of the density %.8g' % (got, want), 'the total mass integrates the truncated density profile')
    ctx.saw(S)


def integral(f):
    """integral of f over (0, inf), double exponential rule"""
    s, h = 0.0, 1 / 32.
    for i in range(-150, 151):
        t = i * h
        q = math.exp(math.pi / 2 * math.sinh(t))
        if q == 0 or q > 1e40 or q < 1e-60:
            continue
        s += f(q) * q * math.pi / 2 * math.cosh(t)
    return s * h


# ------------------------------------------------------------------------ table of truncation radii
def fraction(ctx):
    fi = program().func('pyHalo.Halos.tnfw_halo_util:tnfw_mass_fraction')
    if fi is None:
        return
    S = Session(Config())
    v = S.r(S.I.invoke(fi, [S.sym('tau'), S.sym('c')], [], S.st, None))
    e = S.r(S.expr('P().mass_3d(c, 1.0, 1/(4*np.pi), tau)/(np.log(1+c)-c/(1+c))', dict(P=mk('ext', 'lenstronomy.LensModel.Profiles.tnfw.TNFW'), c=S.sym('c'), tau=S.sym('tau'))))
    ctx.equal('fraction', v, e, where_fn(fi), 'mass within the virial radius of the truncated over the untruncated profile')


def truncated(ctx):
    fi = program().func('pyHalo.Halos.tnfw_halo_util:tnfw_density_profile')
    if fi is None or len(fi.params) != 4:
        return
    S = Session(Config())
    env = {n: S.sym(n) for n in ('r', 'rho', 'rs', 'rt')}
    for q in env.values():
        S.st.assume(TM.lt(ZERO, q))
    v = S.r(S.I.invoke(fi, [env[n] for n in ('r', 'rho', 'rs', 'rt')], [], S.st, None))
    e = S.r(S.expr('rho/(r/rs*(1 + r/rs)**2)*(rt**2/(r**2 + rt**2))', env))
    ctx.equal('truncated density', v, e, where_fn(fi), 'the NFW density falls off as rt^2/(r^2 + rt^2) beyond the truncation radius')
    ctx.saw(S)


def table(ctx):
    fi = program().func('pyHalo.Halos.tnfw_halo_util:tau_mf_interpolation')
    if fi is None:
        return
    wh = where_fn(fi)
    S = Session(Config(arrays=True))
    grids, made, I = [], [], S.I
    syms = {}

    def arr(xs, st):
        saved, S.st = S.st, st
        try:
            return S.expr('np.array(l)', {'l': S.py(list(xs))})
        finally:
            S.st = saved

    def ext(name, args, kwargs, st):
        n = name.split('.')[-1]
        if n in ('linspace', 'logspace') and len(args) == 3:
            k = len(grids)
            g = [S.sym('g%d_%d' % (k, i)) for i in range(3)]
            grids.append((n, [I.reify(x, st) for x in args], g))
            if n == 'logspace':
                return arr([S.r(S.expr('10**g', dict(g=q))) for q in g], st)
            return arr(g, st)
        if n == 'zeros' and args:
            return arr([arr([ZERO] * 3, st) for _ in range(3)], st)
        if n == 'interp1d':
            a = [I.reify(x, st) for x in args[:2]]
            made.append(a)
            return mk('call', 'inverse', mk('args', *a), mk('kw'))
        if n == 'RegularGridInterpolator':
            syms['pts'], syms['tab'] = I.reify(args[0], st), I.reify(args[1], st)
            return S.sym('RGI')
        return None

    def call(f, args, kwargs, st, node):
        if f.name == 'tnfw_mass_fraction':
            env = I.bind(f, args, kwargs, st, node)
            t, c = env[f.params[0]], I.reify(env[f.params[1]], st)
            es = seqs(I.reify(t, st))
            if es is None:
                return mk('call', 'mf', mk('args', I.reify(t, st), c), mk('kw'))
            return arr([mk('call', 'mf', mk('args', e, c), mk('kw')) for e in es], st)
        return None
    S.I.on_ext, S.I.on_call = ext, call
    S.I.invoke(fi, [], [], S.st, None)
    if 'pts' not in syms or syms['pts'].op != 'tup' or len(syms['pts'].args) != 2:
        return ctx.undetermined('table', wh, 'table')
    ax = [seqs(q) for q in syms['pts'].args]
    rows = seqs(syms['tab'])
    rows = [seqs(q) for q in rows] if rows else None
    if None in ax or not rows or None in rows or len(rows) != len(ax[0]) or any(len(q) != len(ax[1]) for q in rows):
        return ctx.undetermined('table', wh, TM.show(syms['tab'], 6))
    for i, lc in enumerate(ax[0]):
        for j, lm in enumerate(ax[1]):
            t = rows[i][j]
            inv = [u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'inverse']
            if t.op != 'meth' or not inv or not t.args[2].args:
                ctx.undetermined('table[%d,%d]' % (i, j), wh, TM.show(t, 5))
                continue
            ctx.equal('table[%d,%d]:mass' % (i, j), t.args[2].args[0], lm, wh, 'each node holds the radius of its own bound fraction')
            xs, ys = seqs(inv[0].args[1].args[0]), seqs(inv[0].args[1].args[1])
            if xs is None or ys is None or len(xs) != len(ys):
                ctx.undetermined('table[%d,%d]:curve' % (i, j), wh, TM.show(inv[0], 5))
                continue
            for k, (x, y) in enumerate(zip(xs, ys)):
                e = S.r(S.expr('np.log10(f)', dict(f=mk('call', 'mf', mk('args', S.r(S.expr('10**y', dict(y=y))), S.r(S.expr('10**c', dict(c=lc)))), mk('kw')))))
                ctx.equal('table[%d,%d]:curve%d' % (i, j, k), x, e, wh, 'bound fractions are those of the tabulated concentration and truncation radius')
    ctx.saw(S)


def run(ctx):
    ctx.guard('transfer', transfer, ctx)
    ctx.guard('keeley', keeley, ctx)
    ctx.guard('simple', simple, ctx)
    ctx.guard('interpolators', interpolators, ctx)
    ctx.guard('profile', profile, ctx)
    ctx.guard('fraction', fraction, ctx)
    ctx.guard('truncated', truncated, ctx)
    ctx.guard('table', table, ctx)
    ctx.guard('slopes', slopes, ctx)


# ------------------------------------------------------------------------ logarithmic slopes
def slopes(ctx):
    ci = program().cls(HM + 'TNFW:TNFWFieldHalo') or program().cls('pyHalo.Halos.HaloModels.TNFW:TNFWFieldHalo')
    ft = program().func('pyHalo.Halos.tnfw_halo_util:tnfw_density_profile')
    S = Session(Config())
    e = {k: S.sym(k) for k in ('r', 'rs', 'rt', 'rhos', 'g')}
    for k in e.values():
        if k is not e['g']:
            S.st.assume(TM.lt(ZERO, k))
    dens = S.r(S.expr('rhos/(r/rs*(1+r/rs)**2)*(rt/rs)**2/((r/rs)**2+(rt/rs)**2)', e))
    if ft is not None:
        v = S.r(S.I.invoke(ft, [e['r'], e['rhos'], e['rs'], e['rt']], [], S.st, None))
        ctx.equal('slope:density', v, dens, where_fn(ft), 'truncated NFW density')
    fs = ci and program().lookup(ci, 'log_profile_slope')
    slope = S.r(S.expr('-5 + 2/(1+r/rs) + 2*(rt/rs)**2/((rt/rs)**2+(r/rs)**2)', e))
    if fs is not None:
        v = S.r(S.I.invoke(fs, [e['r'], e['rs'], e['rt']], [], S.st, None))
        ctx.equal('slope:value', mul(v, dens), mul(e['r'], D(dens, e['r'])), where_fn(fs), 'the logarithmic slope is the logarithmic derivative of the density')
    fc = program().func('pyHalo.Halos.tnfw_halo_util:cubic_real_roots')
    fi = ci and program().lookup(ci, 'log_derivative_inverse')
    if fi is not None:
        # the radius returned for a slope, at numbers, back in the slope
        for g, rs, rt in ((Fraction(-2), 3, 40), (Fraction(-3, 2), Fraction(1, 2), 2), (Fraction(-3), 2, 5), (Fraction(-5, 2), 10, 1), (Fraction(-11, 10), 4, Fraction(1, 2)), (Fraction(-4), 1, 30)):
            S2 = Session(Config())
            v = S2.r(S2.I.invoke(fi, [num(g), num(rs), num(rt)], [], S2.st, None))
            x = number(v)
            key = 'slope:inverse(%s, %s, %s)' % (g, rs, rt)
            if not isinstance(x, float):
                ctx.undetermined(key, where_fn(fi), TM.show(v, 5)[:300])
                continue
            q = x / float(rs)
            t = float(Fraction(rt) / Fraction(rs))
            got = -5 + 2 / (1 + q) + 2 * t * t / (t * t + q * q)
            ctx.require(key, x > 0 and abs(got - float(g)) < 1e-6, where_fn(fi), 'at the returned radius %.8g the slope is %.8g' % (x, got), 'the profile has the requested slope at the returned radius')
        ctx.saw(S2)
    if fc is not None:
        for name, cs, n in (('one root', (1, 2, 3, 4), 1), ('one root', (2, -3, 5, 7), 1), ('three roots', (1, -6, 11, -6), 3), ('three roots', (2, 1, -8, 1), 3), ('three roots', (-1, 2, 5, -6), 3),
                            ('triple root', (1, -3, 3, -1), None), ('quadratic', (0, 2, -3, -7), 2), ('quadratic without roots', (0, 2, 1, 7), 0), ('linear', (0, 0, 4, 3), 1), ('constant', (0, 0, 0, 3), 0)):
            S2 = Session(Config())
            v = S2.r(S2.I.invoke(fc, [num(c) for c in cs], [], S2.st, None))
            ctx.saw(S2)
            key = 'roots:%s%s' % (name, list(cs))
            xs = number(v)
            if not isinstance(xs, list) or any(isinstance(q, list) or q is None or q != q for q in xs):
                ctx.undetermined(key, where_fn(fc), TM.show(v, 5)[:300])
                continue
            p = lambda x: ((cs[0] * x + cs[1]) * x + cs[2]) * x + cs[3]
            bad = [x for x in xs if abs(p(x)) > 1e-6 * max(1, abs(x)) ** 3 * max(map(abs, cs))]
            far = all(abs(x - y) > 1e-6 for i, x in enumerate(xs) for y in xs[:i])
            ctx.require(key, not bad and (n is None or len(xs) == n and far), where_fn(fc), 'roots %s' % xs, 'all real roots of the cubic, each of them a root')


REAL = {'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x), 'sqrt': math.sqrt, 'cos': math.cos, 'sin': math.sin, 'arccos': math.acos, 'acos': math.acos, 'abs': abs, 'fabs': abs, 'absolute': abs, 'max': max, 'min': min,
        'maximum': max, 'minimum': min, 'exp': math.exp, 'log': math.log, 'sign': lambda x: (x > 0) - (x < 0), 'arctan': math.atan, 'arctan2': math.atan2, 'cosh': math.cosh, 'sinh': math.sinh, 'arccosh': math.acosh,
        'arcsinh': math.asinh, 'pow': lambda a, b: a ** b, 'float': float}


def real(t, env):
    """value of a closed term: a number, a truth value or a list"""
    op = t.op
    if op == 'num':
        return float(t.args[0])
    if op == 'const':
        return t.args[0]
    if t is TM.PI:
        return math.pi
    if t is TM.EUL:
        return math.e
    if op == 'bvar':
        return env[t.args[0]]
    if op in ('poly', 'term'):
        out = 0.0
        for m, c in TM._poly(t).items():
            q = float(c)
            for b, e in m:
                q *= real(b, env) ** real(e, env)
            out += q
        return out
    if op == 'ite':
        return real(t.args[1 if real(t.args[0], env) else 2], env)
    if op == 'not':
        return not real(t.args[0], env)
    if op == 'and':
        return all(real(a, env) for a in t.args)
    if op == 'or':
        return any(real(a, env) for a in t.args)
    if op in ('neg', 'pos', 'zero', 'nonneg', 'nonpos'):
        a = real(t.args[0], env)
        return {'neg': a < 0, 'pos': a > 0, 'zero': abs(a) < 1e-12, 'nonneg': a >= 0, 'nonpos': a <= 0}[op]
    if op == 'lt':
        return real(t.args[0], env) < real(t.args[1], env)
    if op == 'eq':
        return real(t.args[0], env) == real(t.args[1], env)
    if op == 'idx':
        return real(t.args[0], env)[int(real(t.args[1], env))]
    if op == 'seq':
        return [x for s in t.args for x in _piece(s, env)]
    if op == 'len':
        return len(real(t.args[0], env))
    if op == 'call':
        return REAL[t.args[0].split('.')[-1]](*[real(a, env) for a in t.args[1].args])
    raise KeyError(op)


def _piece(s, env):
    if s.op == 'item':
        return [real(s.args[0], env)]
    if s.op == 'cond':
        return [x for q in s.args[1:] for x in _piece(q, env)] if real(s.args[0], env) else []
    if s.op == 'each':
        return [x for i in range(int(real(s.args[0], env))) for q in s.args[2:] for x in _piece(q, dict(env) | {s.args[1]: i})]
    if s.op == 'spread':
        return real(s.args[0], env)
    raise KeyError(s.op)


def number(t):
    try:
        v = real(t, {})
    except (ValueError, ArithmeticError, OverflowError, KeyError, TypeError, IndexError) as e:
        return None
    return v if isinstance(v, list) or isinstance(v, (int, float)) and v == v else None
