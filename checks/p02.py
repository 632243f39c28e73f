"""P02 re-modelling a halo preserves its identity and evolutionary state."""
from .common import *
from .halos import *
from .p01 import RZ, EX, ARGSYM

EXPLAIN = ("Every operation that replaces the profile of a halo is evaluated on a symbolic realization holding one symbolic truncated halo "
           "(subhalo and field halo separately, every profile option, every branch on masses, probabilities and timescales); each halo object that can "
           "come out is compared, attribute by attribute, with the halo that went in, and its age and core-collapse time with those of an equal halo "
           "whose infall redshift and bound mass were set before anything was read.")
ASSUME = ['sub-models of the original halo (truncation, concentration, infall) are fixed functions of the halo']
FLOOR = 150
TNFW = {TRUE: 'TNFW:TNFWSubhalo', FALSE: 'TNFW:TNFWFieldHalo'}
IDENT = ['mass', 'x', 'y', 'r3d', 'z', 'is_subhalo', 'lens_cosmo', 'unique_tag']
STATE = ['z_infall', 'bound_mass']


def conversions():
    """label -> (source of a call on E (extensions), h (halo), symbols)"""
    out = {}
    for prof in ('TNFWC', 'CC_COMPOSITE'):
        for ev in ('True', 'False'):
            o = "halo_profile='%s', x_core_halo=xc" % prof
            n = '%s:%s' % (prof, 'evolving' if ev == 'True' else 'static')
            out['toSIDM_from_timescale:' + n] = "E.toSIDM_from_timescale([[lo, hi]], [tc], None, ts, evolving_SIDM_profile=%s, collapse_probability=pc, %s)" % (ev, o)
            out['toSIDM_from_timescale:sigma:' + n] = "E.toSIDM_from_timescale([[lo, hi]], [tc], [sg], ts, evolving_SIDM_profile=%s, collapse_probability=pc, %s)" % (ev, o)
            out['toSIDM_from_cross_section:' + n] = "E.toSIDM_from_cross_section([[lo, hi]], [cs], ts, evolving_SIDM_profile=%s, collapse_probability=pc, %s)" % (ev, o)
            for t, ts in (('', ''), (':tc', ', t_c=tc, subhalo_evolution_scaling=ts'), (':ratio', ', t_over_tc=ratio')):
                out['toSIDM_halo_list:' + n + t] = "E.toSIDM_halo_list([h], evolving_profile=%s, collapse_probability=pc, %s%s)" % (ev, o, ts)
                out['toSIDM_single_halo:' + n + t] = "E.toSIDM_single_halo(h, evolving_profile=%s, collapse_probability=pc, %s%s)" % (ev, o, ts)
        out['add_core_collapsed_halos:' + prof] = "E.add_core_collapsed_halos([0], halo_profile='%s', x_core_halo=xc, gamma_inner=gi, scale_match_r=sm, log_slope_match=ls)" % prof
    for prof in ('GNFW', 'SPL_CORE'):
        out['add_core_collapsed_halos:' + prof] = "E.add_core_collapsed_halos([0], halo_profile='%s', x_core_halo=xc, gamma_inner=gi, gamma_outer=go, log_slope_halo=ls)" % prof
    out['add_cored_halos:CNFW'] = "E.add_cored_halos([0], beta)"
    out['add_cored_halos:TNFWC'] = "E.add_cored_halos([0], beta, core_density_profile='TNFWC')"
    return out


def sess():
    return Session(Config(opaque=LENS + ['_solve_for_core_radius', 'log_derivative_inverse', 'compute_r_te_and_f_t'], opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], draws=(), arrays=True, elementwise=['x0','x1','y0','y1','rx','ry']))


SYMS = ('lo', 'hi', 'tc', 'sg', 'ts', 'cs', 'pc', 'xc', 'gi', 'go', 'sm', 'ls', 'beta', 'ratio')


def world(sub):
    S = sess()
    P = S.prog
    h = make(S, P.cls(HM + TNFW[sub]), sub=sub)
    a = {x: S.sym(x) for x in ARGSYM}
    S.st.assume(bnot(TM.eq(a['cx'], NONE)))
    S.st.assume(bnot(TM.eq(a['cy'], NONE)))
    par = S.new(P.cls(RZ), NONE, NONE, NONE, NONE, NONE, NONE, NONE, S.attr(h, 'lens_cosmo'), halos=S.py([h]), kwargs_halo_model=a['kwargs_halo_model'],
                mass_sheet_correction=a['msheet'], rendering_classes=a['rendering_classes'], rendering_center_x=a['cx'], rendering_center_y=a['cy'], geometry=a['geometry'])
    E = S.new(P.cls(EX), par)
    env = dict(E=E, h=h, par=par, **{x: S.sym(x) for x in SYMS})
    return S, h, par, E, env


def results(S, v):
    """[(halo object, guard)] of the halos that can be in the result"""
    out = []
    for x, g in gated(S, v):
        if is_inst(S, x, 'Realization'):
            for items, g2 in list_items(S, S.attr(x, 'halos'), g):
                for it in items or ():
                    out += gated(S, it, g2)
        else:
            out.append((x, g))
    res = {}
    for x, g in out:
        if is_inst(S, x, 'Halo'):
            res[x] = bor(res[x], g) if x in res else g
    return list(res.items())


def one(ctx, label, src, sub):
    P = program()
    fi = P.lookup(P.cls(EX), label.split(':')[0])
    if fi is None:
        raise Broken('%s not found' % label)
    w = where_fn(fi)
    lab = label + ('[sub]' if sub is TRUE else '[field]')
    S, h, par, E, env = world(sub)
    v = S.expr(src, env)
    got = [(x, g) for x, g in results(S, v) if x is not h]
    if not got:
        ctx.undetermined(lab, w, 'no replacement halo recognised')
        return
    pc = band(*S.st.pc)
    for r, g in got:
        with S.under(g):
            compare(ctx, S, h, r, lab, w, sub)
    ctx.saw(S)


def compare(ctx, S, h, r, lab, w, sub):
    P = S.prog
    cn = S.I.obj(S.st, r).cls.name
    pc = band(*S.st.pc)
    conc = ['c'] if P.lookup(S.I.obj(S.st, r).cls, 'c').cls.name != 'Halo' else []
    for q in IDENT + (STATE if sub is TRUE else []) + conc:
        key = '%s:%s:%s' % (lab, cn, q)
        try:
            a, b = S.r(S.attr(r, q)), S.r(S.attr(h, q))
        except Exception as e:
            ctx.undetermined(key, w, 'analysis: %s' % e)
            continue
        ctx.equal(key, ite(pc, a, b), b, w, 'the replacement halo has the %s of the halo it replaces' % q)
    if sub is TRUE and P.lookup(S.I.obj(S.st, r).cls, 't_over_tc') is not None:
        # the same halo built by hand with its state in place first
        init = P.lookup(S.I.obj(S.st, r).cls, '__init__')
        cc = S.new('pyHalo.Halos.concentration:ConcentrationConstant', NONE, S.attr(h, 'c'))
        ref = S.new(S.I.obj(S.st, r).cls, *([S.attr(h, q) for q in IDENT[:7]] + [S.attr(r, 'args_profile'), NONE, cc, S.attr(h, 'unique_tag')]))
        S.meth(ref, 'set_infall_redshift', S.attr(h, 'z_eval'))
        S.meth(ref, 'set_bound_mass', S.attr(h, 'bound_mass'))
        for q in ('halo_effective_age', 't_over_tc'):
            if P.lookup(S.I.obj(S.st, r).cls, q) is None:
                continue
            a, b = S.r(S.attr(r, q)), S.r(S.attr(ref, q))
            ctx.equal('%s:%s:%s' % (lab, cn, q), ite(pc, a, b), b, w, 'the evolution of the replacement is evaluated with the infall redshift and bound mass of the original')


def run(ctx):
    for label, src in conversions().items():
        for sub in (TRUE, FALSE):
            ctx.guard(label, one, ctx, label, src, sub)
