"""P11 rescaling a halo scales its lensing amplitude exactly once."""
from .common import *
from .halos import *

EXPLAIN = ("For every halo type, histories of rescale_normalization calls (once; twice without force; once then forced; unlogged then logged) are "
           "evaluated on one symbolic halo and the lensing arguments, central density, enclosed mass and bound mass read afterwards are "
           "compared as value terms with those of the unscaled halo times the factor the history prescribes.")
ASSUME = ['random sub-models (concentration, infall, truncation) are fixed functions of the halo, so that only the normalization differs between histories']
FLOOR = 150
AMP = {'NFW': 'alpha_Rs', 'TNFW': 'alpha_Rs', 'CNFW': 'alpha_Rs', 'TNFWC': 'alpha_Rs', 'PSEUDO_DPL': 'alpha_Rs', 'SPL_CORE': 'sigma0', 'PJAFFE': 'sigma0',
       'SIS': 'theta_E', 'POINT_MASS': 'theta_E', 'GAUSSIAN': 'amp', 'ULDM': 'kappa_0'}
SCALES = ('NFWFieldHalo', 'NFWSubhhalo', 'TNFWFieldHalo', 'TNFWSubhalo', 'CoreNFWHalo', 'TNFWFromParams', 'TNFWSubhaloEmulator')
# histories: list of (factor, force, log) and the net factor they must have
HIST = {
    'once': ([('f', False, True)], 'f'),
    'unlogged': ([('f', False, False)], 'f'),
    'repeated': ([('f', False, True), ('g', False, True), ('g', False, False)], 'f'),
    'forced': ([('f', False, True), ('g', True, True)], 'f*g'),
    'forced-only': ([('f', True, True)], 'f'),
    'forced-then': ([('f', True, True), ('g', False, True)], 'f'),
    'unlogged-then-logged': ([('f', False, False), ('g', False, True)], 'f*g'),
    'unlogged-forced': ([('f', True, False), ('g', False, True)], 'f*g'),
}


def plain(t):
    """the state snapshot inside a bound method handed to an external optimizer is not a lensing argument"""
    return TM.subst(unround(t), lambda u: TM.sym('method:' + str(getattr(u.args[0], 'qual', u.args[0]))) if u.op == 'bm' else None)


def state(ci, sub, hist, warm):
    S = hsession(draws=())
    h = make(S, ci, sub=sub)
    if warm:
        S.attr(h, 'lenstronomy_params')
    for fac, force, log in hist:
        S.meth(h, 'rescale_normalization', S.sym(fac), force=force, log=log)
    return S, h


def one(ctx, ci, sub, name):
    P = program()
    hist, net = HIST[name]
    label = hlabel(ci, sub) + ':' + name
    where = where_fn(P.lookup(ci, 'rescale_normalization'))
    S0, h0 = state(ci, sub, [], False)
    ids = lens_ids(S0, h0)[0][0]
    base = lens_params(S0, h0)
    for warm in (False, True):
        S, h = state(ci, sub, hist, warm)
        pars = lens_params(S, h)
        if len(base) != len(pars):
            ctx.undetermined(label, where, 'different case structure')
            continue
        F = S.expr(net, dict(f=S.sym('f'), g=S.sym('g')))
        tag = ':warm' if warm else ''
        for (b, _, g0), (a, t, g1) in zip(base, pars):
            if a is None or b is None or len(a) != len(b):
                ctx.undetermined(label, where, 'arguments not resolved')
                continue
            for i, (x, y) in enumerate(zip(b, a)):
                n = ids[i].args[0] if ids and i < len(ids) and is_const(ids[i]) else None
                if set(x) != set(y):
                    ctx.violation('%s:keys%d' % (label, i), where, 'arguments %s became %s' % (sorted(x), sorted(y)), 'same arguments')
                    continue
                for k in sorted(x):
                    key = '%s:%s%s%s' % (label, k, i or '', tag)
                    u, v = plain(x[k]), plain(y[k])
                    if k == AMP.get(n):
                        if ci.name in SCALES:
                            ctx.equal(key, v, mul(F, u), where, 'the amplitude is scaled by the net factor of the rescaling history', asg=g1)
                        else:
                            ctx.one_of(key, v, [u, mul(F, u)], where, 'the amplitude is scaled by the net factor or not at all', asg=g1)
                    else:
                        ctx.equal(key, v, u, where, 'shape and position do not depend on the normalization', asg=g1)
        if ci.name in SCALES:
            others(ctx, ci, sub, label + tag, hist, warm, F)
        ctx.saw(S)


def others(ctx, ci, sub, label, hist, warm, F):
    P = program()
    for q, how in (('params_physical', "h.params_physical['rhos']"), ('rescale_norm', 'h.rescale_norm'), ('bound_mass', 'h.bound_mass')):
        fi = P.lookup(ci, q)
        if fi is None or q != 'rescale_norm' and fi.cls.name == 'Halo' or ci.name == 'TNFWSubhaloEmulator' and q == 'params_physical':
            continue
        S0, h0 = state(ci, sub, [], False)
        S, h = state(ci, sub, hist, warm)
        u, v = S0.r(S0.expr(how, dict(h=h0))), S.r(S.expr(how, dict(h=h)))
        ctx.equal('%s:%s' % (label, q), unround(v), mul(F, unround(u)), where_fn(fi), 'reported amplitudes carry the same factor')


def run(ctx):
    for ci in halo_classes():
        for sub in subs_of(ci):
            for name in HIST:
                ctx.guard(hlabel(ci, sub) + ':' + name, one, ctx, ci, sub, name)
