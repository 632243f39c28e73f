"""P09 each halo supplies exactly the arguments its lens model needs."""
from .common import *
from .halos import *

EXPLAIN = ("For every halo type (subhalo and field) lenstronomy_ID and lenstronomy_params are evaluated as gated terms; on every path "
           "the keyword set of each entry is compared with the argument table of the lens profile named at the same "
           "position, and its centre with the position of the halo (up to output rounding).")
ASSUME = ['argument names of the lens profiles are those of lenstronomy (table in checks/p09.py)']
FLOOR = 100
C = {'center_x', 'center_y'}
TABLE = {
    'NFW': C | {'alpha_Rs', 'Rs'}, 'TNFW': C | {'alpha_Rs', 'Rs', 'r_trunc'}, 'CNFW': C | {'alpha_Rs', 'Rs', 'r_core'},
    'TNFWC': C | {'alpha_Rs', 'Rs', 'r_core', 'r_trunc'}, 'PJAFFE': C | {'sigma0', 'Ra', 'Rs'},
    'GAUSSIAN': C | {'amp', 'sigma'}, 'SIS': C | {'theta_E'}, 'POINT_MASS': C | {'theta_E'},
    'PSEUDO_DPL': C | {'alpha_Rs', 'Rs', 'gamma_inner', 'gamma_outer'}, 'SPL_CORE': C | {'sigma0', 'r_core', 'gamma'},
    'ULDM': C | {'kappa_0', 'theta_c'},
    'CORE_COLLAPSED_HALO': C | {'Rs_inner', 'Rs_outer', 'alpha_Rs_inner', 'alpha_Rs_outer', 'r_trunc', 'gamma_inner', 'gamma_outer'},
    'CORE_COLLAPSED_HALO_BH': C | {'Rs_outer', 'theta_E_inner', 'alpha_Rs_outer', 'r_trunc'},
    'CONVERGENCE': {'kappa', 'ra_0', 'dec_0'}, 'GNFW': C | {'kappa_s', 'Rs', 'gamma_inner', 'gamma_outer'},
    'SPLINE': C,
}
SPLIT = {'CORE_COLLAPSED_HALO': ['PSEUDO_DPL', 'TNFW'], 'CORE_COLLAPSED_HALO_BH': ['POINT_MASS', 'TNFW']}


def position(S, h, ci):
    """the angular position of a halo"""
    if ci.name == 'GaussianHalo':
        a = S.sym('args')
        return S.expr('a["center_x"]', dict(a=a)), S.expr('a["center_y"]', dict(a=a))
    return S.attr(h, 'x'), S.attr(h, 'y')


def coarse(t, need):
    for u in TM.walk(t):
        if u.op == 'call' and u.args[0] in ('round', 'np.round', 'np.around', 'numpy.round'):
            a = u.args[1].args
            kw = dict((x.args[0], x.args[1]) for x in u.args[2].args) if len(u.args) > 2 and u.args[2].args and u.args[2].args[0].op == 'kv' else {}
            k = a[1] if len(a) > 1 else const(0)
            if TM.is_num(k) and float(TM.numval(k)) < need and not (len(a) == 1 and len(u.args) > 2 and u.args[2].args):
                return float(TM.numval(k))
    return None


def entries(ctx, S, h, ci, label, ids, params, where):
    for names, g in ids:
        if names is None or any(not is_const(n) for n in names):
            ctx.undetermined(label + ':ids', where, 'list of lens models not resolved')
            continue
        names = [n.args[0] for n in names]
        for kw, t, g2 in params:
            if kw is None:
                ctx.undetermined(label + ':params', where, 'keyword arguments not resolved: ' + TM.show(t, 4)[:300])
                continue
            if len(kw) != len(names):
                ctx.violation(label + ':count', where, '%d lens models %s but %d keyword sets' % (len(names), names, len(kw)),
                              'one keyword set per lens model')
                continue
            for i, (n, d) in enumerate(zip(names, kw)):
                if n not in TABLE:
                    ctx.undetermined('%s:keys%d' % (label, i), where, 'profile %s is not in the table' % n)
                    continue
                ks = set(d)
                ctx.require('%s:keys%d' % (label, i), ks == TABLE[n], where,
                            'profile %s got %s; missing %s, unexpected %s' % (n, sorted(map(str, ks)), sorted(TABLE[n] - ks), sorted(map(str, ks - TABLE[n]))),
                            'the keyword set equals the argument list of the lens profile')
                for k, v in d.items():
                    dg = coarse(v, 4 if k in ('center_x', 'center_y') else 8)
                    ctx.require('%s:%s%d:digits' % (label, k, i), dg is None, where, 'rounded to %s decimals' % dg,
                                'positions keep at least 4 and other arguments 8 decimals')
                if 'center_x' in TABLE[n]:
                    px, py = position(S, h, ci)
                    for k, p in (('center_x', px), ('center_y', py)):
                        if k in d:
                            ctx.equal('%s:%s%d' % (label, k, i), unround(d[k]), unround(S.r(p)), where, 'the centre is the halo position', asg=g2)


def one(ctx, ci, sub):
    P = program()
    label = hlabel(ci, sub)
    S = hsession(draws=())
    h = make(S, ci, sub=sub)
    ids = lens_ids(S, h)
    pars = lens_params(S, h)
    entries(ctx, S, h, ci, label, ids, pars, where_fn(P.lookup(ci, 'lenstronomy_params')))
    ctx.saw(S)
    if P.lookup(ci, 'lenstronomy_params_split') is not None:
        names = as_list(ids[0][0]) if not isinstance(ids[0][0], list) else ids[0][0]
        nm = names[0].args[0] if names and is_const(names[0]) else None
        for order in (0, 1):
            S = hsession(draws=())
            h = make(S, ci, sub=sub)
            if order:
                S.attr(h, 'lenstronomy_params')
            pars = lens_params(S, h, 'lenstronomy_params_split')
            want = SPLIT.get(nm)
            if want is None:
                ctx.undetermined(label + ':split', '', 'no component table for %s' % nm)
                continue
            entries(ctx, S, h, ci, label + ':split', [([const(w) for w in want], {})], pars, where_fn(P.lookup(ci, 'lenstronomy_params_split')))
            # and the combined set is still right afterwards
            pars = lens_params(S, h)
            entries(ctx, S, h, ci, label + ':aftersplit', ids, pars, where_fn(P.lookup(ci, 'lenstronomy_params_split')))


def run(ctx):
    for ci in halo_classes():
        for sub in subs_of(ci):
            ctx.guard(hlabel(ci, sub), one, ctx, ci, sub)
