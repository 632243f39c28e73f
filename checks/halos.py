"""Symbolic halos of every type in the library (shared by the halo-level checks)."""
from .common import *

HB = 'pyHalo.Halos.halo_base:Halo'
HM = 'pyHalo.Halos.HaloModels.'
LENS = ['NFW_params_physical', 'nfw_physical2angle_fromNFWparams', 'nfw_physical2angle', 'nfwParam_physical',
        'get_sigma_crit_lensing', 'sigma_crit_arcsecond_interp', 'point_mass_factor_z', 'thetaE_from_sigma', 'nfw_vmax']
DRAWS = ['z_accreted_from_zlens', 'nfw_concentration', 'truncation_radius_halo', 'calculate_mbound', 'rvs']
# documented profile arguments per halo type are read through symbolic 'args'


def halo_classes():
    P = program()
    base = P.cls(HB)
    if base is None:
        raise Broken('Halo base class not found')
    out = []
    for c in P.all_classes():
        m = [x.name for x in P.mro(c) if hasattr(x, 'name')]
        if 'Halo' in m and c is not base and P.lookup(c, 'lenstronomy_params') is not None and not P.lookup(c, 'lenstronomy_params').abstract:
            out.append(c)
    if len(out) < 15:
        raise Broken('only %d halo types found' % len(out))
    return sorted(out, key=lambda c: c.name)


def hsession(opaque=(), draws=DRAWS, classes=('LensCosmo', 'Cosmology', 'Geometry'), **kw):
    return Session(Config(opaque=list(opaque), opaque_classes=list(classes), draws=draws, **kw))


def make(S, ci, sub=None, trunc=None, conc=None, args=None, tag='', lc=None, given=None):
    """an instance of halo class ci on symbolic arguments"""
    s = lambda n: S.sym(n + tag)
    init = S.prog.lookup(ci, '__init__')
    params = init.params[1:]
    lens = lc if lc is not None else S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
    d = dict(mass=s('m'), x=s('x'), y=s('y'), r3d=s('r3d'), z=s('z'), sub_flag=sub if sub is not None else s('is_sub'),
             lens_cosmo_instance=lens, args=args if args is not None else s('args'),
             truncation_class=trunc if trunc is not None else s('trunc'),
             concentration_class=conc if conc is not None else s('conc'), unique_tag=s('tag'), fixed_position=None,
             infall_mass=s('m'), final_bound_mass=s('mb'), infall_concentration=s('cinf'), redshift=s('z'),
             x_kpc=s('xk'), y_kpc=s('yk'), rescaling_factor=s('f'))
    S.st.assume(TM.lt(ZERO, s('z')))
    P = S.prog
    a = {}
    for p in params:
        if given and p in given:
            a[p] = given[p]
        elif p in ('nfw_halo', 'tnfw_halo'):
            a[p] = make(S, P.cls(HM + ('TNFW:TNFWSubhalo' if sub is not FALSE else 'TNFW:TNFWFieldHalo')), sub, trunc, conc, None, tag, lens)
        elif p == 'tnfwc_halo':
            a[p] = make(S, P.cls(HM + 'NFW_core_trunc:TNFWCHaloEvolving'), sub, trunc, conc, None, tag, lens)
        elif p in d and d[p] is not None:
            a[p] = d[p]
        elif p in d or p in init.defaults:
            continue
        else:
            a[p] = s(p)
    h = S.new(ci, **a)
    S.I.idents[h] = TM.sym('halo:' + ci.name + tag)
    for p in ('nfw_halo', 'tnfw_halo', 'tnfwc_halo'):
        if p in a:
            S.I.idents.setdefault(a[p], TM.sym('halo:' + p + tag))
    return h


def subs_of(ci):
    """the subhalo flags a halo type is used with"""
    init = program().lookup(ci, '__init__')
    flags = [p for p in init.params if p in ('sub_flag', 'nfw_halo', 'tnfw_halo', 'tnfwc_halo')]
    if not flags:
        return [None]
    if ci.name.endswith('FieldHalo'):
        return [FALSE]
    if ci.name.endswith('Subhalo'):
        return [TRUE]
    return [TRUE, FALSE]


def readable(ci):
    """public quantities of a halo that can be read without arguments (name, how)"""
    P = program()
    out = []
    for n, fi in sorted(P.all_methods(ci).items()):
        if n.startswith('_') or fi.abstract:
            continue
        if fi.kind in ('property', 'cached_property'):
            out.append(n)
    return out


# ---------------------------------------------------------------- lensing arguments
ROUNDERS = ('call:round', 'call:np.round', 'call:np.around', 'call:np.round_')


def unround(t):
    """drop numeric rounding: a rounded value is the value itself up to the documented output precision"""
    def f(u):
        if u.op == 'call' and u.args[0] in ('round', 'np.round', 'np.around', 'numpy.round', 'numpy.around') and u.args[1].args:
            return TM.subst(u.args[1].args[0], f)
        return None
    return TM.subst(t, f)


def as_dict(t):
    """python dict of a closed dictionary term, or None"""
    if t.op != 'dict':
        return None
    out = {}
    a = t.args
    for i in range(0, len(a), 2):
        if a[i].op != 'const':
            return None
        out[a[i].args[0]] = a[i + 1]
    return out


def as_list(t):
    """python list of a closed list or tuple term, or None"""
    if t.op == 'tup':
        return list(t.args)
    if t.op == 'seq' and all(x.op == 'item' for x in t.args):
        return [x.args[0] for x in t.args]
    return None


def lens_ids(S, h):
    """alternatives of the list of lens model names"""
    return [(as_list(v), g) for v, g in decide.cases(S.r(S.attr(h, 'lenstronomy_ID')))]


def lens_params(S, h, name='lenstronomy_params'):
    """alternatives of (list of keyword dictionaries, interpolation class): [(list or None, guard)]"""
    out = []
    t = S.r(S.attr(h, name))
    for v, g in decide.cases_top(t):
        l = as_list(v)
        if l is None or len(l) != 2:
            out.append((None, v, g))
            continue
        for w, g2 in decide.cases_top(l[0], g):
            k = as_list(w)
            if k is None:
                out.append((None, w, g2))
                continue
            combos = [([], g2)]
            for x in k:
                nxt = []
                for acc, g3 in combos:
                    for y, g4 in decide.cases_top(x, g3):
                        nxt.append((acc + [as_dict(y)], g4))
                combos = nxt
            for acc, g3 in combos:
                out.append((None if any(d is None for d in acc) else acc, w, g3))
    return out


def hlabel(ci, sub):
    return ci.name + ('' if sub is None or len(subs_of(ci)) == 1 else '[sub]' if sub is TRUE else '[field]')
