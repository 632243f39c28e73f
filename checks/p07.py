"""P07 asking a halo twice gives the same answer."""
from .common import *
from .halos import *

EXPLAIN = ("For every halo type and each public quantity of it (properties; also mass_3d('r200')) the value is computed as a gated term "
           "on a symbolic halo whose concentration, infall redshift and tidal bound mass are fresh random draws on every evaluation; "
           "it is compared with the value of a second read, and with the value obtained when the other quantities were "
           "read before it, in both orders. A quantity that is re-drawn, or that depends on whether another one was read first, "
           "differs.")
ASSUME = ['the lensing/cosmology primitives of LensCosmo and Cosmology are deterministic functions of their arguments (see P25)']
FLOOR = 250

TRUNCS = ['TruncationGalacticus', 'TruncationGalacticusZinfall', 'TruncationGalacticusKeeley24', 'TruncationGalacticusApproxCDM', 'TruncationBoundMassPDF', 'TruncationRN', 'Multiple_RS']
TM_ = 'pyHalo.Halos.tidal_truncation:'


def quantities(ci):
    P = program()
    out = [(n, None) for n in readable(ci)]
    if P.lookup(ci, 'mass_3d') is not None:
        out.append(('mass_3d', ('r200',)))
    return out


def read(S, h, q):
    n, args = q
    v = S.attr(h, n) if args is None else S.meth(h, n, *args)
    return S.r(v)


def rec_err(v):
    return v.op in ('unknown',)


def one_type(ctx, ci, trunc=None, sub=None):
    P = program()
    opq = ['compute_r_te_and_f_t', 'tau_mf_interpolation', 'tnfw_mass_fraction', 'cubic_real_roots']

    def fresh():
        S = hsession(opaque=opq, classes=('LensCosmo', 'Cosmology', 'Geometry', 'InterpGalacticus', 'InterpGalacticusZinfall', 'InterpGalacticusKeeley24'),
                     draws=['z_accreted_from_zlens', 'nfw_concentration', 'truncation_radius_halo', 'calculate_mbound', 'rvs', '_mass_loss_interp', '__call__'])
        t = None
        if trunc:
            tc = P.cls(TM_ + trunc)
            init = P.lookup(tc, '__init__')
            t = S.new(tc, *[S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo') if p == 'lens_cosmo' else S.sym('t_' + p) for p in init.params[1:] if p not in init.defaults])
        h = make(S, ci, sub=sub, trunc=t)
        return S, h
    qs = quantities(ci)
    base = {}
    label = ci.name + ('' if sub is None or len(subs_of(ci)) == 1 else '[sub]' if sub is TRUE else '[field]') + ('[%s]' % trunc if trunc else '')
    for q in qs:
        S, h = fresh()
        a = read(S, h, q)
        b = read(S, h, q)
        base[q] = a
        fi = P.lookup(ci, q[0])
        ctx.equal('%s.%s:again' % (label, q[0]), b, a, where_fn(fi), 'a second read returns the value of the first')
        ctx.saw(S)
    for order, name in ((qs, 'forward'), (qs[::-1], 'backward')):
        S, h = fresh()
        vals = {}
        for q in order:
            vals[q] = read(S, h, q)
        done = band(*S.st.pc)   # reads that can raise (unsupported quantity) did not
        for q in qs:
            fi = P.lookup(ci, q[0])
            ctx.equal('%s.%s:%s' % (label, q[0], name), ite(done, vals[q], base[q]), base[q], where_fn(fi),
                      'the value does not depend on which other quantities were read before')


def run(ctx):
    P = program()
    for ci in halo_classes():
        for sub in subs_of(ci):
            ctx.guard(ci.name, one_type, ctx, ci, None, sub)
    for tn in TRUNCS:
        if P.cls(TM_ + tn) is None:
            continue
        ci = P.cls(HM + 'TNFW:TNFWSubhalo')
        if ci is None:
            raise Broken('TNFWSubhalo not found')
        ctx.guard('TNFWSubhalo[%s]' % tn, one_type, ctx, ci, tn, TRUE)
