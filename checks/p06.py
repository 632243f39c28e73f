"""P06 cached halo quantities never go stale."""
from .common import *
from .halos import *
from .p07 import quantities, read

EXPLAIN = ("For every halo type and every in-place update of a halo (forced rescaling, infall redshift, bound mass) two histories are "
           "evaluated as gated terms on the same symbolic halo: update then read, and read-everything, update, read. Any quantity whose "
           "value differs between the two is stale (its memo attribute was not invalidated). Random sub-models are treated as fixed "
           "functions of the halo so that only staleness can make a difference.")
ASSUME = ['the lensing/cosmology primitives of LensCosmo and Cosmology are deterministic functions of their arguments (see P25)']
FLOOR = 250


def updates(S, h):
    f = S.sym('factor')
    out = {
        'rescale': lambda: S.meth(h, 'rescale_normalization', f, True, False),
        'rescale_log': lambda: S.meth(h, 'rescale_normalization', f, True, True),
        'infall': lambda: S.meth(h, 'set_infall_redshift', S.sym('z_new')),
        'bound': lambda: S.meth(h, 'set_bound_mass', S.sym('mb_new')),
    }
    return out


SECOND = ('rescale_log', 'bound')
NAMES = ['rescale', 'rescale_log', 'infall', 'bound']


def one_type(ctx, ci, sub, upd):
    P = program()
    label = ci.name + ('' if sub is None or len(subs_of(ci)) == 1 else '[sub]' if sub is TRUE else '[field]')

    def fresh():
        S = hsession(opaque=['compute_r_te_and_f_t', 'tau_mf_interpolation', 'tnfw_mass_fraction', 'cubic_real_roots'], draws=())
        return S, make(S, ci, sub=sub)
    qs = quantities(ci)
    for q in qs:
        S1, h1 = fresh()
        updates(S1, h1)[upd]()
        want = read(S1, h1, q)
        # each read starts from the warm state
        S2, h2 = fresh()
        read(S2, h2, q)
        updates(S2, h2)[upd]()
        got = read(S2, h2, q)
        fi = P.lookup(ci, q[0])
        ctx.equal('%s.%s:%s' % (label, q[0], upd), ite(band(*S2.st.pc), got, want), want, where_fn(fi), 'after the update a read equals the read of a halo updated before anything was read')
        ctx.saw(S2)
        S3, h3 = fresh()
        for q2 in qs:
            read(S3, h3, q2)
        updates(S3, h3)[upd]()
        got = read(S3, h3, q)
        ctx.equal('%s.%s:%s' % (label, q[0], upd), ite(band(*S3.st.pc), got, want), want, where_fn(fi), 'after reading everything and the update a read equals the read of a halo updated first')
        if upd in SECOND:
            second(ctx, '%s.%s:%s' % (label, q[0], upd), fresh, qs, q, upd, where_fn(fi))


def second(ctx, key, fresh, qs, q, upd, where):
    """the same after an earlier update that was itself followed by reads"""
    S1, h1 = fresh()
    S1.meth(h1, 'rescale_normalization', S1.sym('first'))
    updates(S1, h1)[upd]()
    want = read(S1, h1, q)
    S2, h2 = fresh()
    for q2 in qs:
        read(S2, h2, q2)
    S2.meth(h2, 'rescale_normalization', S2.sym('first'))
    for q2 in qs:
        read(S2, h2, q2)
    updates(S2, h2)[upd]()
    got = read(S2, h2, q)
    ctx.equal(key, ite(band(*S2.st.pc), got, want), want, where, 'reads between two updates do not change what is read after the second')


def run(ctx):
    for ci in halo_classes():
        for sub in subs_of(ci):
            for upd in NAMES:
                ctx.guard('%s:%s' % (ci.name, upd), one_type, ctx, ci, sub, upd)
