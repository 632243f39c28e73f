"""P01 derived realizations keep the lensing context of their parent."""
from .common import *

EXPLAIN = ("Every public method of Realization and RealizationExtensions (and module function realization_at_z) is evaluated "
           "abstractly on a symbolic parent realization; for every Realization object that can be returned the seven context "
           "fields are compared, as gated terms, with those of the parent for all inputs.")
ASSUME = ['halo, cosmology and rendering objects given to the library are arbitrary but well behaved symbols']
FLOOR = 40
CTXF = ['lens_cosmo', 'kwargs_halo_model', 'apply_mass_sheet_correction', 'rendering_classes', 'rendering_center', 'geometry']
RZ = 'pyHalo.single_realization:Realization'
EX = 'pyHalo.realization_extensions:RealizationExtensions'
ARGSYM = ['lens_cosmo', 'kwargs_halo_model', 'msheet', 'rendering_classes', 'cx', 'cy', 'geometry']


def session():
    return Session(Config(opaque_classes=['LensCosmo', 'Cosmology', 'Geometry']))


def parent(S, halos='halos'):
    P = S.prog
    ci = P.cls(RZ)
    h = S.sym(halos) if isinstance(halos, str) else halos
    a = [S.sym(x) for x in ARGSYM]
    for x in (h, a[4], a[5]):
        # parents hold a list of halos and both rendering-centre functions (the constructor fills them in)
        S.st.assume(bnot(TM.eq(x, NONE)))
    return S.new(ci, NONE, NONE, NONE, NONE, NONE, NONE, NONE, a[0], halos=h, kwargs_halo_model=a[1],
                 mass_sheet_correction=a[2], rendering_classes=a[3], rendering_center_x=a[4],
                 rendering_center_y=a[5], geometry=a[6])


def assume_centre(par_asg=True):
    return {('b', TM.eq(TM.sym(x), NONE)): False for x in ('halos', 'cx', 'cy')}


def run(ctx):
    P = program()
    rz, ex = P.cls(RZ), P.cls(EX)
    if rz is None or ex is None:
        raise Broken('Realization / RealizationExtensions not found')
    nres = [0]

    def check_result(S, par, v, key, where, skip=(), other=None):
        leaves_ = bodyleaves(S, v)
        n = 0
        for x in leaves_:
            if x is par or not is_inst(S, x, 'Realization'):
                continue
            n += 1
            for f in CTXF:
                if f in skip:
                    continue
                got, exp = S.r(S.attr(x, f)), S.r(S.attr(par, f))
                ctx.equal('%s:%s' % (key, f), got, exp, where,
                          'the context field %s of the result equals that of the parent' % f, asg=assume_centre())
        nres[0] += n
        return n

    def one(ci, name, fi, isext):
        S = session()
        par = parent(S)
        obj = S.new(ci, par) if isext else par
        params = fi.params[1:] if fi.kind != 'static' else fi.params
        env = {}
        args = []
        for p in params:
            if name == 'join' and p == 'join_rendering_classes':
                args.append(FALSE)
            elif p in ('realization',) and not isext:
                args.append(par)
            else:
                args.append(S.sym(p))
        if name == 'join':
            # the second realization is another one
            args[0] = S.sym(params[0], RZ)
        v = S.meth(obj, name, *args)
        skip = ()
        if name == 'shift_background_to_source':
            skip = ('rendering_center',)     # the shift redefines the centre (P05)
        n = check_result(S, par, v, '%s.%s' % (ci.name, name), where_fn(fi), skip)
        ctx.saw(S)
        return n

    for ci, isext in ((rz, False), (ex, True)):
        for name, fi in sorted(P.all_methods(ci).items()):
            if name.startswith('_') or fi.kind in ('property', 'classmethod'):
                continue
            ctx.guard('%s.%s' % (ci.name, name), one, ci, name, fi, isext)

    def at_z():
        fi = P.func('pyHalo.single_realization:realization_at_z')
        if fi is None:
            raise Broken('realization_at_z not found')
        S = session()
        par = parent(S)
        v = S.call(fi, par, S.sym('z'), S.sym('ax'), S.sym('ay'), S.sym('max_range'), S.sym('msheet'))
        check_result(S, par, v, 'realization_at_z', where_fn(fi))
        ctx.saw(S)
    ctx.guard('realization_at_z', at_z)

    def factory():
        # the factory used by all of the above hands every field on
        S = session()
        fi = P.lookup(rz, 'from_halos')
        if fi is None:
            raise Broken('Realization.from_halos not found')
        par = parent(S)
        a = [S.sym('halos')] + [S.sym(x) for x in ARGSYM]
        v = S.meth(par, 'from_halos', *a)
        check_result(S, par, v, 'Realization.from_halos', where_fn(fi))
        S2 = session()
        ci2 = S2.prog.cls(RZ)
        par2 = parent(S2)
        got = {f: S2.r(S2.attr(par2, f)) for f in CTXF}
        want = dict(lens_cosmo=TM.sym('lens_cosmo'), kwargs_halo_model=TM.sym('kwargs_halo_model'),
                    apply_mass_sheet_correction=TM.sym('msheet'), rendering_classes=None,
                    rendering_center=mk('tup', TM.sym('cx'), TM.sym('cy')), geometry=TM.sym('geometry'))
        for f in CTXF:
            if want[f] is not None:
                ctx.equal('Realization.__init__:' + f, got[f], want[f], where_fn(P.lookup(rz, '__init__')),
                          'the constructor stores the context argument', asg=assume_centre())
        ctx.saw(S)
    ctx.guard('factory', factory)

    def join_classes():
        # joining with rendering classes: both class lists are kept
        S = session()
        par = parent(S)
        oth = S.sym('other', RZ)
        v = S.meth(par, 'join', oth, TRUE)
        fi = P.lookup(rz, 'join')
        check_result(S, par, v, 'Realization.join[join_rendering_classes]', where_fn(fi), ('rendering_classes',))
        ctx.saw(S)
    ctx.guard('join_classes', join_classes)
    if nres[0] < 5:
        raise Broken('only %d derived realizations were recognised' % nres[0])
