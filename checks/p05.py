"""P05 the towards-source shift is applied at most once and is remembered."""
from .member import *
from .halos import *
from .p01 import RZ, EX, parent, session
from .p09 import position

EXPLAIN = ("The shift is evaluated on a realization of two symbolic halos (arbitrary redshift, position and fixed-position flag): the position of each halo "
           "that comes out is compared with the documented displacement at its own comoving distance, the original halos with themselves. For every halo "
           "type the lensing arguments read after a shift (having been read before or not) must be centred on the new position. Every realization that any "
           "public operation can return from a shifted realization is shifted again and must come back unchanged.")
ASSUME = ['ray-coordinate functions map comoving distances element by element']
FLOOR = 40
ELEM = ['rx', 'ry', 'rx2', 'ry2']
KN = ('meth:D_C_z', 'meth:__call__')
SY = ELEM + ['zm']


def sess():
    return Session(Config(opaque=LENS, opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], draws=(), arrays=True, elementwise=ELEM))


def displaced(S, env, h, par, fixed, zm):
    """documented position of a halo after the shift"""
    e = dict(env, h=h, R=par, fixed=fixed, zm=zm)
    D = 'R.lens_cosmo.cosmo.D_C_z(h.z)'
    return [S.r(S.expr('h.%s if fixed or h.z < zm else h.%s + r%s(%s)' % (c, c, c, D), e)) for c in 'xy']


def bytag(S, v, tag):
    """[(guard, halo)] of the result with that tag, None when not recognised"""
    es = entries(S, S.attr(v, 'halos'))
    if es is None:
        return None
    out = []
    for c, x in es:
        for y, g in gated(S, x, c):
            if not is_inst(S, y, 'Halo'):
                return None
            t = S.r(S.attr(y, 'unique_tag'))
            if t.op != 'const':
                return None
            if t.args[0] == tag:
                out.append((g, y))
    return out


def moves(ctx, w):
    for lab, useq, args in (('default', False, ''), ('minimum', True, ', zm')):
        S = sess()
        H = []
        for t in 'AB':
            h = make(S, S.prog.cls(HM + 'TNFW:TNFWFieldHalo'), FALSE, tag=t)
            S.I.set_attr(h, 'fixed_position', S.sym('fixed' + t), S.st, None)
            S.I.set_attr(h, 'unique_tag', const(t), S.st, None)
            H.append(h)
        par = parent(S, S.py(H))
        env = dict(R=par, **{x: S.sym(x) for x in SY})
        for x in ELEM:
            S.st.assume(bnot(TM.eq(env[x], NONE)))
        want = {t: displaced(S, env, h, par, S.sym('fixed' + t), env['zm'] if useq else num(0)) for h, t in zip(H, 'AB')}
        before = {t: [S.r(S.attr(h, c)) for c in 'xy'] for h, t in zip(H, 'AB')}
        v = S.expr('R.shift_background_to_source(rx, ry%s)' % args, env)
        for h, t in zip(H, 'AB'):
            for c, b in zip('xy', before[t]):
                ctx.equal('shift:%s:%s:original-%s' % (lab, t, c), S.r(S.attr(h, c)), b, w, 'the halos of the original realization stay where they are', known=KN)
            got = bytag(S, v, t)
            if got is None:
                ctx.undetermined('shift:%s:%s' % (lab, t), w, 'result list not recognised')
                continue
            ctx.equal('shift:%s:%s:kept' % (lab, t), anyof([g for g, _ in got]), TRUE, w, 'every halo is in the shifted realization')
            ctx.equal('shift:%s:%s:once' % (lab, t), twice([g for g, _ in got]), FALSE, w, 'no halo is there twice')
            for g, y in got:
                with S.under(g):
                    pc = band(*S.st.pc)
                    for k, c in enumerate('xy'):
                        ctx.equal('shift:%s:%s:%s' % (lab, t, c), ite(pc, S.r(S.attr(y, c)), ZERO), ite(pc, want[t][k], ZERO), w,
                                  'moved by the deflection at its own comoving distance, unless fixed or below the minimum redshift', known=KN)
            # a second request changes nothing
            v2 = S.expr('V.shift_background_to_source(rx2, ry2)', dict(env, V=v))
            got2 = bytag(S, v2, t) if v2 is not v else got
            if v2 is v:
                ctx.ok('shift:%s:%s:again' % (lab, t), w)
            elif got2 is None:
                ctx.undetermined('shift:%s:%s:again' % (lab, t), w, 'result list not recognised')
            else:
                for g, y in got2:
                    with S.under(g):
                        pc = band(*S.st.pc)
                        for k, c in enumerate('xy'):
                            ctx.equal('shift:%s:%s:again-%s' % (lab, t, c), ite(pc, S.r(S.attr(y, c)), ZERO), ite(pc, want[t][k], ZERO), w, 'a second shift changes nothing', known=KN)
        for k, c in ((0, 'rx'), (1, 'ry')):
            rc = S.r(S.attr(v, 'rendering_center'))
            l = as_list(rc)
            if l and len(l) == 2:
                ctx.equal('shift:%s:centre-%s' % (lab, 'xy'[k]), l[k], env[c], w, 'the rendering centre follows the light ray')
        ctx.saw(S)


def lensing(ctx, ci, sub, w):
    """lensing arguments follow the halo whether or not they were read before"""
    for order in (0, 1):
        S = sess()
        h = make(S, ci, sub=sub)
        if order:
            S.attr(h, 'lenstronomy_params')
            if S.prog.lookup(ci, 'lenstronomy_params_split') is not None:
                S.attr(h, 'lenstronomy_params_split')
        par = parent(S, S.py([h]))
        env = dict(R=par, **{x: S.sym(x) for x in SY})
        v = S.expr('R.shift_background_to_source(rx, ry)', env)
        es = entries(S, S.attr(v, 'halos'))
        key = '%s:%s' % (hlabel(ci, sub), 'read' if order else 'fresh')
        if es is None:
            ctx.undetermined(key, w, 'result list not recognised')
            continue
        for c, x in es:
            for y, g in gated(S, x, c):
                with S.under(g):
                    for nm in ('lenstronomy_params', 'lenstronomy_params_split'):
                        if S.prog.lookup(ci, nm) is None:
                            continue
                        for kw, t, g2 in lens_params(S, y, nm):
                            if kw is None:
                                ctx.undetermined('%s:%s' % (key, nm), w, 'keyword arguments not resolved')
                                continue
                            px = position(S, y, ci)
                            for i, d in enumerate(kw):
                                for k, p in zip(('center_x', 'center_y'), px):
                                    if k in d:
                                        ctx.equal('%s:%s:%s%d' % (key, nm, k, i), unround(d[k]), unround(S.r(p)), w,
                                                  'lensing arguments read after the shift are centred on the shifted position', asg=g2)
        ctx.saw(S)


def remembered(ctx, ci, name, fi, isext):
    S = session()
    par0 = parent(S)
    par = S.meth(par0, 'shift_background_to_source', S.sym('rx'), S.sym('ry'))
    obj = S.new(ci, par) if isext else par
    other = S.new(S.prog.cls(RZ), NONE, NONE, NONE, NONE, NONE, NONE, NONE, S.sym('lc2'), halos=S.sym('halos2')) if name == 'join' else None
    args = [other if (name == 'join' and p == fi.params[1]) else FALSE if p == 'join_rendering_classes' else S.sym(p) for p in fi.params[1:]]
    v = S.meth(obj, name, *args)
    judge(ctx, S, v, par, '%s.%s' % (ci.name, name), where_fn(fi))


def judge(ctx, S, v, par, key, w):
    for x in bodyleaves(S, v):
        if x is par or not is_inst(S, x, 'Realization'):
            continue
        try:
            before = S.r(S.attr(x, 'halos'))
            y = S.meth(x, 'shift_background_to_source', S.sym('rx2'), S.sym('ry2'))
        except Exception as e:
            ctx.undetermined(key, w, 'analysis: %s' % e)
            continue
        if y is x:
            ctx.ok(key, w, 'a realization derived from a shifted one is still marked as shifted')
            continue
        after = S.r(S.attr(y, 'halos'))
        ctx.equal(key, after, before, w, 'a realization derived from a shifted one is still marked as shifted')
        if any(u.op == 'sym' and u.args[0] == 'rx2' for u in TM.walk(after)) and not ctx.obs[-1]['status'] == 'violation':
            ctx.obs[-1]['status'] = 'undetermined'
    ctx.saw(S)


def run(ctx):
    P = program()
    rz, ex = P.cls(RZ), P.cls(EX)
    if rz is None or ex is None or P.lookup(rz, 'shift_background_to_source') is None:
        raise Broken('Realization.shift_background_to_source not found')
    w = where_fn(P.lookup(rz, 'shift_background_to_source'))
    ctx.guard('shift', moves, ctx, w)
    for ci in halo_classes():
        if ci.name == 'Hybrid':
            continue       # wraps two other halos; no operation of the library puts one into a realization
        for sub in subs_of(ci):
            ctx.guard(hlabel(ci, sub), lensing, ctx, ci, sub, w)
    for ci, isext in ((rz, False), (ex, True)):
        for name, fi in sorted(P.all_methods(ci).items()):
            if name.startswith('_') or fi.kind in ('property', 'classmethod', 'static', 'staticmethod') or name in ('shift_background_to_source', 'plot'):
                continue
            ctx.guard('%s.%s' % (ci.name, name), remembered, ctx, ci, name, fi, isext)

    def at_z():
        fi = P.func('pyHalo.single_realization:realization_at_z')
        S = session()
        par = S.meth(parent(S), 'shift_background_to_source', S.sym('rx'), S.sym('ry'))
        v = S.call(fi, par, S.sym('z'), S.sym('ax'), S.sym('ay'), S.sym('mr'))
        judge(ctx, S, v, par, 'realization_at_z', where_fn(fi))
    ctx.guard('realization_at_z', at_z)
