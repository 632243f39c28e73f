"""P08 lensing output lists are parallel and complete."""
from .common import *
from .halos import *
from .p01 import parent, session, assume_centre, RZ
from .sheets import *

EXPLAIN = ("Realization.lensing_quantities is evaluated on a symbolic realization; the three returned lists are compared, as list terms over "
           "an unknown number of halos and lens planes, with the concatenation of the lists of every halo followed by one entry per mass "
           "sheet; every halo type is evaluated to show that it contributes as many names as keyword sets.")
ASSUME = ['halo objects of a realization obey the halo interface']
FLOOR = 40


def run(ctx):
    P = program()
    rz = P.cls(RZ)
    fi = P.lookup(rz, 'lensing_quantities')
    if fi is None:
        raise Broken('Realization.lensing_quantities not found')
    w = where_fn(fi)

    def plain(flag):
        S = session()
        par = parent(S)
        if flag == 'off':
            S.I.set_attr(par, 'apply_mass_sheet_correction', FALSE, S.st, None)
        out = S.meth(par, 'lensing_quantities', *([FALSE] if flag == 'no' else []))
        env = dict(halos=S.sym('halos'))
        spec = ('[n for h in halos for n in h.lenstronomy_ID]', '[h.z for h in halos for n in h.lenstronomy_ID]', '[k for h in halos for k in h.lenstronomy_params[0]]')
        for i, (nm, e) in enumerate(zip(('names', 'redshifts', 'kwargs'), spec)):
            got = S.r(S.I.get_item(out, num(i), S.st))
            ctx.equal('halos:%s:%s' % (flag, nm), got, S.r(S.expr(e, env)), w, nm + ' are those of the halos, in order', asg=assume_centre())
        ctx.saw(S)
    for flag in ('no', 'off'):
        ctx.guard('halos:' + flag, plain, flag)

    def two(flag):
        """a short concrete list of halos: the entries of one halo stay together"""
        S = session()
        par = parent(S, S.py([S.sym('h0'), S.sym('h1')]))
        for k in (0, 1):
            h = S.sym('h%d' % k)
            S.I.set_attr(h, 'lenstronomy_ID', S.py([S.sym('n%da' % k), S.sym('n%db' % k)][:2 - k]), S.st, None)
            S.I.set_attr(h, 'lenstronomy_params', S.py((S.py([S.sym('k%da' % k), S.sym('k%db' % k)][:2 - k]), None)), S.st, None)
        out = S.meth(par, 'lensing_quantities', FALSE)
        for i, e in enumerate(('[n0a, n0b, n1a]', '[h0.z, h0.z, h1.z]', '[k0a, k0b, k1a]')):
            env = {k: S.sym(k) for k in ('n0a', 'n0b', 'n1a', 'h0', 'h1', 'k0a', 'k0b', 'k1a')}
            ctx.equal('twohalos:%d' % i, S.r(S.I.get_item(out, num(i), S.st)), S.r(S.expr(e, env)), w, 'entries of a halo stay together in order', asg=assume_centre())
    ctx.guard('twohalos', two, 0)

    def sheets(kind, halos):
        S = session()
        par = parent(S, S.py([]) if not halos else 'halos')
        if kind != 'exact':
            rc = rclasses(S, kind)
            S.I.set_attr(par, 'rendering_classes', S.py(rc), S.st, None)
        S.I.set_attr(par, 'apply_mass_sheet_correction', TRUE, S.st, None)
        kw = {'kwargs_mass_sheet': {'subtract_exact_sheets': True}} if kind == 'exact' else {}
        out = S.meth(par, 'lensing_quantities', **kw)
        names, zs, kws = [as_seq(S.r(S.I.get_item(out, num(i), S.st))) for i in range(3)]
        if not halos:
            a, b, c = shape(names), shape(zs), shape(kws)
            ctx.equal('sheets:%s:names~redshifts' % kind, a, b, w, 'one name and one redshift per sheet')
            ctx.equal('sheets:%s:kwargs~redshifts' % kind, c, b, w, 'one keyword set and one redshift per sheet')
            if kind != 'exact':
                ns, kk, zz = [], [], []
                for r in rc:
                    o = S.meth(r, 'convergence_sheet_correction', *[S.py(x) for x in sheet_defaults(S, r)])
                    kk.append(S.I.get_item(o, num(0), S.st))
                    ns.append(S.I.get_item(o, num(1), S.st))
                    zz.append(S.I.get_item(o, num(2), S.st))
                for nm, got, parts in (('names', names, ns), ('redshifts', zs, zz)):
                    ctx.equal('sheets:%s:%s' % (kind, nm), got, S.r(S.expr('+'.join('p%d' % i for i in range(len(parts))) or '[]', {'p%d' % i: x for i, x in enumerate(parts)})), w,
                              'the sheets of each population appear once, in order')
        else:
            S2 = session()
            p2 = parent(S2)
            o2 = S2.meth(p2, 'lensing_quantities', FALSE)
            for i, (nm, got) in enumerate((('names', names), ('redshifts', zs), ('kwargs', kws))):
                pre = as_seq(S2.r(S2.I.get_item(o2, num(i), S2.st)))
                n = len(pre.args)
                ctx.equal('sheets:%s:prefix:%s' % (kind, nm), mk('seq', *as_seq(got).args[:n]), pre, w, 'halo entries come first and are unchanged', asg=assume_centre())
        ctx.saw(S)
    for kind in ('sub+los', 'los+sub', 'none+los', 'two', 'nosheet', 'exact'):
        for h in (False, True):
            ctx.guard('sheets:%s:%s' % (kind, h), sheets, kind, h)

    def noclass():
        S = session()
        par = parent(S)
        S.I.set_attr(par, 'rendering_classes', NONE, S.st, None)
        S.I.set_attr(par, 'apply_mass_sheet_correction', TRUE, S.st, None)
        S.meth(par, 'lensing_quantities')
        pc = band(*S.st.pc)
        ctx.require('sheets:none', S.st.dead or decide.verdict(pc, FALSE)[0] == 'equal', w, 'returned although no rendering classes are known', 'requesting sheets without rendering classes is an error')
    ctx.guard('sheets:none', noclass)

    for ci in halo_classes():
        for sub in subs_of(ci):
            def per(ci=ci, sub=sub):
                S = hsession(draws=())
                h = make(S, ci, sub=sub)
                names = S.r(S.attr(h, 'lenstronomy_ID'))
                pr = S.r(S.attr(h, 'lenstronomy_params'))
                kw = S.r(S.I.get_item(pr, ZERO, S.st))
                ctx.equal('type:%s:count' % hlabel(ci, sub), shape(as_seq(names)), shape(as_seq(kw)), where_fn(P.lookup(ci, 'lenstronomy_params')), 'as many lens model names as keyword sets')
            ctx.guard('type:' + hlabel(ci, sub), per)
