"""P19 dark-matter suppression only thins the cold-dark-matter population."""
from .common import *
from .p18 import LAWS, FACT, SPEC, KW, MFB, DP, ARGS, SUPP, cls_, law, w, variates, uniform01, unint
from .p12 import MASSF, anchor, MF

EXPLAIN = ("Every suppressed mass function is constructed on symbolic settings; its sampled masses must be a selection of the term that the cold mass "
           "function draws for the same settings, the selection condition must be 'an independent uniform variate per object is below the suppression "
           "factor at that object's own mass', the density must be the cold density times that factor, and the factor the documented non-decreasing "
           "function bounded by one; the suppression parameters of every named model must have the signs that make it so.")
FLOOR = 20


def unmask(x):
    if x.op == 'idx' and x.args[1].op == 'tup' and len(x.args[1].args) == 1:
        return mk('idx', TM.subst(x.args[0], unmask), TM.subst(x.args[1].args[0], unmask))
    return None


def thinning(ctx, name, S, M, C, env, where):
    m0 = S.r(S.meth(C, 'draw'))
    S.st.rc = {}
    t = S.r(S.meth(M, 'draw'))
    us = [u for u in variates(t) if uniform01(u) is not None]
    first = [u for u in us if not any(v in us for v in variates(uniform01(u)))]
    # several standard uniform variates may share a size that mentions the sample only through its length
    cold = [u for u in first if u in set(TM.walk(m0))]
    if len(cold) != 1:
        return ctx.undetermined(name + '.draw', where, '%d mass variates' % len(cold))
    acc = [u for u in us if u is not cold[0]]
    if not acc:
        rest = [u for u in variates(t) if u is not cold[0] and u.args[0] != 'poisson']
        return ctx.require(name + '.draw:rejection', None if rest or t.op == 'opaque' else False, where, 'no acceptance variate in the sample',
                           'objects are kept with the probability of the suppression factor')
    if len(acc) > 1:
        return ctx.undetermined(name + '.draw', where, '%d acceptance variates' % len(acc))
    acc = acc[0]
    size = unint(uniform01(acc))
    n = unint(uniform01(cold[0]))
    m = m0
    if size is n or any(x is cold[0] for x in TM.walk(uniform01(acc))):
        ctx.ok(name + '.draw:one variate per object', where, 'each object has its own acceptance variate')
    elif TM.length(m0) is size or decide.verdict(size, S.r(S.expr('len(m)', dict(m=m0))))[0] == 'equal':
        ctx.ok(name + '.draw:one variate per object', where, 'each object has its own acceptance variate')
    elif size is NONE or size.op == 'num':
        ctx.violation(name + '.draw:one variate per object', where, 'acceptance variate of size %s' % TM.show(size), 'each object has its own acceptance variate')
    else:
        ctx.undetermined(name + '.draw:one variate per object', where, TM.show(size, 5))
    u, v = S.sym('u'), S.sym('v')
    ex = lambda x: TM.subst(x, lambda y: u if y is cold[0] else v if y is acc else None)
    t, m = ex(t), ex(m)
    # m[(mask,)] is m[mask]
    t = TM.subst(t, lambda x: unmask(x))
    Sm = ex(S.r(S.meth(M, 'turnover', m)))
    e = dict(m=m, v=v, s=Sm)
    alts = []
    for c in ('v < s', 'v <= s', '1 - v < s', '1 - v <= s'):
        alts.append(S.r(S.expr('m[%s]' % c, e)))
        alts.append(S.r(S.expr('m if len(m) == 0 else m[%s]' % c, e)))
    ctx.one_of(name + '.draw', t, alts, where, 'the cold sample of the same settings, each object kept when its own uniform variate is below the suppression at its mass')


def run(ctx):
    for name in LAWS:
        if name == 'CDMPowerLaw':
            continue

        def f(name=name):
            for pois in (True, False):
                S, ci, env, M = law(name, pois=pois)
                C = S.new(cls_(MFB + 'CDMPowerLaw'), *[env[x] for x in ARGS])
                S.st.rc = {}
                thinning(ctx, '%s[poisson=%s]' % (name, pois), S, M, C, env, w(ci, 'draw'))
            env['m'] = S.sym('m')
            tv = S.r(S.meth(M, 'turnover', env['m']))
            ctx.equal(name + '.turnover', tv, S.r(S.expr(SPEC[name], env)), w(ci, 'turnover'), 'suppression factor = ' + SPEC[name])
            ctx.equal(name + '.evaluate', S.r(S.meth(M, 'evaluate', env['m'])), mul(tv, S.r(S.meth(C, 'evaluate', env['m']))), w(ci, 'evaluate'),
                      'density = suppression factor times the cold density of the same settings')
            ctx.saw(S)
        ctx.guard(name, f)

    def factories():
        res = {}
        for name in FACT:
            ci = cls_(DP + name)
            S = Session(Config(opaque=['Geometry.volume_element_comoving', 'Cosmology.h', 'Cosmology.colossus']))
            G = S.sym('G', 'pyHalo.Cosmology.geometry:Geometry')
            env = {x: S.sym(x) for x in ['lo', 'hi', 'norm', 'dslope', 'mp', 'z', 'dz', 'm'] + FACT[name]}
            S.st.assume(TM.lt(env['lo'], env['hi']))
            kw = dict(log_mlow=env['lo'], log_mhigh=env['hi'], draw_poisson=TRUE, LOS_normalization=env['norm'],
                      delta_power_law_index=env['dslope'], m_pivot=env['mp'])
            kw.update({KW[x]: env[x] for x in FACT[name]})
            M = S.I.apply(S.I.get_attr(mk('cls', ci.qual), 'from_redshift', S.st), [env['z'], env['dz'], G, S.py(kw)], [], S.st)
            C = S.I.apply(S.I.get_attr(mk('cls', cls_(DP + 'ShethTormen').qual), 'from_redshift', S.st), [env['z'], env['dz'], G, S.py(kw)], [], S.st)
            where = w(ci, 'from_redshift')
            if name != 'ShethTormen':
                S.st.rc = {}
                thinning(ctx, name, S, M, C, env, where)
                tv = S.r(S.meth(M, 'turnover', env['m']))
                ctx.equal(name + '.evaluate', S.r(S.meth(M, 'evaluate', env['m'])), mul(tv, S.r(S.meth(C, 'evaluate', env['m']))), where,
                          'same normalization, slope and limits as the cold function, times the suppression factor')
                base = dict(ShethTormenTurnover='WDMPowerLaw', ShethTormenMixedWDM='MixedWDMPowerLaw')[name]
                ctx.equal(name + '.turnover', tv, S.r(S.expr(SPEC[base], env)), where, 'suppression factor = ' + SPEC[base])
            ctx.saw(S)
    ctx.guard('line-of-sight variants', factories)

    def named():
        from engine import ri
        fi = anchor(MF)
        for model, (cls, _) in MASSF.items():
            if 'POWER_LAW' in model or 'MIXED' in model:
                continue
            S = Session()
            got = S.call(fi, model, S.py({}))
            g = S.r(got)
            if g.op != 'tup' or len(g.args) != 2:
                ctx.undetermined('named:' + model, where_fn(fi), TM.show(g, 4))
                continue
            kw = S.I.obj(S.st, got.args[1]) if got.args[1].op == 'ref' else None
            d = g.args[1]
            vals = dict(zip(d.args[::2], d.args[1::2])) if d.op == 'dict' else {}
            vals = {(k.args[0] if isinstance(k, TM.T) else k): v for k, v in vals.items()}
            for k, sign in (('a_wdm', 1), ('b_wdm', 1), ('c_wdm', -1)):
                v = vals.get(k)
                key = 'named:%s:%s' % (model, k)
                if v is None or v.op != 'num':
                    ctx.undetermined(key, where_fn(fi), 'value %s' % (v and TM.show(v, 4)))
                else:
                    ctx.require(key, v.args[0] * sign > 0, where_fn(fi), '%s = %s' % (k, v.args[0]), 'the suppression is a non-decreasing function of mass bounded by one')
            ctx.saw(S)
    ctx.guard('named', named)

    def stucker():
        from engine import ri
        """the fitted parameters describe the same suppression function as the sampled one: (1 + a (m50/m)^b)^c"""
        P = program()
        fi = P.func('pyHalo.Rendering.MassFunctions.stucker:stucker_suppression_params')
        if fi is None:
            raise Broken('stucker_suppression_params')
        S = Session()
        g = S.r(S.call(fi, S.sym('s')))
        if g.op == 'ite':
            g = g.args[1]
        roots = {u for u in TM.walk(g) if u.op == 'call' and u.args[0] == 'scipy.optimize.root'}
        if g.op != 'tup' or len(g.args) != 3 or len(roots) != 1:
            return ctx.undetermined('stucker', where_fn(fi), TM.show(g, 4))
        rt = roots.pop()
        x = S.I.get_attr(rt, 'x', S.st)
        y = S.sym('ref')
        fracs = mk('seq', *[mk('item', S.r(S.expr(v, {}))) for v in ('0.2', '0.5', '0.8')])

        def at(p):
            return TM.subst(S.r(mk('tup', *g.args)), lambda u: p if u is x else None)
        fn = S.quad_fn(rt.args[1].args[0])
        key = 'stucker_suppression_params'
        # residual(p) = |log10 scale(p) - log10 target| / tolerance, zero at the returned parameters
        res = S.r(S.I.apply(fn, [y], [], S.st))
        X = {u.args[1].args[0] for u in TM.walk(res) if u.op == 'call' and u.args[0] == 'abs'}
        if len(X) != 1:
            return ctx.undetermined(key, where_fn(fi), 'residual %s' % TM.show(res, 5))
        X = X.pop()
        a, b, c = at(y).args
        want = S.r(S.expr('np.log10(a**(1/b)/(f**(1./c) - 1.)**(1./b))', dict(a=a, b=b, c=c, f=fracs)))
        for t, gg in decide.cases(X, None, [ctx.budget]):
            if any(u.op in ('ext', 'sym', 'const') and 'nan' in str(u.args[0]) for u in TM.walk(t)):
                continue
            one = lambda q: TM.subst(q, lambda u: u.args[1].args[0] if u.op == 'seq' and len(u.args) == 3 and all(i.op == 'item' for i in u.args) else None)
            w_ = decide.simp(want, gg, {})
            good = False
            for d in (sub(t, w_), add(t, w_)):
                d = one(d)
                # the difference must not depend on the parameters; logarithms of negative bases only shift it by i*pi
                v = TM.subst(d, lambda u: S.sym('p%d' % u.args[1].args[0]) if u.op == 'idx' and u.args[0] is y and u.args[1].op == 'num' else None)
                vals = []
                for A, B, C in ((0.3, 1.7, -0.6), (-0.4, 2.3, -1.9), (1.1, 0.8, -3.1)):
                    num_ = TM.subst(v, lambda u: {'p0': S.py(A), 'p1': S.py(B), 'p2': S.py(C), 's': S.py(2.5)}.get(u.args[0])
                                    if u.op == 'sym' else None)
                    if decide.leaves(num_):
                        vals.append(None)
                        continue
                    vals.append(ri.evaluate(num_, 0, {}).real)
                if None in vals:
                    good = None
                    continue
                if max(vals) - min(vals) < 1e-9:
                    good = True
                    break
            ctx.require(key, good, where_fn(fi), 'residual at the returned (a, b, c) minus its meaning depends on the parameters: %s' % TM.show(sub(t, w_), 6)[:300],
                        'the fitted and the sampled suppression are the same function (1 + a x^-b)^c')
        ctx.saw(S)
    ctx.guard('stucker', stucker)
