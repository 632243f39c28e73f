"""P26 infall redshifts and elapsed times."""
from .common import *
from .halos import halo_classes, subs_of, hsession, make
from .p24 import D

EXPLAIN = ("Every infall model is executed abstractly on a symbolic host mass, lens redshift and mass ratio; the law of the drawn redshift is read off the result term (which uniform variate, which quantile function, which "
           "interpolated table), and the values at the ends of the variate, the dependence on the mass ratio only, the limits of the calibrated range and the monotonic dependence are decided on the term. For every halo type, "
           "field and subhalo, the infall redshift, elapsed time, age and effective age are evaluated abstractly and compared with the query to the cosmology that they stand for; the cosmology and lens cosmology functions are "
           "decided on their own arguments.")
ASSUME = ['ndtri is the increasing inverse of ndtr; interpolation tables built from increasing nodes interpolate linearly', 'INFALL_0 places the infall at z = 0 by definition and user-defined models are not constrained']
FLOOR = 60
ACC = 'pyHalo.Halos.accretion:'
LCQ = 'pyHalo.Halos.lens_cosmo:LensCosmo'
COQ = 'pyHalo.Cosmology.cosmology:Cosmology'
KN = ('rnd:uniform', 'call:ndtr', 'call:ndtri', 'call:scipy.special.ndtr', 'call:scipy.special.ndtri', 'call:scipy.stats.norm.cdf', 'call:scipy.stats.norm.ppf', 'call:log')


def inverse(t):
    """ndtri(ndtr(x)) = x"""
    def f(u):
        if u.op == 'call' and u.args[0].split('.')[-1] in ('ndtri', 'ppf') and len(u.args[1].args) == 1:
            a = u.args[1].args[0]
            if a.op == 'call' and a.args[0].split('.')[-1] in ('ndtr', 'cdf') and len(a.args[1].args) == 1:
                return inverse(a.args[1].args[0])
        return None
    return TM.subst(t, f)


def draw(S, model, ratio):
    """z of the model for the mass 10**(logm + ...)"""
    return S.r(S.meth(model, '__call__', ratio))


def models():
    P = program()
    out = []
    for c in sorted(P.all_classes(), key=lambda c: c.qual):
        if c.qual.startswith(ACC) and P.lookup(c, '__call__') is not None and c.name not in ('Infall0',) and not c.name.endswith('Base') and not c.name.startswith('_'):
            out.append(c)
    return out


def build(ci, mass=None, conds=()):
    """(session, value of the draw, environment)"""
    P = program()
    S = Session(Config(arrays=True))
    h, q, zl = S.sym('h'), S.sym('q'), S.sym('zl')
    S.st.assume(TM.lt(ZERO, q))
    S.st.assume(TM.lt(ZERO, zl))
    env = dict(h=h, q=q, zl=zl)
    init = P.lookup(ci, '__init__')
    kw = {}
    for p in init.params[1:]:
        if 'host' in p:
            kw[p] = h if p.startswith('log') else S.expr('10**h', env)
            S.st.assume(TM.lt(num(14), h) if 'Cluster' in ci.name else TM.lt(num(11), h))
            S.st.assume(TM.lt(h, num(15)))
        elif 'z' in p:
            kw[p] = zl
        elif p not in init.defaults:
            kw[p] = S.sym('P_' + p)
    for c in conds:
        S.st.assume(truth_(S.expr(c, env)))
    o = S.new(ci, **kw)
    t = draw(S, o, S.expr(mass or '10**(h - q)', env))
    return S, t, env


def truth_(t):
    return t


def rnds(t):
    return {u for u in TM.walk(t) if u.op == 'rnd'}


INSIDE = ('q < 5', 'q > 0.5', '10**(-q) > 10**-5.0', '10**(-q) < 10**-0.5', '10**(-q) > 10**-5', '1 - 10**5*10**(-q) < 0', '10*10**(-q) - 10**0.5 < 0')


def law(ctx, ci):
    w = where_fn(program().lookup(ci, '__call__'))
    S, t, env = build(ci, conds=INSIDE)
    ctx.saw(S)
    zl, q = env['zl'], env['q']
    name = ci.name
    rs = rnds(t)
    if not rs:
        ctx.equal(name + ':value', t, zl, w, 'without a distribution the infall happens at the lens redshift')
        return
    if len(rs) != 1:
        return ctx.undetermined(name + ':law', w, '%d variates' % len(rs))
    r = rs.pop()
    if r.args[0] != 'uniform' or len(r.args[1].args) < 2:
        return ctx.undetermined(name + ':law', w, 'variate ' + show(r, 4))
    lo, hi = r.args[1].args[:2]
    # tabulated quantile function
    tab = [u for u in TM.walk(t) if u.op == 'meth' and u.args[1] == '__call__' and TM.contains(u, r) and u.args[0].op == 'call' and u.args[0].args[0].split('.')[-1] == 'interp1d']
    if tab:
        u = tab[0]
        x, y = [a for a in u.args[0].args[1].args[:2]]
        for v in (Fraction(1, 10), Fraction(1), Fraction(5)) if TM.contains(y, zl) or TM.contains(x, zl) else ():
            # a table that depends on the lens redshift: its values at some lens redshifts
            x_, y_ = (numbers(simp0(TM.subst(q_, lambda u: num(v) if u is zl else None))) for q_ in (x, y))
            if x_ is None or y_ is None:
                return ctx.undetermined(name + ':table', w, show(u, 4))
            if min(y_) < 0:
                return ctx.violation(name + ':delays', w, 'smallest delay %g at lens redshift %s' % (min(y_), v), 'delays between infall and the lens redshift are not negative')
        xs, ys = numbers(x), numbers(y)
        if xs is None or ys is None:
            return ctx.undetermined(name + ':table', w, show(u, 4))
        rest = TM.subst(t, lambda v: sym('DZ') if v is u else None)
        ctx.equal(name + ':value', rest, add(zl, sym('DZ')), w, 'the tabulated delay is added to the lens redshift')
        ctx.require(name + ':delays', min(ys) >= 0 and all(a <= b for a, b in zip(ys, ys[1:])), w, 'delays %s' % ys[:3], 'delays between infall and the lens redshift are not negative')
        ctx.require(name + ':range', is_num(lo) and is_num(hi) and min(xs) <= val(lo) <= val(hi) <= max(xs) and abs(max(xs) - 1) < 1e-12, w, 'variates between %s and %s, table between %s and %s' % (show(lo), show(hi), min(xs), max(xs)),
                    'the variate covers the table and does not leave it')
        ctx.require(name + ':cumulative', all(a <= b for a, b in zip(xs, xs[1:])) and len(xs) == len(ys), w, 'nodes %s' % xs[:3], 'the quantile function is built from a cumulative distribution')
        return
    V = sym('U')
    at = lambda v: inverse(TM.subst(t, lambda u: v if u is r else None))
    low, high = sub(at(lo), zl), sub(at(hi), zl)
    base = const_of(low)
    ctx.equal(name + ':lower end', low, ZERO if base is None or base < 0 else num(base), w, 'infall redshifts are never below the lens redshift and the smallest is the same for every mass', known=KN)
    top = const_of(high)
    if top is None or top <= (base or 0):
        ctx.violation(name + ':upper end', w, 'largest value - lens redshift = ' + show(high, 7), 'the distribution ends at one redshift above the lens redshift, the same for every mass')
    else:
        ctx.equal(name + ':upper end', high, num(top), w, 'the distribution ends at one redshift above the lens redshift, the same for every mass', known=KN)
    # shape: location and width of the normal law depend on the mass ratio only
    shape = inverse(TM.subst(t, lambda u: mk('call', 'scipy.special.ndtr', mk('args', V), mk('kw')) if u is r else None))
    if any(u.op == 'call' and u.args[0].split('.')[-1] == 'ndtri' for u in TM.walk(shape)):
        return ctx.undetermined(name + ':shape', w, 'not a truncated normal law: ' + show(shape, 5))
    sig = D(shape, V)
    mu = sub(TM.subst(shape, lambda u: ZERO if u is V else None), zl)
    ctx.require(name + ':own mass ratio', not (TM.contains(mu, env['h']) or TM.contains(sig, env['h'])), w, 'mean %s' % show(mu, 6), 'the law depends on the infall mass through its ratio to the host mass')
    ctx.require(name + ':lens redshift', not (TM.contains(mu, zl) or TM.contains(sig, zl)), w, 'mean %s' % show(mu, 6), 'delays are measured from the lens redshift')
    ctx.require(name + ':depends on mass', TM.contains(mu, q), w, 'mean %s' % show(mu, 6), 'the law depends on the infall mass')
    for n, x, strict in (('width', sig, True), ('mean', mu, True)):
        s = sign(S, x, q)
        ctx.require(name + ':' + n, None if s is None else s > 0, w, show(x, 6), 'the %s of the law is positive over the calibrated range' % n)
    for n, x in (('mean', mu), ('width', sig)):
        s = sign(S, D(x, q), q)
        ctx.require(name + ':%s grows towards small masses' % n, None if s is None else s > 0, w, show(x, 6), 'less massive subhalos fall in earlier and over a wider range')


def clipped(ctx, ci):
    """outside the calibrated range the law of its end is used"""
    w = where_fn(program().lookup(ci, '__call__'))
    t0 = build(ci)[1]
    if not rnds(t0) or not any(u.op == 'call' and u.args[0].split('.')[-1] == 'ndtri' for u in TM.walk(t0)):
        return
    for n, end, masses in (('small', 5, ('10**(h - 7)', '10**(h - 6)')), ('large', Fraction(1, 2), ('10**h/2', '10**(h - 0.25)', '10**h'))):
        S, t, env = build(ci, conds=INSIDE)
        want = TM.subst(t, lambda u: num(end) if u is env['q'] else None)
        for m in masses:
            S, t, env = build(ci, mass=m)
            ctx.saw(S)
            if m == masses[0]:
                ctx.require('%s:%s masses' % (ci.name, n), not TM.contains(t, env['h']), w, show(t, 6), 'beyond the calibrated range the law does not depend on the mass')
            ctx.equal('%s:%s masses end at %s: %s' % (ci.name, n, end, m), S.r(t), want, w, 'beyond the calibrated range of mass ratios the law of its end is used', known=KN)


def const_of(t):
    """the number that a term without free choice evaluates to for all values of its symbols, guessed from two of them; the guess is then decided exactly"""
    from engine.ri import evaluate
    v = []
    for seed in (11, 12):
        try:
            x = evaluate(t, seed, {})
        except Exception:
            return None
        x = complex(x)
        if abs(x.imag) > 1e-6 or x.real != x.real:
            return None
        v.append(x.real)
    if abs(v[0] - v[1]) > 1e-6 * (1 + abs(v[0])):
        return None
    return Fraction(v[0]).limit_denominator(10000)


def real(t):
    """value of a closed term"""
    v = TM.closed_value(t)
    return None if v is None else v[0]


def sign(S, t, q):
    """sign of a term in one positive symbol over the calibrated range, by interval subdivision"""
    import math
    lo, hi = 0.5, 5.0

    def iv(u, a, b):
        if u is q:
            return a, b
        if u.op == 'num':
            x = float(u.args[0])
            return x, x
        if u is TM.PI:
            return math.pi, math.pi
        if u.op == 'poly':
            r = [iv(m, a, b) for m in u.args]
            return sum(x[0] for x in r), sum(x[1] for x in r)
        if u.op == 'term':
            c = float(u.args[0])
            r = (c, c)
            for i in range(1, len(u.args), 2):
                r = imul(r, ipow(iv(u.args[i], a, b), iv(u.args[i + 1], a, b)))
            return r
        if u.op == 'call' and u.args[0].split('.')[-1] == 'log':
            x = iv(u.args[1].args[0], a, b)
            return math.log(x[0]), math.log(x[1])
        raise ValueError(u.op)

    def imul(x, y):
        p = [x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]]
        return min(p), max(p)

    def ipow(x, e):
        if e[0] != e[1]:
            raise ValueError('exponent')
        e = e[0]
        if x[0] <= 0:
            if x[1] < 0 and e == int(e):
                p = sorted((x[0] ** int(e), x[1] ** int(e)))
                return p[0], p[1]
            raise ValueError('base')
        p = sorted((x[0] ** e, x[1] ** e))
        return p[0], p[1]

    def go(a, b, d):
        try:
            r = iv(t, a, b)
        except (ValueError, ZeroDivisionError, OverflowError):
            r = None
        if r is not None and r[0] > 0:
            return 1
        if r is not None and r[1] < 0:
            return -1
        if d == 0:
            return None
        m = (a + b) / 2
        x, y = go(a, m, d - 1), go(m, b, d - 1)
        if x == y:
            return x
        return -1 if x == -1 or y == -1 else None
    return go(lo, hi, 10)


def is_num(t):
    return val(t) is not None


def val(t):
    return real(t)


def simp0(t):
    from engine import decide
    return decide.simp(t, {}, {})


def numbers(t):
    if t.op == 'seq' and all(s.op == 'item' for s in t.args):
        v = [real(s.args[0]) for s in t.args]
        return None if any(x is None for x in v) else v
    return None


# ------------------------------------------------------------------------ cosmology
def ages(ctx):
    P = program()
    cc, lc = P.cls(COQ), P.cls(LCQ)
    if cc is None or lc is None:
        raise Broken('Cosmology or LensCosmo not found')
    w = where_fn(P.lookup(cc, 'halo_age'))

    def age(*names):
        S = Session(Config())
        S.I.on_ext = lambda n, a, k, st: ZERO if n == 'numpy.ndim' else None
        C = S.new(cc, S.sym('astropy'))
        for x, y in (('z', 'zm'), ('zm', 'zf'), ('z', 'zf')):
            S.st.assume(TM.lt(S.sym(x), S.sym(y)))
        S.st.assume(TM.lt(ZERO, S.sym('z')))
        S.st.assume(bnot(TM.eq(S.sym('astropy'), NONE)))
        t = S.r(S.meth(C, 'halo_age', *[S.sym(n) if isinstance(n, str) else num(n) for n in names]))
        ctx.saw(S)
        return ite(S.r(band(*S.st.pc)), t, ZERO), t, S
    g, a, S = age('z', 'zf')
    ctx.equal('halo_age at formation', age('zf', 'zf')[0], ZERO, w, 'no time has passed at the formation redshift', known=KN)
    ctx.equal('halo_age adds up', add(age('z', 'zm')[0], age('zm', 'zf')[0]), g, w, 'elapsed times add up: from formation to an intermediate redshift and from there', known=KN)
    ctx.require('halo_age direction', direction(decide_(g, S), S.sym('z')), w, show(a, 6), 'the age grows towards low redshift: it is the age of the universe at z minus that at formation')
    ctx.equal('halo_age before formation', age('zf', 'z')[0], ZERO, w, 'a halo that has not formed has age zero', known=KN)
    ctx.equal('halo_age default', age('z')[0], age('z', 10)[0], w, 'halos form at redshift 10 by default', known=KN)

    w = where_fn(P.lookup(lc, 'sidm_halo_effective_age'))
    S = Session(Config(opaque_classes=['Cosmology']))
    L = S.sym('LC', LCQ)
    z, zi, lam = S.sym('z'), S.sym('zi'), S.sym('lam')
    for x in ((ZERO, z), (z, zi)):
        S.st.assume(TM.lt(*x))
    for n, cond, zi2 in (('', TM.lt(zi, num(10)), zi), (' (infall before formation)', TM.lt(num(10), zi), num(10))):
        with S.under(cond):
            t = S.r(S.meth(L, 'sidm_halo_effective_age', z, zi, lam))
            want = S.r(S.expr('L.cosmo.halo_age(zi, zform=10) + lam*L.cosmo.halo_age(z, zform=zi)', dict(L=L, z=z, zi=zi2, lam=lam)))
            args(ctx, 'effective age' + n, S, ite(cond, t, ZERO), ite(cond, want, ZERO), w, 'time from formation to infall plus lambda_t times the time from infall to the redshift of the halo')
    ctx.saw(S)


def decide_(g, S):
    """the branch of a gated term in which its conditions hold"""
    from engine import decide
    cs = [t for t, c in decide.cases(g, None, [400]) if t is not ZERO]
    return cs[0] if len({t.id for t in cs}) == 1 else None


def direction(a, z):
    """age(z) - age(zform): the term with z enters positively"""
    if a is None:
        return None
    p = TM._poly(a)
    best = None
    for m, c in p.items():
        if any(TM.contains(b, z) for b, e in m):
            if not (len(m) == 1 and m[0][1] is ONE) or best is not None:
                return None
            best = c
    return None if best is None or isinstance(best, T) else best > 0


def canon_age(t, P):
    """halo_age(z, zform): positional arguments, default made explicit, age at formation 0"""
    fi = P.lookup(P.cls(COQ), 'halo_age')

    def f(u):
        if u.op == 'meth' and u.args[1] == 'halo_age':
            pos, kw = list(u.args[2].args), dict(zip([x.args[0] if isinstance(x, T) and x.op == 'const' else x for x in u.args[3].args[0::2]], u.args[3].args[1::2]))
            z = pos[0] if pos else kw.get('z')
            zf = pos[1] if len(pos) > 1 else kw.get('zform', num(10))
            if z is None:
                return None
            if z is zf:
                return ZERO
            return mk('call', 'AGE', mk('args', canon_age(z, P), canon_age(zf, P)), mk('kw'))
        if u.op == 'call' and u.args[0] == 'float' and len(u.args[1].args) == 1:
            return canon_age(u.args[1].args[0], P)
        return None
    return TM.subst(t, f)


def args(ctx, key, S, got, want, w, rule):
    P = program()
    ctx.equal(key, canon_age(got, P), canon_age(want, P), w, rule)


# ------------------------------------------------------------------------ halos
def halos(ctx):
    P = program()
    for ci in halo_classes():
        for sub_ in subs_of(ci):
            lab = ci.name + ('' if sub_ is None else ':subhalo' if sub_ is TRUE else ':field')

            def one(ci=ci, sub_=sub_, lab=lab):
                S = hsession(opaque=['profile_args'])
                h = make(S, ci, sub_)
                ctx.saw(S)
                w = lambda n: where_fn(P.lookup(ci, n))
                e = dict(h=h, z=S.attr(h, 'z'), m=S.attr(h, 'mass'), L=S.attr(h, 'lens_cosmo'))
                issub = truthy(S.r(S.attr(h, 'is_subhalo')))
                if issub is None:
                    return
                args(ctx, lab + ':age', S, S.r(S.attr(h, 'halo_age')), S.r(S.expr('L.cosmo.halo_age(z, zform=10)', e)), w('halo_age'), 'the age of a halo is measured from z = 10 to the redshift of the halo')
                if issub:
                    zi = S.r(S.attr(h, 'z_infall'))
                    zi = unhalo(zi)
                    ctx.one_of(lab + ':infall', zi, [unhalo(S.r(S.expr('L.z_accreted_from_zlens(m)', e)))] + given(zi), w('z_infall'), 'the infall redshift comes from the configured infall model for the mass of this halo')
                    ctx.equal(lab + ':infall again', unhalo(S.r(S.attr(h, 'z_infall'))), zi, w('z_infall'), 'one infall redshift per halo')
                    t = S.r(S.attr(h, 'time_since_infall'))
                    args(ctx, lab + ':time since infall', S, t, S.r(S.expr('L.cosmo.halo_age(z, zform=h.z_infall)', e)), w('time_since_infall'), 'the time since infall is measured from the infall redshift to the redshift of the halo')
                else:
                    ctx.equal(lab + ':time since infall', S.r(S.attr(h, 'time_since_infall')), NONE, w('time_since_infall'), 'field halos have no infall')
                if P.lookup(ci, 'halo_effective_age') is not None and ci.name != 'Hybrid':
                    a = S.expr("h._args['lambda_t']", e)
                    want = S.r(S.expr('L.sidm_halo_effective_age(z, h.z_infall, lam)' if issub else 'L.cosmo.halo_age(z, zform=10)', dict(e, lam=a)))
                    args(ctx, lab + ':effective age', S, S.r(S.attr(h, 'halo_effective_age')), want, w('halo_effective_age'), 'subhalos age with their own infall redshift, field halos since formation')
                # an infall redshift assigned by the user, before or after elapsed times were asked for
                S = hsession(opaque=['profile_args'])
                h = make(S, ci, sub_)
                zn = S.sym('z_new')
                if issub:
                    late = hsession(opaque=['profile_args'])
                    h2 = make(late, ci, sub_)
                    names = [n for n in ('z_infall', 'time_since_infall', 'halo_effective_age') if P.lookup(ci, n) is not None]
                    for n in names:
                        late.attr(h2, n)
                    late.meth(h2, 'set_infall_redshift', zn)
                S.meth(h, 'set_infall_redshift', zn)
                dead = S.st.dead or S.r(band(*S.st.pc)) is FALSE
                if issub:
                    e = dict(h=h, z=S.attr(h, 'z'), L=S.attr(h, 'lens_cosmo'), zn=zn)
                    ctx.equal(lab + ':assigned infall', S.r(S.attr(h, 'z_infall')), zn, w('set_infall_redshift'), 'an assigned infall redshift is used')
                    args(ctx, lab + ':time since assigned infall', S, S.r(S.attr(h, 'time_since_infall')), S.r(S.expr('L.cosmo.halo_age(z, zform=zn)', e)), w('time_since_infall'), 'elapsed time from the assigned infall redshift')
                    for n in names:
                        args(ctx, '%s:%s after an assignment' % (lab, n), S, unhalo(late.r(late.attr(h2, n))), unhalo(S.r(S.attr(h, n))), w('set_infall_redshift'), 'an assigned infall redshift replaces the one that was used before')
                else:
                    ctx.require(lab + ':infall refused', bool(dead), w('set_infall_redshift'), 'accepted', 'a field halo refuses to be assigned an infall redshift')
            ctx.guard(lab, one)


def unhalo(t):
    """draws are identified by the query and its arguments"""
    return TM.subst(t, lambda u: mk('rnd', 'draw', mk('args', *u.args[1].args[:1]), *u.args[2:]) if u.op == 'rnd' and u.args[0] == 'draw' else None)


def given(t):
    """an infall redshift that comes with the parameters of the halo"""
    from engine import decide
    out = []
    for v, g in decide.cases(t, None, [400]):
        if 'z_infall' in {u.args[0] for u in TM.walk(v) if u.op == 'const'} and not any(u.op in ('rnd', 'call') for u in TM.walk(v)):
            out.append(v)
    return out


def truthy(t):
    return True if t is TRUE else False if t is FALSE else None


def configured(ctx):
    """the configured model is asked with the given mass"""
    P = program()
    lc = P.cls(LCQ)
    w = where_fn(P.lookup(lc, 'z_accreted_from_zlens'))
    S = Session(Config(opaque_classes=['Cosmology', 'NFWParampyHalo']))
    fn = S.sym('model')
    S.st.assume(bnot(TM.eq(fn, NONE)))
    L = S.new(lc, S.sym('zl'), S.sym('zs'), S.sym('C', COQ), fn, S.py({}))
    m = S.sym('m')
    t = S.r(S.meth(L, 'z_accreted_from_zlens', m))
    mine = [u for u in TM.walk(t) if u.op in ('call', 'meth') and u.args and TM.contains(u, fn) and TM.contains(u, m)]
    ctx.require('configured model', bool(mine) and not [u for u in TM.walk(t) if u.op == 'new'], w, show(t, 6), 'the infall redshift is drawn from the configured model with the mass of the subhalo')
    ctx.saw(S)


def run(ctx):
    for ci in models():
        ctx.guard(ci.name, law, ctx, ci)
        ctx.guard(ci.name, clipped, ctx, ci)
    ctx.guard('ages', ages, ctx)
    ctx.guard('configured', configured, ctx)
    halos(ctx)
