"""P22 concentrations are floored, and scattered only when requested."""
from .common import *
from .p15 import seqs
from .p20 import unify

EXPLAIN = ("Every concentration-mass relation is constructed with symbolic settings and nfw_concentration evaluated for one mass and for an array of masses, with "
           "and without scatter; the value must be max(relation, minimum) with the relation evaluated at the requested mass and redshift, times "
           "exp(width x one standard normal variate per mass) exactly when scatter is on. Tabulated relations must reproduce every bilinear table exactly "
           "and be filled with the relation itself. Warm dark matter relations must equal the cold relation of the same settings times the documented suppression.")
ASSUME = ['colossus concentration and peakHeight are deterministic functions of their arguments']
FLOOR = 30
C = 'pyHalo.Halos.concentration:'
COL = 'colossus.halo.concentration.concentration'
MIN = '1.2'


class Rig:
    """numeric symbols are floats, literal arrays are arrays; external relations act per element"""

    def __init__(self, opaque=()):
        self.S = S = Session(Config(arrays=True, opaque=list(opaque)))
        S.I.on_ext = self.on_ext
        self.n = 0

    def arr(self, xs):
        return self.S.expr('np.array(l)', {'l': self.S.py(list(xs))})

    def isarr(self, v, st):
        v = self.S.I.simplify_value(v, st)
        if v.op == 'ref':
            return self.S.I.obj(st, v).kind == 'list'
        return v.op in ('seq', 'arr')

    def on_ext(self, name, args, kwargs, st):
        S, I = self.S, self.S.I
        n = name.split('.')[-1]
        if n == 'isinstance' and len(args) == 2:
            ts = [t.args[0].split('.')[-1] for t in (args[1].args if args[1].op == 'tup' else [args[1]]) if t.op == 'ext']
            v = I.simplify_value(args[0], st)
            if v.op in ('const', 'inst', 'cls', 'fn', 'lam', 'tup') or (v.op == 'ref' and I.obj(st, v).kind != 'list') or not ts:
                return None
            if self.isarr(v, st):
                return TRUE if 'ndarray' in ts else FALSE
            return TRUE if 'float' in ts else FALSE
        if name in ('numpy.asarray', 'numpy.array', 'numpy.atleast_1d') and args:
            v = I.simplify_value(args[0], st)
            if v.op in ('sym', 'num', 'poly', 'term') or v.op == 'call' and v.args[0] == 'pow':
                if name != 'numpy.atleast_1d':
                    return v
                saved, S.st = S.st, st
                try:
                    return self.arr([v])
                finally:
                    S.st = saved
        if name == COL or n == 'peakHeight':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            if star is None:
                names = ('M', 'mdef', 'z', 'model') if name == COL else ('M', 'z')
                d = dict(zip(names, pos), **kw)
                if self.isarr(d.get('M', NONE), st):
                    es = seqs(I.reify(d['M'], st))
                    zz = seqs(I.reify(d['z'], st)) if 'z' in d and self.isarr(d['z'], st) else None
                    if es is None:
                        return None
                    saved, S.st = S.st, st
                    try:
                        return self.arr([self.fn(n, dict(d, M=e, **({'z': zz[i]} if zz else {})), st) for i, e in enumerate(es)])
                    finally:
                        S.st = saved
                return self.fn(n, d, st)
        if name == 'numpy.random.lognormal' and len(args) + len(kwargs) in (2, 3):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('mean', 'sigma', 'size'), pos), **kw)
            mu, s = d.get('mean', ZERO), I.reify(d.get('sigma', ONE), st)

            def one(m, s=s):
                self.n += 1
                return mul(mk('call', 'exp', mk('args', m), mk('kw')), mk('call', 'exp', mk('args', mul(s, S.sym('N%d' % self.n))), mk('kw')))
            saved, S.st = S.st, st
            try:
                if self.isarr(mu, st):
                    es = seqs(I.reify(mu, st))
                    return None if es is None else self.arr([one(e) for e in es])
                if 'size' in d and d['size'] is not NONE:
                    return None
                return one(I.reify(mu, st))
            finally:
                S.st = saved
        return None

    def fn(self, n, d, st):
        flat = []
        for k in sorted(d):
            flat += [k, self.S.I.reify(d[k], st)]
        return mk('call', n, mk('args'), mk('kw', *flat))


def explog(t):
    """exp(a + k log x) = x^k exp(a)"""
    def f(u):
        if not (u.op == 'call' and u.args[0] == 'exp' and u.args[1].args):
            return None
        a = u.args[1].args[0]
        p = TM._poly(a)
        rest, out = ZERO, ONE
        for m, c in p.items():
            logs = [(b, e) for b, e in m if b.op == 'call' and b.args[0] == 'log']
            term = TM.mk('num', c) if not isinstance(c, TM.T) else c
            if len(logs) == 1 and logs[0][1] is ONE:
                for b, e in m:
                    if b is not logs[0][0]:
                        term = mul(term, TM.power(b, e))
                out = mul(out, TM.power(logs[0][0].args[1].args[0], term))
            else:
                for b, e in m:
                    term = mul(term, TM.power(b, e))
                rest = add(rest, term)
        if out is ONE:
            return None
        return out if rest is ZERO else mul(out, mk('call', 'exp', mk('args', rest), mk('kw')))
    return TM.subst(t, f)


def floor(S, t):
    return S.r(S.expr('max(c, %s)' % MIN, {'c': t}))


def cls_(n):
    ci = program().cls(C + n)
    if ci is None:
        raise Broken('concentration class %s not found' % n)
    return ci


def w(ci, n='nfw_concentration'):
    fi = program().lookup(ci, n)
    if fi is None:
        raise Broken('%s.%s not found' % (ci.name, n))
    return where_fn(fi)


# name -> (settings, relation as a specification expression of m, z)
def specs():
    con = 'COL(M=m*cosmo.h, mdef=%s, model=%s, z=z)'
    return {
        'ConcentrationDiemerJoyce': (dict(use_interpolation_table=False, mdef='$md'), lambda S, R, m, z: R.fn('concentration', {'M': S.r(S.expr('m*cosmo.h', dict(m=m, cosmo=S.sym('cosmo')))), 'mdef': S.sym('md'), 'model': const('diemer19'), 'z': z}, S.st)),
        'ConcentrationLudlow': (dict(use_interpolation_table=False, mdef='$md'), lambda S, R, m, z: R.fn('concentration', {'M': S.r(S.expr('m*cosmo.h', dict(m=m, cosmo=S.sym('cosmo')))), 'mdef': S.sym('md'), 'model': const('ludlow16'), 'z': z}, S.st)),
        'ConcentrationPeakHeight': (dict(c0='$c0', zeta='$zeta', beta='$beta', m_pivot='$mp'), lambda S, R, m, z: peak(S, R, m, z)),
        'ConcentrationPeakHeight:RHO_CRIT': (dict(c0='$c0', zeta='$zeta', beta='$beta', m_pivot='$mp', redshift_evolution='RHO_CRIT'), lambda S, R, m, z: peak(S, R, m, z, evo='RHO_CRIT')),
    }


def peak(S, R, m, z, evo='PEAK_HEIGHT', c0='c0', zeta='zeta', beta='beta', mp=None):
    nu = lambda mm, zz: R.fn('peakHeight', {'M': S.r(S.expr('m*cosmo.h', dict(m=mm, cosmo=S.sym('cosmo')))), 'z': zz}, S.st)
    mp = mp if mp is not None else S.sym('mp')
    env = dict(c0=S.sym(c0), zeta=S.sym(zeta), beta=S.sym(beta), nu=nu(m, z), nur=nu(mp, z), nu0=nu(m, ZERO), cosmo=S.sym('cosmo'), z=z)
    f = 'nu0/nu' if evo == 'PEAK_HEIGHT' else 'cosmo.critical_density(z).value/cosmo.critical_density(0.0).value'
    return S.r(S.expr('c0*(nu/nur)**(-beta)*(%s)**zeta' % f, env))


def build(S, name, kw, **over):
    d = {k: (S.sym(v[1:]) if isinstance(v, str) and v.startswith('$') else v) for k, v in kw.items()}
    d.update(over)
    return S.new(cls_(name), S.sym('cosmo'), **d)


def variate(ctx, key, S, val, rel, where, sd):
    """val = rel * exp(width * N)"""
    val = explog(val)
    ns = [u for u in decide.leaves(val) if u.op == 'sym' and str(u.args[0])[0] == 'N' and str(u.args[0])[1:].isdigit()]
    if len(ns) != 1:
        ctx.require(key + ':scatter', False if not ns else None, where, '%d variates in %s' % (len(ns), TM.show(val, 5)), 'one variate per halo')
        return None
    e = mul(rel, mk('call', 'exp', mk('args', mul(sd, ns[0])), mk('kw')))
    ctx.equal(key + ':scatter', val, floor(S, e), where, 'log-normal scatter of the configured width around the relation, never below the minimum')
    return ns[0]


def cdm(ctx):
    for full, (kw, rel) in specs().items():
        name = full.split(':')[0]

        def one(full=full, name=name, kw=kw, rel=rel):
            ci = cls_(name)
            wh = w(ci)
            for form in ('one', 'array'):
                for scatter, force in ((False, False), (True, False), (True, True)):
                    R = Rig()
                    S = R.S
                    r = build(S, name, kw, scatter=scatter, scatter_dex=S.sym('sd'))
                    key = '%s:%s:%s' % (full, form, 'plain' if not scatter else 'median' if force else 'scatter')
                    z = S.sym('z')
                    ms = [S.sym('m')] if form == 'one' else [S.sym('m1'), S.sym('m2')]
                    out = S.r(S.meth(r, 'nfw_concentration', ms[0] if form == 'one' else R.arr(ms), z, **({'force_no_scatter': True} if force else {})))
                    vals = [out] if form == 'one' else seqs(out)
                    if vals is None:
                        ctx.undetermined(key, wh, TM.show(out, 6))
                        continue
                    if len(vals) != len(ms):
                        ctx.violation(key, wh, '%d values for %d masses' % (len(vals), len(ms)), 'one concentration per mass')
                        continue
                    used = []
                    for i, (v, m) in enumerate(zip(vals, ms)):
                        k = key if form == 'one' else '%s[%d]' % (key, i)
                        c = rel(S, R, m, z)
                        if scatter and not force:
                            used.append(variate(ctx, k, S, v, c, wh, S.sym('sd')))
                        else:
                            if any(u.op == 'sym' and str(u.args[0])[0] == 'N' and str(u.args[0])[1:].isdigit() for u in TM.walk(v)):
                                ctx.violation(k, wh, 'scatter although not requested: ' + TM.show(v, 5), 'scatter only when requested')
                                continue
                            ctx.equal(k, explog(v), floor(S, c), wh, 'the relation at the requested mass and redshift, never below the minimum')
                    if len(used) > 1 and None not in used:
                        ctx.require(key + ':independent', len(set(used)) == len(used), wh, 'one variate shared by several halos', 'independent scatter')
                    ctx.saw(S)
            # default: scatter with the documented width
            R = Rig()
            S = R.S
            r = build(S, name, kw)
            variate(ctx, full + ':default', S, S.r(S.meth(r, 'nfw_concentration', S.sym('m'), S.sym('z'))), rel(S, R, S.sym('m'), S.sym('z')), wh, S.r(S.expr('0.2', {})))
        ctx.guard(full, one)

    def constant():
        ci = cls_('ConcentrationConstant')
        R = Rig()
        S = R.S
        r = S.new(ci, S.sym('cosmo'), S.sym('c'))
        ctx.equal('ConcentrationConstant', S.r(S.meth(r, 'nfw_concentration', S.sym('m'), S.sym('z'))), S.sym('c'), w(ci), 'the constant')
    ctx.guard('constant', constant)

    def zdep():
        base = program().mro(cls_('ConcentrationDiemerJoyce'))
        b = [c for c in base if 'scatter_dex_z_dep' in (program().lookup(c, '__init__').params if program().lookup(c, '__init__') else [])]
        if not b:
            return ctx.undetermined('scatter:z', '', 'no redshift dependent scatter')
        R = Rig()
        S = R.S
        S.I.on_call = lambda fi, args, kwargs, st, node: S.sym('rel') if fi.name == '_evaluate_concentration' else None
        r = S.new(b[0], S.sym('cosmo'), True, S.sym('sd'), S.sym('dd'))
        variate(ctx, 'scatter:z', S, S.r(S.meth(r, 'nfw_concentration', S.sym('m'), S.sym('z'))), S.sym('rel'), w(b[0]), S.r(S.expr('sd+dd*z', dict(sd=S.sym('sd'), dd=S.sym('dd'), z=S.sym('z')))))
    ctx.guard('zdep', zdep)


def table(ctx):
    """the interpolation table of the tabulated relations"""
    for name, model in (('ConcentrationDiemerJoyce', 'diemer19'), ('ConcentrationLudlow', 'ludlow16')):
        ctx.guard(name + ':filled', filled, ctx, name, model)
        ctx.guard(name + ':read', bilinear, ctx, name)
        ctx.guard(name + ':range', covered, ctx, name)
        ctx.guard(name + ':cells', cells, ctx, name)


class TRig(Rig):
    def on_ext(self, name, args, kwargs, st):
        S = self.S
        saved, S.st = S.st, st
        try:
            if name == 'numpy.linspace' and len(args) == 3:
                k = len(self.grids)
                g = [S.sym('g%d_%d' % (k, i)) for i in range(4)]
                self.grids.append(([S.I.reify(a, st) for a in args], g))
                return self.arr(g)
            if name in ('numpy.empty', 'numpy.zeros', 'numpy.ones') and args and S.I.reify(args[0], st) is mk('tup', num(4), num(4)):
                return self.arr([self.arr([S.sym('e')] * 4) for _ in range(4)])
        finally:
            S.st = saved
        return Rig.on_ext(self, name, args, kwargs, st)


def filled(ctx, name, model):
    ci = cls_(name)
    fi = program().lookup(ci, '_build_table')
    if fi is None or len(fi.params) != 5:
        return ctx.undetermined(name + ':table', w(ci), 'no table builder')
    wh = where_fn(fi)
    R = TRig()
    R.grids = []
    S = R.S
    r = S.new(ci, S.sym('cosmo'), scatter=False, mdef=S.sym('md'))
    for a in ('_table_n_per_dex_m', '_table_n_per_dex_zp1'):
        S.I.set_attr(r, a, ZERO, S.st, None)
    S.meth(r, '_build_table', S.sym('l0'), S.sym('l1'), S.sym('u0'), S.sym('u1'))
    t = S.r(S.attr(r, '_table'))
    if t.op != 'tup' or len(t.args) != 3 or len(R.grids) != 2:
        return ctx.undetermined(name + ':table', wh, TM.show(t, 5))
    g = [seqs(x) for x in t.args[:2]]
    rows = seqs(t.args[2])
    rows = [seqs(x) for x in rows] if rows else None
    if not rows or None in rows or None in g or any(len(x) != len(g[1]) for x in rows) or len(rows) != len(g[0]):
        return ctx.undetermined(name + ':table', wh, TM.show(t.args[2], 7))
    for gr, lim in zip(g, (('l0', 'l1'), ('u0', 'u1'))):
        for (a, e) in R.grids:
            if e == gr:
                ctx.equal('%s:grid %s' % (name, lim[0]), a[0], S.sym(lim[0]), wh, 'the grid spans the requested range')
                ctx.equal('%s:grid %s' % (name, lim[1]), a[1], S.sym(lim[1]), wh, 'the grid spans the requested range')
    for i, x in enumerate(g[0]):
        for j, y in enumerate(g[1]):
            c = R.fn('concentration', {'M': S.r(S.expr('10**x*cosmo.h', dict(x=x, cosmo=S.sym('cosmo')))), 'mdef': S.sym('md'), 'model': const(model), 'z': S.r(S.expr('10**y-1', dict(y=y)))}, S.st)
            ctx.equal('%s:cell[%d,%d]' % (name, i, j), rows[i][j], S.r(S.expr('np.log10(c)', dict(c=c))), wh, 'the table holds the relation at the mass and redshift of the node')
    ctx.saw(S)


class CRig(Rig):
    """log10 of the mass and of 1 + z are known numbers"""
    logs = {}

    def on_ext(self, name, args, kwargs, st):
        n = name.split('.')[-1]
        I = self.S.I
        if n == 'log10' and len(args) == 1:
            v = I.simplify_value(args[0], st)
            if self.isarr(v, st):
                es = seqs(I.reify(v, st))
                if es is not None:
                    saved, self.S.st = self.S.st, st
                    try:
                        return self.arr([self.logs.get(e) or mk('call', 'log10', mk('args', e), mk('kw')) for e in es])
                    finally:
                        self.S.st = saved
            else:
                return self.logs.get(I.reify(v, st))
        return Rig.on_ext(self, name, args, kwargs, st)


def cells(ctx, name):
    """each cell interpolates between its own four corners, up to the edges of the table"""
    from fractions import Fraction as F
    ci = cls_(name)
    wh = w(ci)
    gm, gu = [4, 6, 8, 10], [0, F(1, 2), 1]
    pts = [(F(9, 2), F(1, 8)), (F(31, 4), F(7, 16)), (F(13, 2), F(3, 4)), (F(10), F(1)), (F(4), F(0)), (F(8), F(1, 2)), (F(19, 2), F(1, 8))]
    ev = program().lookup(ci, '_evaluate_concentration')
    forms = ['one', 'array', 'first'] + (['direct'] if ev is not None else [])
    for form in forms:
        for px, py in pts:
            R = CRig()
            S = R.S
            m, m2, z = S.sym('m'), S.sym('m2'), S.sym('z')
            R.logs = {m: num(px), m2: num(F(5)), S.r(S.expr('1.0+z', dict(z=z))): num(py)}
            tab = R.arr([R.arr([S.sym('t%d_%d' % (i, j)) for j in range(len(gu))]) for i in range(len(gm))])
            table_ = mk('tup', R.arr([num(F(g)) for g in gm]), R.arr([num(F(g)) for g in gu]), tab)
            r = S.new(ci, S.sym('cosmo'), scatter=False)

            def hook(f, args, kwargs, st, node):
                if f.name != '_build_table':
                    return None
                env = S.I.bind(f, args, kwargs, st, node)
                S.I.set_attr(env[f.params[0]], '_table', table_, st, None)
                return NONE
            S.I.on_call = hook
            if form != 'first':
                S.I.set_attr(r, '_table', table_, S.st, None)
            if form == 'direct':
                out = S.r(S.meth(r, '_evaluate_concentration', R.arr([m, m2]), z))
            else:
                out = S.r(S.meth(r, 'nfw_concentration', R.arr([m, m2]) if form == 'array' else m, z))
            if form in ('array', 'direct'):
                es = seqs(out)
                key = '%s:cell:%s:(%g,%g)' % (name, form, px, py)
                if es is None or len(es) != 2:
                    ctx.undetermined(key, wh, TM.show(out, 6))
                    continue
                vals = [(px, es[0]), (F(5), es[1])]
            else:
                vals = [(px, out)]
            for X, v in vals:
                i = max(k for k in range(len(gm) - 1) if gm[k] <= X)
                j = max(k for k in range(len(gu) - 1) if gu[k] <= py)
                tm, tu = (X - gm[i]) / F(gm[i + 1] - gm[i]), (py - gu[j]) / F(gu[j + 1] - gu[j])
                t = add(*[mul(num(a * b), S.sym('t%d_%d' % (i + p, j + q))) for p, a in ((0, 1 - tm), (1, tm)) for q, b in ((0, 1 - tu), (1, tu))])
                e = S.r(S.expr('10**t', dict(t=t)))
                ctx.equal('%s:cell:%s:(%g,%g)' % (name, form, X, py), v, e if form == 'direct' else floor(S, e), wh, 'values inside a cell are interpolated between its four corners')
            ctx.saw(S)


def implied(known, c):
    for k in known:
        c = ite(k, c, TRUE)
    return c


def covered(ctx, name):
    """a mass or redshift outside the table makes it grow around the request; what was covered stays covered"""
    ci = cls_(name)
    fi = program().lookup(ci, '_build_table')
    if fi is None or len(fi.params) != 5:
        return ctx.undetermined(name + ':range', w(ci), 'no table builder')
    wh = w(ci)
    inside = {'m low': 'gm[0]<x', 'm high': 'x<gm[-1]', 'z low': 'gu[0]<y', 'z high': 'y<gu[-1]'}
    forms = ['one', 'array'] + (['pair', 'riap'] if program().lookup(ci, '_evaluate_concentration') is not None else [])
    for form in forms:
        for out in [None] + sorted(inside):
            R = Rig()
            S = R.S
            got = []

            def hook(f, args, kwargs, st, node):
                if f.name != '_build_table':
                    return None
                env = S.I.bind(f, args, kwargs, st, node)
                got.append([S.I.reify(env[p], st) for p in f.params[1:]])
                S.I.set_attr(env[f.params[0]], '_table', mk('tup', S.sym('hm'), S.sym('hu'), S.sym('htab')), st, None)
                return NONE
            S.I.on_call = hook
            r = S.new(ci, S.sym('cosmo'), scatter=False)
            gm, gu, tab = (S.sym(q) for q in ('gm', 'gu', 'tab'))
            x, y = S.sym('X'), S.sym('Y')
            m, z = S.r(S.expr('10**x', dict(x=x))), S.r(S.expr('10**y - 1', dict(y=y)))
            env = dict(gm=gm, gu=gu, x=x, y=y)
            S.st.assume(S.r(S.expr('y>0', env)))
            if out:
                S.I.set_attr(r, '_table', mk('tup', gm, gu, tab), S.st, None)
                for k, e in inside.items():
                    S.st.assume(S.r(S.expr(e if k != out else e.replace('<', '>'), env)))
                for e in ('gm[0]<gm[-1]', 'gu[0]<gu[-1]', 'gu[0]>0'):
                    S.st.assume(S.r(S.expr(e, env)))
            known = [c for c in S.st.pc]
            if form in ('pair', 'riap'):
                # a second mass, well inside
                x2 = S.sym('X2')
                for e in ('x2 < gm[-1]', 'x2 > gm[0]') if out else ():
                    S.st.assume(S.r(S.expr(e, dict(env, x2=x2))))
                known = [c for c in S.st.pc]
                m2 = S.r(S.expr('10**x', dict(x=x2)))
                S.meth(r, '_evaluate_concentration', R.arr([m, m2] if form == 'pair' else [m2, m]), z)
            else:
                S.meth(r, 'nfw_concentration', m if form == 'one' else R.arr([m]), z)
            key = '%s:range:%s:%s' % (name, form, out or 'first')
            if len(got) != 1:
                ctx.require(key, False if not got else None, wh, '%d tables built' % len(got), 'a request outside the table builds one around it')
                continue
            lo, hi, ulo, uhi = got[0]
            new = mk('tup', S.sym('hm'), S.sym('hu'), S.sym('htab'))
            t = S.r(S.attr(r, '_table'))
            for k in known:
                t = ite(k, t, new)
            ctx.equal(key, t, new, wh, 'a request outside the table builds one around it')
            names = {'lo': lo, 'hi': hi, 'ulo': ulo, 'uhi': uhi}
            for e in ('lo<=x', 'hi>=x', 'ulo<=y', 'uhi>=y') + (('lo<=gm[0]', 'hi>=gm[-1]', 'ulo<=gu[0]', 'uhi>=gu[-1]') if out else ()):
                ctx.equal('%s:%s' % (key, e), implied(known, S.r(S.expr(e, dict(env, **names)))), TRUE, wh, 'the table spans every mass and redshift requested so far')
            ctx.saw(S)


def bilinear(ctx, name):
    """a table that is bilinear in its coordinates is reproduced exactly"""
    ci = cls_(name)
    wh = w(ci)
    for form in ('one', 'array'):
        R = Rig()
        S = R.S
        r = S.new(ci, S.sym('cosmo'), scatter=False)
        gm, gu, tab = (S.sym(x) for x in ('gm', 'gu', 'tab'))
        S.I.set_attr(r, '_table', mk('tup', gm, gu, tab), S.st, None)
        x, y = S.r(S.expr('np.log10(m)', dict(m=S.sym('m')))), S.r(S.expr('np.log10(1.0+z)', dict(z=S.sym('z'))))
        inside = [('gm[0]<=x', TRUE), ('x<=gm[-1]', TRUE), ('gu[0]<=y', TRUE), ('y<=gu[-1]', TRUE)]
        for e, _ in inside:
            S.st.assume(S.r(S.expr(e, dict(gm=gm, gu=gu, x=x, y=y))))
        out = S.r(S.meth(r, 'nfw_concentration', S.sym('m') if form == 'one' else R.arr([S.sym('m')]), S.sym('z')))
        if form == 'array':
            es = seqs(out)
            if es is None or len(es) != 1:
                ctx.undetermined('%s:bilinear:%s' % (name, form), wh, TM.show(out, 8))
                continue
            out = es[0]
        dm, du = S.sym('dm'), S.sym('du')

        def node(g, d, k):
            return add(S.sym('o' + g), mul(d, k))

        def f(u):
            if u.op == 'idx' and u.args[0] is tab and u.args[1].op == 'tup' and len(u.args[1].args) == 2:
                i, j = [TM.subst(q, f) for q in u.args[1].args]
                X, Y = node('m', dm, i), node('u', du, j)
                return add(mul(S.sym('A'), X), mul(S.sym('B'), Y), mul(S.sym('C'), mul(X, Y)), S.sym('D'))
            if u.op == 'idx' and u.args[0] in (gm, gu):
                k = TM.subst(u.args[1], f)
                return node('m' if u.args[0] is gm else 'u', dm if u.args[0] is gm else du, k)
            return None
        val = TM.subst(out, f)
        x2, y2 = x, y
        exp = floor(S, S.r(S.expr('10**(A*x+B*y+C*x*y+D)', dict(A=S.sym('A'), B=S.sym('B'), C=S.sym('C'), D=S.sym('D'), x=x, y=y))))
        asg = {}
        ctx.equal('%s:bilinear:%s' % (name, form), val, exp, wh, 'interpolation weights reproduce every bilinear table', asg=asg)
        ctx.saw(S)


SUPP = {
    'ConcentrationWDMPolynomial': (dict(c_scale='$cs', c_power='$cp', c_power_inner='$ci'),
                                   '(1 + cs*(10**lmc/m)**ci)**cp*(1+z)**(0.026*z-0.04)'),
    'ConcentrationWDMPolynomial:fixed': (dict(c_scale='$cs', c_power='$cp', c_power_inner='$ci', mc_suppression_redshift_evolution=False), '(1 + cs*(10**lmc/m)**ci)**cp'),
    'ConcentrationWDMHyperbolic': (dict(a='$aa', b='$bb'), '0.5*(1+np.tanh((np.log10(m/10**lmc)-aa)/(2*bb)))'),
    'ConcentrationLudlowWDM': (dict(dlogT_dlogk='$dl'), None),
}


def wdm(ctx):
    for full, (kw, form_) in SUPP.items():
        name = full.split(':')[0]
        for scatter in (False, True):
            for cdm_kw in ((None, 'both', 'width', 'switch') if name != 'ConcentrationLudlowWDM' else (None,)):
                for form in ('one', 'array'):
                    ctx.guard(full, one_wdm, ctx, full, name, kw, form_, scatter, cdm_kw, form)
    ctx.guard('ludlow', ludlow, ctx)
    ctx.guard('binned', binned, ctx)


def physical(S):
    """parameters the constructor accepts"""
    for e in ('cp <= 0', 'cs >= 0', 'dl <= 0'):
        S.st.assume(S.r(S.expr(e, dict(cp=S.sym('cp'), cs=S.sym('cs'), dl=S.sym('dl')))))


def one_wdm(ctx, full, name, kw, form_, scatter, cdm_kw, form):
    ci = cls_(name)
    wh = w(ci)
    cold = 'ConcentrationLudlow' if name == 'ConcentrationLudlowWDM' else 'ConcentrationDiemerJoyce'
    model = {'ConcentrationLudlow': 'ludlow16', 'ConcentrationDiemerJoyce': 'diemer19'}[cold]
    R = Rig()
    S = R.S
    physical(S)
    z = S.sym('z')

    def hook(fi, args, kwargs, st, node):
        # the relation itself is decided above
        if fi.name == '_evaluate_concentration_from_table':
            env = S.I.bind(fi, args, kwargs, st, node)
            ps = fi.params
            return S.I.invoke(program().lookup(S.I.obj(st, env[ps[0]]).cls, '_evaluate_concentration_colossus'), [env[ps[0]], env[ps[1]], env[ps[2]]], [], st, node)
        if fi.name == 'suppression_fit':
            return mk('tup', S.sym('fa'), S.sym('fb'))
        return None
    S.I.on_call = hook
    d = {k: (S.sym(v[1:]) if isinstance(v, str) and v.startswith('$') else v) for k, v in kw.items()}
    if name != 'ConcentrationLudlowWDM':
        d['concentration_cdm_class'] = mk('cls', C + cold)
        if cdm_kw:
            # settings given for the cold relation take precedence
            own = {'both': ('scatter', 'scatter_dex'), 'width': ('scatter_dex',), 'switch': ('scatter',)}[cdm_kw]
            vals = {'scatter': scatter, 'scatter_dex': S.sym('sd')}
            d['kwargs_cdm'] = S.py({k: vals[k] for k in own})
            d['scatter'] = scatter if 'scatter' not in own else not scatter
            d['scatter_dex'] = S.sym('sd') if 'scatter_dex' not in own else S.sym('other')
    if not cdm_kw:
        d['scatter'], d['scatter_dex'] = scatter, S.sym('sd')
    r = S.new(ci, S.sym('cosmo'), log_mc=S.sym('lmc'), **d)
    key = '%s:%s:%s:%s' % (full, 'scatter' if scatter else 'plain', 'cold settings (%s)' % cdm_kw if cdm_kw else 'own', form)
    ms = [S.sym('m')] if form == 'one' else [S.sym('m1'), S.sym('m2')]
    out = S.r(S.meth(r, 'nfw_concentration', ms[0] if form == 'one' else R.arr(ms), z))
    vals = [out] if form == 'one' else seqs(out)
    if vals is None:
        return ctx.undetermined(key, wh, TM.show(out, 7))
    if len(vals) != len(ms):
        return ctx.violation(key, wh, '%d values for %d masses' % (len(vals), len(ms)), 'one concentration per mass')
    used = []
    for i, (v, m) in enumerate(zip(vals, ms)):
        k = '%s[%d]' % (key, i)
        c = R.fn('concentration', {'M': S.r(S.expr('m*cosmo.h', dict(m=m, cosmo=S.sym('cosmo')))), 'mdef': const('200c'), 'model': const(model), 'z': z}, S.st)
        env = dict(m=m, z=z, lmc=S.sym('lmc'), cs=S.sym('cs'), cp=S.sym('cp'), ci=S.sym('ci'), aa=S.sym('aa'), bb=S.sym('bb'))
        if form_ is None:
            env.update(aa=S.sym('fa'), bb=S.sym('fb'))
        sup = S.r(S.expr(form_ or SUPP['ConcentrationWDMHyperbolic'][1], env))
        v = explog(v)
        ns = [u for u in decide.leaves(v) if u.op == 'sym' and str(u.args[0])[0] == 'N' and str(u.args[0])[1:].isdigit()]
        if scatter:
            if len(ns) != 1:
                ctx.require(k + ':scatter', False if not ns else None, wh, '%d variates' % len(ns), 'the cold relation is scattered as requested')
                continue
            used += ns
            c = mul(c, mk('call', 'exp', mk('args', mul(S.sym('sd'), ns[0])), mk('kw')))
        elif ns:
            ctx.violation(k + ':scatter', wh, 'scatter although not requested', 'scatter only when requested')
            continue
        alts = [floor(S, mul(floor(S, c), sup)), floor(S, mul(c, sup))]
        one_floor(ctx, k, v, alts, wh)
    if form == 'array' and scatter and len(used) == 2:
        ctx.require(key + ':independent', used[0] is not used[1], wh, 'one variate shared by several halos', 'independent scatter')
    # the suppression itself
    if form_ is not None:
        m = S.sym('m')
        s = S.r(S.meth(r, 'suppression', m, z))
        env = dict(m=m, z=z, lmc=S.sym('lmc'), cs=S.sym('cs'), cp=S.sym('cp'), ci=S.sym('ci'), aa=S.sym('aa'), bb=S.sym('bb'))
        ctx.equal(key + ':suppression', s, S.r(S.expr(form_, env)), w(ci, 'suppression'), 'the documented suppression of the mass relative to the half-mode mass')
    ctx.saw(S)


def one_floor(ctx, k, v, alts, wh):
    """the warm value equals floor(floor(cold) x suppression); a cold value below the floor is floored either way"""
    ctx.equal(k, v, alts[0], wh, 'the cold relation of the same mass and redshift times the suppression, never below the minimum')


def ludlow(ctx):
    """parameters of the fit are evaluated inside the tabulated range"""
    ci = cls_('ConcentrationLudlowWDM')
    fi = program().lookup(ci, 'suppression_fit')
    if fi is None:
        return ctx.undetermined('ludlow:fit', w(ci), 'no fit')
    wh = where_fn(fi)
    R = Rig()
    S = R.S
    physical(S)
    r = S.new(ci, S.sym('cosmo'), S.sym('lmc'), S.sym('dl'), scatter=False)
    for n in ('interp_a', 'interp_b'):
        S.I.set_attr(r, n, S.sym('I' + n), S.st, None)
    out = S.r(S.meth(r, 'suppression_fit', S.sym('lmc'), S.sym('dl'), S.sym('z')))
    exp = [S.r(S.expr(e, dict(q=S.sym(n)))) for e, n in (('min(max(-q, 1.0), 4.0)', 'dl'), ('min(max(q, 6.0), 8.0)', 'lmc'), ('min(max(q, 0.0), 4.0)', 'z'))]
    calls = [x for u in TM.walk(out) if u.op == 'meth' and u.args[0].op == 'sym' and str(u.args[0].args[0]).startswith('Iinterp')
             for x in u.args[2].args if x.op == 'tup' and len(x.args) == 3]
    calls = list(dict.fromkeys(calls))
    if not calls:
        return ctx.undetermined('ludlow:fit', wh, TM.show(out, 6))
    for c in calls:
        for a, e, n in zip(c.args, exp, ('slope', 'half-mode mass', 'redshift')):
            ctx.equal('ludlow:' + n, a, e, wh, 'the fit is evaluated at the requested parameters, limited to the tabulated range')
    ctx.saw(S)


def binned(ctx):
    ci = cls_('BinnedHaloMass')
    wh = w(ci)
    for scatter in (False, True):
        R = Rig()
        S = R.S
        kw = dict(log10_mass_bins=[[6, 8], [8, 10]], normalization_list=[S.sym('n0'), S.sym('n1')], beta_list=[S.sym('b0'), S.sym('b1')], zeta_list=[S.sym('e0'), S.sym('e1')],
                  scatter=scatter, scatter_dex=S.sym('sd'), redshift_evolution='PEAK_HEIGHT')
        r = S.new(ci, S.sym('cosmo'), **{k: S.py(v) if not isinstance(v, list) else S.py([S.py(x) for x in v]) for k, v in kw.items()})
        mp = S.r(S.expr('10.0**8', {}))
        for i, (lo, hi) in enumerate(((6, 8), (8, 10))):
            S2 = S
            st0 = S.st
            S.st = S.st.copy()
            for e in ('m >= 10**%d' % lo, 'm < 10**%d' % hi):
                S.st.assume(S.r(S.expr(e, dict(m=S.sym('m')))))
            out = S.r(S.meth(r, 'nfw_concentration', S.sym('m'), S.sym('z')))
            c = peak(S, R, S.sym('m'), S.sym('z'), c0='n%d' % i, zeta='e%d' % i, beta='b%d' % i, mp=mp)
            key = 'binned:%s:%d' % ('scatter' if scatter else 'plain', i)
            if scatter:
                variate(ctx, key, S, out, c, wh, S.sym('sd'))
            else:
                ctx.equal(key, explog(out), floor(S, c), wh, 'the relation of the mass bin')
            S.st = st0
        ctx.saw(S)


def run(ctx):
    ctx.guard('cdm', cdm, ctx)
    ctx.guard('table', table, ctx)
    ctx.guard('wdm', wdm, ctx)
