"""P29 core collapse selects and transforms the intended halos."""
from .common import *
from engine import arrays, decide
from .halos import make, HM, LENS
from .p01 import RZ, EX
from . import p28

EXPLAIN = ("The core-collapse and SIDM conversions are executed abstractly on realizations of three symbolic halos (a subhalo, a line-of-sight halo and an object that is not a dark halo, in every mass regime). Uniform and normal "
           "draws are named variates; each outcome is decided as an event in its own variate: halo selected / converted exactly when its variate falls below the stated probability, given that the timescale criterion holds. The "
           "timescale, its scaling and the profile arguments of every converted halo are compared with those of a reference halo built from the same inputs.")
ASSUME = ['sub-models of the original halo (truncation, concentration, infall) are fixed functions of the halo', 'boundary events of probability zero (variate exactly equal to a probability) are not distinguished']
FLOOR = 20
KINDS = {'sub': ('TNFW:TNFWSubhalo', TRUE), 'field': ('TNFW:TNFWFieldHalo', FALSE), 'point': ('blackhole:BlackHole', FALSE)}


def fn(name):
    P = program()
    fi = P.lookup(P.cls(EX), name)
    if fi is None:
        raise Broken('%s not found' % name)
    return where_fn(fi)


class Rig:
    def __init__(self, kinds, logs):
        """halos of the given kinds with log10 masses logs (numbers or names)"""
        self.S = S = Session(Config(opaque=LENS + ['_solve_for_core_radius', 'log_derivative_inverse', 'compute_r_te_and_f_t'], opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'], draws=(), arrays=True))
        self.k = 0
        S.I.on_ext = self.ext
        self.halos = []
        for i, (k, l) in enumerate(zip(kinds, logs)):
            cls, sub = KINDS[k]
            L = S.sym(l) if isinstance(l, str) else num(l)
            self.halos.append(make(S, S.prog.cls(HM + cls), sub=sub, tag=str(i), args=S.py({}), given=dict(mass=power(num(10), L))))
        self.par = S.new(S.prog.cls(RZ), NONE, NONE, NONE, NONE, NONE, NONE, NONE, S.attr(self.halos[0], 'lens_cosmo'), halos=S.py(self.halos), kwargs_halo_model=S.sym('khm'), mass_sheet_correction=S.sym('msheet'),
                         rendering_classes=S.sym('rc'), rendering_center_x=ZERO, rendering_center_y=ZERO, geometry=S.sym('geo'))
        self.E = S.new(S.prog.cls(EX), self.par)
        self.halos = [v for c, v in arrays.entries(S.I, S.attr(self.par, 'halos'), S.st)]

    def variate(self, name):
        self.k += 1
        return mk('call', 'DRAW', mk('args', TM.const(name), num(self.k)), mk('kw'))

    def arr(self, n, f, st):
        return arrays.build(self.S.I, [(TRUE, f()) for _ in range(n)], st)

    def ext(self, name, args, kwargs, st):
        I = self.S.I
        if name in ('callable', 'builtins.callable') and len(args) == 1 and I.reify(args[0], st).op in ('sym', 'num'):
            return FALSE
        sig = {'numpy.random.rand': ('size',), 'numpy.random.random': ('size',), 'numpy.random.random_sample': ('size',), 'numpy.random.uniform': ('low', 'high', 'size'), 'numpy.random.normal': ('loc', 'scale', 'size'),
               'scipy.stats.norm.rvs': ('loc', 'scale', 'size'), 'numpy.random.standard_normal': ('size',), 'numpy.random.lognormal': ('mean', 'sigma', 'size')}.get(name)
        if sig is None:
            return None
        pos, star, kw, _ = I.expand_args(args, kwargs, st)
        d = dict(zip(sig, pos), **kw)
        size = d.get('size', NONE)
        n = None
        if size is not NONE:
            size = I.reify(size, st)
            if size.op == 'tup' and len(size.args) == 1:
                size = size.args[0]
            if size.op != 'num':
                return None
            n = int(size.args[0])
        g = lambda k, e: I.reify(d[k], st) if k in d else e
        if arrays.any_array(I, [d[k] for k in d if k != 'size'], st):
            ps = [d.get(k, e) for k, e in zip(sig[:2], (ZERO, ONE))]
            return arrays.mapn(I, lambda l, h: add(l, mul(sub_(h, l), self.variate('U'))) if 'uniform' in name else add(l, mul(h, self.variate('N'))), ps, st)
        if 'norm' in name:
            one = lambda: add(g('loc', g('mean', ZERO)), mul(g('scale', g('sigma', ONE)), self.variate('N')))
            f = (lambda: power(TM.EUL, one())) if 'lognormal' in name else one
        else:
            f = lambda: add(g('low', ZERO), mul(sub_(g('high', ONE), g('low', ZERO)), self.variate('U')))
        return f() if n is None else self.arr(n, f, st)


def sub_(a, b):
    return add(a, neg(b))


def draws(t, kind=None):
    return {u for u in TM.walk(t) if u.op == 'call' and u.args[0] == 'DRAW' and (kind is None or u.args[1].args[0] is TM.const(kind))}


def settle(R, t, *more):
    return decide.simp(ite(band(*(list(R.S.st.pc) + list(more))), R.S.r(t), mk('sym', 'nowhere')), {}, {}) if False else decide.simp(R.S.r(t), p28.facts(list(R.S.st.pc) + list(more)), {})


def event(ctx, key, R, g, p, w, rule, used=None):
    """the condition g is an event of probability p in one uniform variate of its own"""
    S = R.S
    g = settle(R, g)
    us = draws(g, 'U')
    if p in (ZERO, ONE):
        if not us:
            return ctx.equal(key, g, TRUE if p is ONE else FALSE, w, rule)
    if not us:
        if g in (TRUE, FALSE):
            return ctx.violation(key, w, 'happens %s' % ('always' if g is TRUE else 'never'), rule)
        return ctx.undetermined(key, w, TM.show(g, 4))
    if len(us) != 1:
        return ctx.violation(key, w, 'depends on %d variates' % len(us), rule) if used is not None and False else ctx.undetermined(key, w, 'depends on %d variates: %s' % (len(us), TM.show(g, 4)))
    u = us.pop()
    if used is not None:
        if u in used:
            return ctx.violation(key, w, 'shares its variate with another halo', 'independent draws for different halos')
        used.add(u)
    verdicts = []
    for x in (u, sub_(ONE, u)):
        a = settle(R, g, TM.lt(x, p))
        b = settle(R, g, TM.lt(p, x))
        verdicts.append((a, b))
        if a is TRUE and b is FALSE:
            return ctx.ok(key, w, rule)
    a, b = verdicts[0]
    ctx.equal(key, ite(band(*(list(S.st.pc) + [TM.lt(u, p)])), g, TRUE), TRUE, w, rule)
    ctx.equal(key + ':else', ite(band(*(list(S.st.pc) + [TM.lt(p, u)])), g, FALSE), FALSE, w, rule)


def entries(R, v):
    return arrays.entries(R.S.I, v, R.S.st)


# ---------------------------------------------------------------- selection
def selection(ctx):
    w = fn('core_collapse_by_mass')

    def one(kinds, logs, name, callables=False, fact=()):
        R = Rig(kinds, logs)
        S = R.S
        for f in fact:
            S.st.assume(S.r(S.expr(f[0], {k: S.sym(k) for k in f[1]})))
        a, b, c = num(6), num(8), num(10)
        sb, fb = [[num(6), num(8)], [num(8), num(10)]], [[num(5), num(7)], [num(7), num(9)]]
        ps, pf = [S.sym('ps%d' % i) for i in range(2)], [S.sym('pf%d' % i) for i in range(2)]
        for p in ps + pf:
            S.st.assume(TM.lt(ZERO, p))
            S.st.assume(TM.lt(p, ONE))
        arg = lambda l: S.py(l)
        if callables:
            fs, ff = [[S.expr('lambda h: p*h.z', dict(p=p)) for p in q] for q in (ps, pf)]
        else:
            fs, ff = ps, pf
        v = S.meth(R.E, 'core_collapse_by_mass', arg(sb), arg(fb), arg(fs), arg(ff))
        key = 'select:' + name
        es = entries(R, v)
        if es is None:
            return ctx.undetermined(key, w, TM.show(S.r(v), 4))
        used = set()
        for i, (k, l) in enumerate(zip(kinds, logs)):
            g = bor(*[band(c, TM.eq(S.r(x), num(i))) for c, x in es]) if es else FALSE
            if k == 'point':
                p = ZERO
            else:
                bins, pr = (sb, ps) if k == 'sub' else (fb, pf)
                j = [n for n, (lo, hi) in enumerate(bins) if lo.args[0] <= where(l, fact) < hi.args[0]]
                p = pr[j[0]] if j else ZERO
                if callables and j:
                    p = mul(p, S.r(S.attr(R.halos[i], 'z')))
                    S.st.assume(TM.lt(p, ONE))
            n = len([1 for c, x in es if settle(R, band(c, TM.eq(S.r(x), num(i)))) is not FALSE])
            ctx.require('%s:%d:once' % (key, i), n <= 1, w, '%d entries for halo %d' % (n, i), 'no index is listed twice')
            event(ctx, '%s:%d' % (key, i), R, g, p, w, 'selected with the probability of the mass range of its own kind that contains it; objects that are not truncated NFW halos never', used)
        ctx.saw(S)
    for name, a in dict(numbers=(('sub', 'field', 'point'), (6.5, 7.5, 7.5)), edge=(('sub', 'sub', 'field', 'field'), (8, 6, 7, 5)), outside=(('sub', 'field', 'sub', 'field'), (5.5, 9.5, 10, 9)),
                        many=(('field', 'sub', 'sub'), (5.5, 9.5, 9.5)), first=(('point', 'sub', 'field'), (6.5, 6.5, 8.5))).items():
        ctx.guard('select', one, a[0], a[1], name)
        ctx.guard('select', one, a[0], a[1], name + ':callable', True)

    def lengths(n, m):
        R = Rig(('sub',), (7,))
        S = R.S
        v = S.meth(R.E, 'core_collapse_by_mass', *[S.py(x) for x in n])
        ctx.require('select:lengths:%s' % m, fails(R, v), w, 'accepts %s' % m, 'one probability per mass range')
    r1, r2 = [[num(6), num(8)]], [[num(6), num(8)], [num(8), num(9)]]
    ctx.guard('select', lengths, (r2, r1, [ONE], [ONE]), 'subhalo probabilities missing')
    ctx.guard('select', lengths, (r1, r2, [ONE], [ONE]), 'field halo probabilities missing')


def where(l, fact):
    return l


def fails(R, v):
    """the analysed call fails in every case; None when unclear"""
    S = R.S
    v = S.I.simplify_value(v, S.st)
    if v.op == 'bottom' or S.st.dead or (S.st.pc and decide.verdict(band(*S.st.pc), FALSE)[0] == 'equal'):
        return True
    live = [x for x, g in gated(S, v) if x.op != 'bottom']
    return True if not live else False if any(x.op in ('ref', 'tup', 'const') for x in live) else None


# ---------------------------------------------------------------- conversion of chosen halos
MDEF = {'GNFW': 'PSEUDO_DPL', 'SPL_CORE': 'SPL_CORE', 'TNFWC': 'TNFWC', 'CC_COMPOSITE': 'CORE_COLLAPSED'}


def mdef(R, h):
    t = R.S.r(R.S.attr(h, 'mdef'))
    return t.args[0] if t.op == 'const' else None


def args_of(R, h):
    from .halos import as_dict
    return as_dict(R.S.r(R.S.attr(h, 'args_profile')))


def composite(R, h, gi, sm, ls):
    """the profile arguments of the composite of halo h"""
    S = R.S
    e = lambda src: S.r(S.expr(src, dict(h=h, ls=ls, sm=sm)))
    r = 'h.log_derivative_inverse(ls, h.nfw_params[1], h.profile_args[1])'
    return {'gamma_inner': gi, 'rt_kpc': e('h.profile_args[1]'), 'm_target_r200': e('h.mass_3d(h.nfw_params[2])'), 'm_target_R': e('sm*h.mass_3d(%s)' % r), 'r_match_kpc': e(r), 'Rs_inner_kpc': e(r)}


def cored(R, h, xc):
    S = R.S
    d = {'mass_conservation': S.r(S.expr("h.mass_3d('r200')", dict(h=h))), 'rt_kpc': S.r(S.expr('h.profile_args[1]', dict(h=h)))}
    if xc is not None:
        d['x_core_halo'] = xc
    return d


def profile(ctx, key, R, r, want, w, rule, under=TRUE, strict=False):
    S = R.S
    with S.under(under):
        d = args_of(R, r)
        if d is None:
            return ctx.undetermined(key, w, 'profile arguments not followed')
        pc = band(*S.st.pc)
        for k, v in want.items():
            if k not in d:
                ctx.require('%s:%s' % (key, k), False if strict else None, w, 'argument %s does not reach the halo' % k, rule)
            else:
                ctx.equal('%s:%s' % (key, k), ite(pc, d[k], ZERO), ite(pc, v, ZERO), w, rule)


def chosen(ctx):
    w = fn('add_core_collapsed_halos')
    KW = {'TNFWC': ('x_core_halo',), 'CC_COMPOSITE': ('gamma_inner', 'scale_match_r', 'log_slope_match'), 'GNFW': ('x_core_halo', 'gamma_inner', 'gamma_outer'), 'SPL_CORE': ('x_core_halo', 'log_slope_halo')}

    def one(prof, sel, form):
        R = Rig(('sub', 'field', 'sub', 'point'), (7, 7, 8, 6))
        S = R.S
        kw = {k: S.sym(k) for k in KW[prof]}
        if prof == 'CC_COMPOSITE':
            S.st.assume(bnot(TM.eq(S.sym('gamma_inner'), num(-1))))
        idx = S.expr(form, dict(s=S.py([num(i) for i in sel])))
        v = S.meth(R.E, 'add_core_collapsed_halos', idx, TM.const(prof), **kw)
        key = 'chosen:%s:%s:%s' % (prof, ''.join(map(str, sel)), form)
        if not is_inst(S, v, 'Realization'):
            return ctx.undetermined(key, w, TM.show(S.r(v), 3))
        es = entries(R, S.attr(v, 'halos'))
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        ctx.require(key + ':count', len(es) == len(R.halos), w, '%d halos from %d' % (len(es), len(R.halos)), 'every halo stays')
        for i, (h, (c, x)) in enumerate(zip(R.halos, es)):
            k = '%s:%d' % (key, i)
            if i not in sel:
                ctx.require(k, x is h if x.op == 'ref' else None, w, 'the halo at index %d is replaced' % i, 'only the listed halos are replaced')
                continue
            m = mdef(R, x) if x.op == 'ref' else None
            ctx.require(k + ':profile', None if m is None else m == MDEF[prof], w, 'the halo at index %d is %s' % (i, m), 'listed halos get the requested profile')
            ctx.equal(k + ':tag', S.r(S.attr(x, 'unique_tag')), S.r(S.attr(h, 'unique_tag')), w, 'the halo at the listed position is the one replaced')
            if m == MDEF[prof]:
                want = composite(R, h, kw['gamma_inner'], kw['scale_match_r'], kw['log_slope_match']) if prof == 'CC_COMPOSITE' else cored(R, h, kw['x_core_halo']) if prof == 'TNFWC' else kw
                profile(ctx, k + ':args', R, x, want, w, 'the profile is built from the halo it replaces and the given parameters', strict=want is kw)
        ctx.saw(S)
    for prof in MDEF:
        for sel, form in (((0,), 's'), ((1, 2), 's'), ((2, 0), 's'), ((), 's'), ((0, 2), 'np.array(s)'), ((1,), 'tuple(s)')):
            ctx.guard('chosen', one, prof, sel, form)

    def unknown():
        R = Rig(('sub',), (7,))
        v = R.S.meth(R.E, 'add_core_collapsed_halos', R.S.py([]), TM.const('NO_SUCH_PROFILE'))
        ctx.require('chosen:unknown', fails(R, v), w, 'accepts an unknown profile', 'unknown profiles are errors')
    ctx.guard('chosen', unknown)

    def bh(k):
        R = Rig(('sub', 'field'), (7, 7))
        S = R.S
        v = S.meth(R.E, 'add_core_collapsed_halos', S.py([ZERO, ONE]), TM.const('CC_COMPOSITE'), gamma_inner=num(-1), scale_match_r=S.sym('sm'), log_slope_match=S.sym('ls'))
        for i, (c, x) in enumerate(entries(R, S.attr(v, 'halos'))):
            ctx.require('chosen:central black hole:%d' % i, x.op == 'ref' and S.I.obj(S.st, x).cls.name == 'CoreCollapsedHaloBH', w, 'not a composite with a black hole', 'an inner slope of -1 stands for the black-hole composite')
            profile(ctx, 'chosen:central black hole:%d:args' % i, R, x, composite(R, R.halos[i], S.r(S.expr('2.6', {})), S.sym('sm'), S.sym('ls')), w, 'the profile is built from the halo it replaces and the given parameters')
    ctx.guard('chosen', bh, 0)


# ---------------------------------------------------------------- conversion by timescale
def one_result(R, c, v):
    """(alternatives kept [(object, guard)], alternatives converted)"""
    keep, conv = [], []
    for x, g in gated(R.S, v, c):
        if x.op == 'bottom':
            continue
        m = mdef(R, x) if x.op == 'ref' else None
        if m is None:
            return None
        (keep if m == 'TNFW' else conv).append((x, g))
    return keep, conv


class Case:
    """one conversion: how it is called and what each halo should get"""
    def __init__(self, name, src, tc, lam=None, cut=None, profile='TNFWC', evolving=True, kinds=('sub', 'field', 'sub'), logs=(6.5, 7.5, 8.5), bins=((6, 8), (8, 10))):
        self.__dict__.update(locals())

    def bin(self, l):
        return [lo <= l < hi for lo, hi in self.bins].index(True)


def convert(ctx, cs):
    w = fn(cs.src.split('(')[0].split('.')[1])

    def one(late):
        R = Rig(cs.kinds, cs.logs)
        S = R.S
        env = {k: S.sym(k) for k in ('tc0', 'tc1', 'tc', 'sg0', 'sg1', 'cs0', 'cs1', 'ts', 'pc', 'xc', 'gi', 'sm', 'ls', 'cut', 'F', 'ratio', 'scal')}
        for k in ('tc', 'F', 'ratio', 'scal', 'xc'):
            S.st.assume(bnot(TM.eq(env[k], NONE)))
        S.st.assume(bnot(TM.eq(env['gi'], num(-1))))
        for a, b in ((ZERO, env['pc']), (env['pc'], ONE), (ZERO, env['ratio'])):
            S.st.assume(TM.lt(a, b))
        env.update(E=R.E, hs=S.py(R.halos), bins=S.py([[num(a), num(b)] for a, b in cs.bins]))
        if cs.name.startswith('cross'):
            for h, l in zip(R.halos, cs.logs):
                S.st.assume(bnot(TM.eq(S.r(S.expr(cs.tc.replace('$', str(cs.bin(l))), dict(env, h=h))), NONE)))
        v = S.expr(cs.src, env)
        key = 'convert:%s:%s' % (cs.name, 'late' if late else 'early')
        if not is_inst(S, v, 'Realization'):
            return ctx.undetermined(key, w, TM.show(S.r(v), 3))
        es = entries(R, S.attr(v, 'halos'))
        if es is None or [c for c, _ in es if settle(R, c) is not TRUE]:
            return ctx.undetermined(key, w, 'halos not enumerated')
        ctx.require(key + ':count', len(es) == len(R.halos), w, '%d halos from %d' % (len(es), len(R.halos)), 'every halo stays')
        used, seen = set(), set()
        for i, (h, (c, x)) in enumerate(zip(R.halos, es)):
            k = '%s:%d' % (key, i)
            if cs.kinds[i] == 'point':
                ctx.require(k, x is h if x.op == 'ref' else None, w, 'an object without an NFW profile is replaced', 'only NFW halos are converted')
                continue
            res = one_result(R, c, x)
            if res is None:
                ctx.undetermined(k, w, 'results not followed: %s' % TM.show(S.r(x), 3))
                continue
            keep, conv = res
            b = cs.bin(cs.logs[i])
            e = dict(env, h=h, b=b)
            if '$N' in cs.tc:
                ns = set().union(*[draws(S.r(S.attr(o, 't_over_tc')), 'N') for o, g in conv + keep]) if conv + keep else set()
                if len(ns) != 1 or ns & seen:
                    ctx.violation(k + ':scatter', w, 'the timescale uses %s' % ('the draw of another halo' if ns & seen else '%d draws' % len(ns)), 'an independent draw of the timescale for each halo')
                    continue
                seen |= ns
                e['N'] = ns.pop()
            tc = S.r(S.expr(cs.tc.replace('$N', 'N').replace('$', str(b)), e))
            lam = S.r(S.expr(cs.lam if cs.kinds[i] == 'sub' and cs.lam else '1.0', e))
            ref = reference(R, h, tc, lam, cs.kinds[i] == 'sub')
            T, A = S.r(S.attr(ref, 't_over_tc')), S.r(S.attr(ref, 'halo_effective_age'))
            cut = S.r(S.expr(cs.cut, e))
            crit = TM.le(cut, T) if late else TM.lt(T, cut)
            g = bor(*[g for _, g in conv]) if conv else FALSE
            with S.under(crit):
                event(ctx, k + ':converted', R, g, S.sym('pc') if late else ZERO, w, 'converted with the collapse probability once the age in units of the collapse time reaches the threshold, never before', used)
                for o, gg in (conv if late else keep):
                    n = k + (':converted' if late else ':kept')
                    with S.under(gg):
                        p = band(*S.st.pc)
                        for q, want in (('t_over_tc', T), ('halo_effective_age', A)):
                            got = S.attr(o, q)
                            ctx.equal('%s:%s' % (n, q), ite(p, S.r(got), ZERO), ite(p, want, ZERO), w, 'the age in units of the collapse time of its own mass bin, kind and profile')
                        ctx.equal(n + ':tag', ite(p, S.r(S.attr(o, 'unique_tag')), ZERO), ite(p, S.r(S.attr(h, 'unique_tag')), ZERO), w, 'halos keep their place')
                        if late:
                            cn = S.I.obj(S.st, o).cls.name
                            want = 'CoreCollapsedHalo' if cs.profile == 'CC_COMPOSITE' else 'TNFWCHaloEvolving' if cs.evolving else 'TNFWCHaloParametric'
                            ctx.require(n + ':profile', cn == want, w, 'converted to %s, required %s' % (cn, want), 'the profile requested')
                            if cn != want:
                                continue
                            ex = composite(R, h, S.sym('gi'), S.sym('sm'), S.sym('ls')) if cs.profile == 'CC_COMPOSITE' else cored(R, h, None if cs.evolving else S.sym('xc'))
                            if not (want == 'TNFWCHaloParametric'):
                                ex.update(sidm_timescale=tc, lambda_t=lam)
                            profile(ctx, n + ':args', R, o, ex, w, 'the profile is built from the halo it replaces and the given parameters')
        ctx.saw(S)
    for late in (True, False):
        ctx.guard('convert:' + cs.name, one, late)


def reference(R, h, tc, lam, is_sub):
    """the same halo as an evolving halo, built by hand"""
    S = R.S
    cc = S.new('pyHalo.Halos.concentration:ConcentrationConstant', NONE, S.attr(h, 'c'))
    a = S.py({})
    for k, v in (('sidm_timescale', tc), ('lambda_t', lam)):
        S.I.set_item(a, TM.const(k), v, S.st, None)
    ref = S.new(HM + 'NFW_core_trunc:TNFWCHaloEvolving', *([S.attr(h, q) for q in ('mass', 'x', 'y', 'r3d', 'z', 'is_subhalo', 'lens_cosmo')] + [a, NONE, cc, S.attr(h, 'unique_tag')]))
    if is_sub:
        S.meth(ref, 'set_infall_redshift', S.attr(h, 'z_infall'))
    return ref


def cases():
    out = []
    for prof in ('TNFWC', 'CC_COMPOSITE'):
        for ev in (True, False):
            o = "collapse_probability=pc, halo_profile='%s', x_core_halo=xc, gamma_inner=gi, scale_match_r=sm, log_slope_match=ls" % prof
            n = '%s:%s' % (prof, 'evolving' if ev else 'static')
            thr = ', t_over_tc_collapse_threshold=cut'
            cut = '0.15' if prof == 'TNFWC' and ev else 'cut'
            D = dict(profile=prof, evolving=ev)
            evs = ', evolving_SIDM_profile=%s, ' % ev
            out.append(Case('timescale:' + n, 'E.toSIDM_from_timescale(bins, [tc0, tc1], None, ts' + evs + o + thr + ')', '10**tc$', '10**ts', cut, kinds=('sub', 'field', 'sub', 'point', 'field'), logs=(6.5, 7.5, 8.5, 7, 8), **D))
            out.append(Case('timescale:scatter:' + n, 'E.toSIDM_from_timescale(bins, [tc0, tc1], [sg0, sg1], ts' + evs + o + thr + ')', '10**(tc$+sg$*$N)', '10**ts', cut, **D))
            out.append(Case('cross section:' + n, 'E.toSIDM_from_cross_section(bins, [cs0, cs1], ts' + evs + o + thr + ')', 'h.lens_cosmo.sidm_collapse_timescale(h.nfw_params[0], h.nfw_params[1], 10**cs$)', '10**ts', cut, **D))
            out.append(Case('cross section:function:' + n, 'E.toSIDM_from_cross_section(bins, [cs0, cs1], ts' + evs + o + thr + ', sidm_timescale_function=F)', 'F(h.nfw_params[0], h.nfw_params[1], 10**cs$)', '10**ts', cut, **D))
            if True:
                if prof == 'CC_COMPOSITE':
                    ev_cut = '1.0'
                else:
                    ev_cut = 'cut' if ev else '1.0'
                if prof == 'TNFWC' and ev:
                    for m, src, tc in (('timescale:', 'E.toSIDM_from_timescale(bins, [tc0, tc1], None, ts', '10**tc$'), ('cross section:', 'E.toSIDM_from_cross_section(bins, [cs0, cs1], ts', 'h.lens_cosmo.sidm_collapse_timescale(h.nfw_params[0], h.nfw_params[1], 10**cs$)')):
                        D2 = dict(D, kinds=('field', 'field', 'sub'))
                        out.append(Case(m + 'descending:' + n, src + evs + o + thr + ')', tc, '10**ts', cut, bins=((8, 10), (6, 8)), logs=(6.5, 8, 7.5), **D2))
                        out.append(Case(m + 'overlapping:' + n, src + evs + o + thr + ')', tc, '10**ts', cut, bins=((6, 9), (6, 10)), logs=(6.5, 8.5, 9.5), **D2))
                        out.append(Case(m + 'equal masses:' + n, src + evs + o + thr + ')', tc, '10**ts', cut, logs=(7, 7, 7), **D2))
                out.append(Case('list:' + n, 'E.toSIDM_halo_list(hs, t_c=tc, subhalo_evolution_scaling=scal, evolving_profile=%s, %s)' % (ev, o + (', t_over_tc_cut=cut' if ev else '')), 'tc', 'scal', ev_cut, **D))
                out.append(Case('list:ratio:' + n, 'E.toSIDM_halo_list(hs, t_over_tc=ratio, evolving_profile=%s, %s)' % (ev, o + (', t_over_tc_cut=cut' if ev else '')), 'h.halo_age/ratio', None, ev_cut, **D))
    return out


def outside(ctx):
    for name, src in (('timescale', 'E.toSIDM_from_timescale(bins, [tc0, tc1], None, ts)'), ('cross section', 'E.toSIDM_from_cross_section(bins, [cs0, cs1], ts)')):
        for l in (5.5, 10, 11, 8.5):
            def one():
                R = Rig(('sub',), (l,))
                S = R.S
                env = {k: S.sym(k) for k in ('tc0', 'tc1', 'cs0', 'cs1', 'ts')}
                env.update(E=R.E, bins=S.py([[num(6), num(8)], [num(9), num(10)]]))
                v = S.expr(src, env)
                ctx.require('outside:%s:%s' % (name, l), fails(R, v), fn(src.split('(')[0].split('.')[1]), 'a halo outside every mass range is accepted', 'every halo must lie inside a mass range')
            ctx.guard('outside', one)


def run(ctx):
    selection(ctx)
    chosen(ctx)
    for cs in cases():
        convert(ctx, cs)
    outside(ctx)
