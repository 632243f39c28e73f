"""P32 two-point statistics of a convergence map measure what they name."""
from fractions import Fraction

from .common import *
from engine import arrays, decide
from . import p15, p29
from .p31 import guarded, und, viol

EXPLAIN = ("The correlation function of a convergence map is executed abstractly on a small symbolic map: interpolation and quadrature are replaced by named values and weights, and every pair of points, mask value, mean, variance, "
           "area and normalisation is compared with the stated masked correlation; multipoles, power spectrum and power-law fit are compared with their definitions.")
ASSUME = ['splines, Simpson quadrature, the Hankel transform and the least-squares fit of scipy and hankl compute what they document']
FLOOR = 10
RE = 'pyHalo.realization_extensions:'


def fn(name):
    fi = program().func(RE + name)
    if fi is None:
        raise Broken('%s not found' % name)
    return where_fn(fi)


class Rig:
    def __init__(self):
        self.S = S = Session(Config(draws=(), arrays=True))
        self.I = S.I
        self.splines, self.calls, self.masks, self.simps, self.ext_calls, self.fits = [], [], [], [], [], []
        S.I.on_ext, S.I.on_ometh, S.I.on_call = self.ext, self.ometh, self.call

    def rows(self, v, st=None):
        """an array of arrays as a list of lists"""
        st = st or self.S.st
        es = arrays.entries(self.I, v, st)
        if es is None or any(c is not TRUE for c, _ in es):
            return None
        out = []
        for c, x in es:
            r = arrays.entries(self.I, x, st)
            if r is None or any(c is not TRUE for c, _ in r):
                return None
            out.append([y for _, y in r])
        return out

    def flat(self, v, st=None):
        es = arrays.entries(self.I, v, st or self.S.st)
        return None if es is None or any(c is not TRUE for c, _ in es) else [x for _, x in es]

    def grid(self, f, n, m, st=None):
        st = st or self.S.st
        return arrays.build(self.I, [(TRUE, arrays.build(self.I, [(TRUE, f(i, j)) for j in range(m)], st)) for i in range(n)], st)

    def vec(self, l, st=None):
        return arrays.build(self.I, [(TRUE, x) for x in l], st or self.S.st)

    def call(self, fi, args, kwargs, st, node):
        if fi.name == 'mask_annular':
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, args))
            d.update(dict(kwargs))
            self.masks.append({k: (self.rows(v, st), self.I.reify(v, st)) for k, v in d.items()})
            n = len(self.masks[-1].get('x_grid', (None,))[0] or ())
            return self.grid(lambda i, j: self.S.sym('m%d%d' % (i, j)), n, n, st) if n else None
        return None

    def ext(self, name, args, kwargs, st):
        S, I = self.S, self.I
        if name.split('.')[0] not in ('numpy', 'scipy', 'hankl', 'hankel', 'mcfit') and 'Hankel' not in name:
            return None
        pos, star, kw, _ = I.expand_args(args, kwargs, st)
        kw = dict(kw)
        if name == 'numpy.linspace':
            n = pos[2] if len(pos) > 2 else kw.get('num')
            if n is None or n.op != 'num' or not 2 <= n.args[0] <= 12:
                return None
            n = int(n.args[0])
            a, b = [I.reify(p, st) for p in pos[:2]]
            saved, S.st = S.st, st
            try:
                xs = [S.r(S.expr('a + (b - a)*%d/%d' % (i, n - 1), dict(a=a, b=b))) for i in range(n)]
            finally:
                S.st = saved
            return self.vec(xs, st)
        if name == 'numpy.meshgrid':
            xs, ys = [self.flat(p, st) for p in pos]
            if xs is None or ys is None:
                return None
            return mk('tup', self.grid(lambda i, j: xs[j], len(ys), len(xs), st), self.grid(lambda i, j: ys[i], len(ys), len(xs), st))
        if name in ('numpy.ones', 'numpy.zeros'):
            sh = I.reify(pos[0], st)
            v = ONE if name.endswith('ones') else ZERO
            if sh.op == 'tup' and len(sh.args) == 2 and all(q.op == 'num' for q in sh.args):
                return self.grid(lambda i, j: v, int(sh.args[0].args[0]), int(sh.args[1].args[0]), st)
            return None
        if name.endswith('RectBivariateSpline'):
            d = dict(zip(('x', 'y', 'z'), pos))
            d.update({k: v for k, v in kw.items() if k in ('x', 'y', 'z')})
            o = S.sym('SPL%d' % len(self.splines))
            self.splines.append((o, self.flat(d['x'], st), self.flat(d['y'], st), self.rows(d['z'], st)))
            return o
        if name in ('scipy.integrate.simpson', 'scipy.integrate.simps', 'scipy.integrate.trapezoid', 'numpy.trapezoid', 'numpy.trapz'):
            d = dict(zip(('y', 'x', 'dx', 'axis'), pos))
            d.update(kw)
            ax = I.reify(d['axis'], st).args[0] if 'axis' in d else -1
            x = self.flat(d['x'], st)
            W = lambda i: S.sym('W%d' % i)
            r = self.rows(d['y'], st)
            if r is None:
                v = self.flat(d['y'], st)
                self.simps.append((v, x))
                return None if v is None else add(*[mul(W(i), q) for i, q in enumerate(v)])
            self.simps.append((r, x))
            if ax in (0, -2):
                return self.vec([add(*[mul(W(i), r[i][j]) for i in range(len(r))]) for j in range(len(r[0]))], st)
            return self.vec([add(*[mul(W(j), q) for j, q in enumerate(row)]) for row in r], st)
        return None

    def ometh(self, r, st):
        if r.op == 'meth' and r.args[0].op == 'sym' and r.args[0].args[0].startswith('SPL') and r.args[1] in ('__call__', 'ev'):
            a, k = list(r.args[2].args), list(r.args[3].args)
            g = [self.rows2(q) for q in a[:2]]
            n = len(self.calls)
            grid = dict(zip(k[::2], k[1::2])).get('grid')
            self.calls.append((r.args[0], g, grid if r.args[1] == '__call__' else FALSE))
            if any(q is None for q in g):
                return None
            return self.grid(lambda i, j: self.S.sym('v%d_%d%d' % (n, i, j)), len(g[0]), len(g[0][0]), st)
        return None

    def rows2(self, t):
        a = p15.seqs(t)
        if a is None:
            return None
        b = [p15.seqs(q) for q in a]
        return None if any(q is None for q in b) else b


def direction(t):
    """cosine and sine of a polar angle in terms of the coordinates"""
    def f(u):
        if u.op == 'call' and u.args[0] in ('cos', 'np.cos', 'sin', 'np.sin'):
            a = u.args[1].args[0]
            if a.op == 'call' and a.args[0] in ('np.arctan2', 'arctan2', 'np.angle'):
                y, x = a.args[1].args
                r = TM.power(add(mul(x, x), mul(y, y)), num(Fraction(1, 2)))
                return TM.div(x if 'cos' in u.args[0] else y, r)
        return None
    return TM.subst(t, f)


def correlation(ctx):
    w = fn('corr_kappa_with_mask')
    Q = lambda x: num(Fraction(x))
    for masked, outer, norm, rs, nm in ((True, True, False, ('1', '1/2'), 2), (True, False, False, ('1',), 1), (False, False, False, ('1',), 1), (True, True, True, ('1',), 1), (False, False, True, ('1',), 1)):
        p = 'correlation/%s%s/' % ('annulus' if masked and outer else 'hole' if masked else 'no mask', ', normalised' if norm else '')
        R = Rig()
        S = R.S
        e = {k: S.sym(k) for k in ('a', 'b', 'W0', 'W1')}
        mus = [S.sym('mu%d' % i) for i in range(nm)]
        N, size = 5, num(4)
        km = R.grid(lambda i, j: S.sym('k%d%d' % (i, j)), N, N)
        kr = R.rows(km)
        for k in ('a', 'W0', 'W1'):
            S.st.assume(TM.lt(ZERO, e[k]))
        S.st.assume(TM.lt(e['a'], e['b']))
        S.st.assume(bnot(TM.eq(e['b'], NONE)))
        for m in mus:
            S.st.assume(TM.lt(mul(m, m), ONE))
        with guarded(ctx, p):
            v = S.call(RE + 'corr_kappa_with_mask', km, size, R.vec([Q(r) for r in rs]), R.vec(mus), apply_mask=masked, r_min=e['a'], r_max=e['b'] if outer else None, normalization=norm)
            ctx.saw(S)
            out = R.rows(v)
            kap = [o for o, x, y, z in R.splines if z == kr]
            msk = [o for o, x, y, z in R.splines if z is not None and z != kr]
            if out is None or len(kap) != 1 or len(msk) != (1 if masked else 0) or len(out) != len(rs) or any(len(r) != nm for r in out):
                und(ctx, p + 'map', 'the correlation function was not enumerated', w)
                continue
            full = [num(i - 2) for i in range(N)]
            for o, x, y, z in R.splines:
                ctx.require(p + ('map' if o in kap else 'mask') + ' coordinates', None if x is None or y is None else x == full and y == full, w, 'interpolated on %s' % [TM.show(q) for q in x or ()], 'the map covers the square of the stated size around the centre')
            if masked:
                rule = 'the mask is the stated annulus around the centre of the map, on the pixels of the map'
                if len(R.masks) == 1:
                    m = R.masks[0]
                    g = lambda k: m[k][1] if k in m else NONE
                    for k, want in (('center_x', ZERO), ('center_y', ZERO), ('r_min', e['a']), ('r_max', e['b'] if outer else NONE)):
                        ctx.equal(p + 'mask/' + k, g(k), want, w, rule)
                    gx, gy = m.get('x_grid', (None,))[0], m.get('y_grid', (None,))[0]
                    ctx.require(p + 'mask/pixels', None if gx is None or gy is None else all(gx[i][j] is full[j] and gy[i][j] is full[i] for i in range(N) for j in range(N)), w, 'other pixels', rule)
                else:
                    und(ctx, p + 'mask', '%d masks' % len(R.masks), w)
            grid = [[(num(2 * i - 1), num(2 * j - 1)) for j in range(2)] for i in range(2)]
            for i, r in enumerate(rs):
                for j, mu in enumerate(mus):
                    key = p + ('r%d mu%d/' % (i, j) if nm > 1 else '')
                    used = sorted({int(t.args[0][1:].split('_')[0]) for t in TM.walk(out[i][j]) if t.op == 'sym' and t.args[0][0] == 'v' and '_' in t.args[0]})
                    kc = [n for n in used if R.calls[n][0] in kap]
                    mc = [n for n in used if R.calls[n][0] in msk]
                    if len(kc) != 2 or any(q is None for n in used for q in R.calls[n][1]) or len(mc) not in ((2,) if masked else (0,)) or len(R.calls[kc[0]][1][0]) != 2:
                        und(ctx, key + 'pairs', 'the two points of a pair were not found', w)
                        continue
                    ok = True
                    if masked:
                        pos = {n: R.calls[n][1] for n in used}
                        order = [[m for m in mc if pos[m] == pos[k]] for k in kc]
                        if sorted(map(len, order)) != [1, 1] or order[0] == order[1]:
                            viol(ctx, key + 'masked points', 'the mask is read at other points than the map', w, 'each point of a pair is weighted with the mask at its own position')
                            continue
                        mc = [o[0] for o in order]
                    # geometry of the pairs
                    A, B = [[[[direction(q) for q in row] for row in g] for g in R.calls[k][1]] for k in kc]
                    seen = set()
                    for a in range(2):
                        for b in range(2):
                            mid = [TM.div(add(A[c][a][b], B[c][a][b]), num(2)) for c in range(2)]
                            mid = [S.r(q) for q in mid]
                            sep = [sub(B[c][a][b], A[c][a][b]) for c in range(2)]
                            if any(q.op != 'num' for q in mid):
                                viol(ctx, key + 'midpoint/%d%d' % (a, b), 'the points of a pair are not centred on a pixel: %s' % [TM.show(q)[:80] for q in mid], w, 'the two points lie on either side of a pixel')
                                ok = False
                                continue
                            seen.add(tuple(mid))
                            ctx.equal(key + 'separation/%d%d' % (a, b), add(mul(sep[0], sep[0]), mul(sep[1], sep[1])), mul(Q(r), Q(r)), w, 'the points of a pair are separated by r')
                            dot = add(mul(sep[0], mid[0]), mul(sep[1], mid[1]))
                            norm2 = TM.power(add(mul(mid[0], mid[0]), mul(mid[1], mid[1])), Q('1/2'))
                            want = mul(mul(Q(r), mu), norm2)
                            ctx.one_of(key + 'angle/%d%d' % (a, b), dot, [want, TM.neg(want)], w, 'the separation makes the angle arccos(mu) with the radial direction')
                    if not ok:
                        continue
                    ctx.require(key + 'pixels', seen == {c for row in grid for c in row}, w, 'pairs are centred on %s' % sorted([TM.show(q) for q in c] for c in seen), 'pairs are centred on every pixel of the inner map, which leaves room for the largest separation')
                    # the statistic
                    val = lambda n, a, b: S.sym('v%d_%d%d' % (n, a, b))
                    if masked:
                        ms = [val(n, a, b) for n in mc for a in range(2) for b in range(2)]
                        regimes = [('all kept', [])] + [('point cut', [x]) for x in ms[1:2] + ms[6:7]]
                    else:
                        regimes = [('', [])]
                    for name, cut in regimes:
                        facts = []
                        M = [[[ONE] * 2 for _ in range(2)] for _ in range(2)]
                        if masked:
                            for x in ms:
                                facts.append(TM.lt(x, Q('9/10')) if x in cut else TM.lt(Q('9/10'), x))
                            M = [[[ZERO if val(n, a, b) in cut else ONE for b in range(2)] for a in range(2)] for n in mc]
                        got = p29.settle(R, out[i][j], *facts)
                        cells = [(a, b) for a in range(2) for b in range(2)]
                        tot = lambda f: add(*[mul(mul(e['W%d' % a], e['W%d' % b]), mul(mul(M[0][a][b], M[1][a][b]), f(val(kc[0], a, b), val(kc[1], a, b)))) for a, b in cells])
                        area = S.r(S.expr('np.pi*(b**2 - a**2)' if masked and outer else '4 - np.pi*a**2' if masked else '4', e))
                        env = dict(T1=tot(lambda x, y: mul(x, y)), TA=tot(lambda x, y: x), TB=tot(lambda x, y: y), T0=tot(lambda x, y: ONE), SA=tot(lambda x, y: mul(x, x)), SB=tot(lambda x, y: mul(y, y)), A=area)
                        src = '((T1 - TA*TB/T0)/A)'
                        if norm:
                            src += '/np.sqrt((SA - TA**2/T0)/A*((SB - TB**2/T0)/A))'
                        want = p29.settle(R, S.r(S.expr(src, env)), *facts)
                        ctx.equal(key + 'value' + ('/' + name if name else ''), got, want, w, 'the correlation is the covariance of the two points of a pair over the pixels where both are unmasked' + (', per variance of the points' if norm else ', per area of the mask'))


def kept(R, v, *facts):
    """the entries of an array that are present under the facts, or None"""
    es = arrays.entries(R.I, v, R.S.st)
    if es is None:
        return None
    out = []
    for c, x in es:
        c = p29.settle(R, c, *facts)
        if c not in (TRUE, FALSE):
            return None
        if c is TRUE:
            out.append(p29.settle(R, x, *facts))
    return out


def multipoles(ctx):
    w = fn('xi_l')
    for l in (0, 1, 2):
        p = 'multipole/%d/' % l
        R = Rig()
        S = R.S
        base = R.ext
        T = lambda l, m: mk('call', 'chebyshev', mk('args', l, m), mk('kw'))

        def ext(name, args, kwargs, st, base=base, R=R, T=T):
            if name in ('scipy.special.eval_chebyt', 'scipy.special.chebyt'):
                pos, star, kw, _ = R.I.expand_args(args, kwargs, st)
                ms = R.flat(pos[1], st) if len(pos) > 1 else None
                return R.vec([T(R.I.reify(pos[0], st), m) for m in ms], st) if ms is not None else None
            return base(name, args, kwargs, st)
        S.I.on_ext = ext
        ms = [S.sym('m%d' % i) for i in range(3)]
        rs = [S.sym('r%d' % i) for i in range(2)]
        with guarded(ctx, p):
            v = S.call(RE + 'xi_l', num(l), R.grid(lambda i, j: S.sym('c%d%d' % (i, j)), 2, 3), R.vec(rs), R.vec(ms))
            ctx.saw(S)
            r, out = R.flat(S.I.get_item(v, num(0), S.st)), R.flat(S.I.get_item(v, num(1), S.st))
            if r is None or out is None or any(x is None or y is None or len(x) != len(y) or y and isinstance(y[0], list) for y, x in R.simps) or not R.simps:
                und(ctx, p + 'integral', 'the integral was not recorded', w)
                continue
            ctx.require(p + 'separations', r == rs, w, 'returns other separations', 'each multipole is returned with its separation')
            rule = 'the multipole of order l is the integral of the correlation times the Chebyshev polynomial over the angle, over pi (times two except for the monopole)'
            theta = [S.r(S.expr('np.arccos(m)', dict(m=m))) for m in ms]
            if len(out) != 2 or len(R.simps) != 2:
                und(ctx, p + 'integral', '%d integrals for %d separations' % (len(R.simps), len(out)), w)
                continue
            for i, (ys, xs) in enumerate(R.simps):
                if len(xs) != 3 or not all(x in theta for x in xs):
                    if sorted(map(id, xs)) == sorted(map(id, ms)):
                        und(ctx, p + 'nodes/%d' % i, 'integrated over mu', w)
                    else:
                        viol(ctx, p + 'nodes/%d' % i, 'integrated over %s' % [TM.show(x)[:40] for x in xs], w, rule)
                    continue
                order = [theta.index(x) for x in xs]
                # mu increases, so the angles decrease: an increasing angle runs through the values backwards
                ctx.require(p + 'orientation/%d' % i, order in ([2, 1, 0], [0, 1, 2]), w, 'the angles are not in order', rule)
                for k, n in enumerate(order):
                    ctx.equal(p + 'integrand/%d/%d' % (i, k), ys[k], mul(S.sym('c%d%d' % (i, n)), T(num(l), ms[n])), w, 'the value at an angle belongs to that angle')
                tot = add(*[mul(S.sym('W%d' % k), y) for k, y in enumerate(ys)])
                ctx.equal(p + 'value/%d' % i, out[i], S.r(S.expr('%d/np.pi*I' % ((1 if l == 0 else 2) * (1 if order[0] else -1)), dict(I=tot))), w, rule)


def power(ctx):
    w = fn('xi_l_to_Pk_l')
    for l in (0, 2):
        p = 'power/%d/' % l
        R = Rig()
        S = R.S
        rec = []
        base = R.ext

        def ext(name, args, kwargs, st, base=base, R=R, rec=rec):
            if name.endswith('.Hankel'):
                pos, star, kw, _ = R.I.expand_args(args, kwargs, st)
                d = dict(zip(('x', 'nu'), pos), **dict(kw))
                rec.append(('H', d.get('x'), R.I.reify(d['nu'], st) if 'nu' in d else ZERO))
                return R.S.sym('HANKEL')
            return base(name, args, kwargs, st)

        def ometh(r, st, R=R, rec=rec):
            if r.op == 'meth' and r.args[0] is R.S.sym('HANKEL') and r.args[1] == '__call__':
                k = list(r.args[3].args)
                d = dict(zip(('F', 'axis', 'extrap'), r.args[2].args), **dict(zip(k[::2], k[1::2])))
                rec.append(('F', d.get('F'), d.get('extrap')))
                return mk('tup', R.S.sym('K'), R.S.sym('P'))
            return None
        S.I.on_ext, S.I.on_ometh = ext, ometh
        r1, r2, x = S.sym('r1'), S.sym('r2'), [S.sym('x%d' % i) for i in range(3)]
        facts = [TM.lt(ZERO, r1), TM.lt(r1, r2), TM.lt(ZERO, r2)]
        for f in facts:
            S.st.assume(f)
        ex = S.sym('EX')
        with guarded(ctx, p):
            v = S.call(RE + 'xi_l_to_Pk_l', R.vec([ZERO, r1, r2]), R.vec(x), l=l, extrapolate=ex)
            ctx.saw(S)
            H, F = [q for q in rec if q[0] == 'H'], [q for q in rec if q[0] == 'F']
            if len(H) != 1 or len(F) != 1:
                und(ctx, p + 'transform', 'the transform was not recorded', w)
                continue
            rr = kept(R, H[0][1], *facts)
            fs = p15.seqs(F[0][1])
            if fs is None:
                fs = kept(R, F[0][1], *facts)
            rule = 'the power spectrum multipole is the Hankel transform, of the same order, of the correlation multipole at non-zero separations'
            ctx.require(p + 'separations', None if rr is None else rr == [r1, r2], w, 'transforms separations %s' % [TM.show(q) for q in rr or ()], rule)
            ctx.require(p + 'multipole', None if fs is None else fs == x[1:], w, 'transforms %s' % [TM.show(q) for q in fs or ()], rule)
            ctx.equal(p + 'order', H[0][2], num(l), w, rule)
            ctx.equal(p + 'extrapolation', F[0][2] if F[0][2] is not None else NONE, ex, w, 'the choice of extrapolation is passed on')
            ctx.equal(p + 'wavenumber', S.r(S.I.get_item(v, num(0), S.st)), S.sym('K'), w, rule)
            got = S.r(S.I.get_item(v, num(1), S.st))
            P = S.sym('P')
            J = S.sym('J')
            got = TM.subst(got, lambda t: t.args[0] if t.op == 'attr' and t.args[1] == 'real' else None)
            got = TM.subst(got, lambda t: J if t.op == 'const' and t.args[0] in (1j, '1j') else None)
            if TM.contains(got, J):
                # a power of the imaginary unit that was not combined
                u = TM.div(got, TM.power(J, num(2)))
                got = TM.neg(u) if l == 2 and not TM.contains(u, J) else got
            ctx.equal(p + 'value', got, S.r(S.expr('%d*np.pi*P' % (2 if l == 0 else -2), dict(P=P))), w, rule + ', times 2 pi (-i)^l')


def fit(ctx):
    w = fn('fit_correlation_multipole')
    p = 'fit/'
    R = Rig()
    S = R.S
    rec = []
    base = R.ext

    def ext(name, args, kwargs, st):
        if name.endswith('.curve_fit'):
            pos, star, kw, _ = R.I.expand_args(args, kwargs, st)
            d = dict(zip(('f', 'xdata', 'ydata'), pos), **{k: v for k, v in dict(kw).items()})
            t = R.S.sym('t')
            model = R.I.reify(R.I.apply(d['f'], [t, R.S.sym('A'), R.S.sym('n')], [], st, None), st)
            rec.append((model, d.get('xdata'), d.get('ydata')))
            return mk('tup', R.vec([R.S.sym('A_fit'), R.S.sym('n_fit')], st), R.S.sym('COV'))
        return base(name, args, kwargs, st)
    S.I.on_ext = ext
    a, b, t = S.sym('a'), S.sym('b'), S.sym('t')
    rs, xs = [S.sym('r%d' % i) for i in range(4)], [S.sym('x%d' % i) for i in range(4)]
    facts = [TM.lt(ZERO, a), TM.lt(a, b), TM.lt(ZERO, t), TM.lt(ZERO, b)]
    for i, (lo, hi) in enumerate(((False, True), (True, True), (True, True), (True, False))):
        facts += [TM.lt(a, rs[i]) if lo else TM.lt(rs[i], a), TM.lt(rs[i], b) if hi else TM.lt(b, rs[i])]
    for f in facts:
        S.st.assume(f)
    with guarded(ctx, p):
        v = S.call(RE + 'fit_correlation_multipole', R.vec(rs), R.vec(xs), a, b)
        ctx.saw(S)
        if len(rec) != 1:
            und(ctx, p + 'model', '%d fits' % len(rec), w)
            return
        ctx.equal(p + 'model', rec[0][0], S.r(S.expr('A*(t/((a + b)/2))**n', dict(a=a, b=b, t=t, A=S.sym('A'), n=S.sym('n')))), w, 'the model is a power law with its pivot in the middle of the range')
        x, y = kept(R, rec[0][1], *facts), kept(R, rec[0][2], *facts)
        ctx.require(p + 'separations', None if x is None else x == rs[1:3], w, 'fits %s' % [TM.show(q) for q in x or ()], 'only separations inside the range are fitted')
        ctx.require(p + 'multipole', None if y is None else y == xs[1:3], w, 'fits %s' % [TM.show(q) for q in y or ()], 'each separation is fitted with its own multipole')
        for i, q in enumerate(('A_fit', 'n_fit')):
            ctx.equal(p + ('amplitude', 'slope')[i], S.r(S.I.get_item(v, num(i), S.st)), S.sym(q), w, 'the amplitude and the slope of the fit are returned')


def run(ctx):
    correlation(ctx)
    multipoles(ctx)
    power(ctx)
    fit(ctx)
