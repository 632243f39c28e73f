"""P33 summary plots show the halos and quantities they name."""
from fractions import Fraction

from .common import *
from engine import arrays, decide
from . import p15, p29
from .p31 import guarded, und, viol
from .p32 import kept

EXPLAIN = ("Every plotting routine is executed abstractly on a realization of three symbolic halos (a subhalo, a field halo, a subhalo) with the figure replaced by a recorder; the data handed to the figure or to a histogram are "
           "compared, halo by halo and for every mass regime, with the selection and the quantity the routine documents.")
ASSUME = ['matplotlib draws the data it is given; numpy histograms count what they are given']
FLOOR = 10
PR = 'pyHalo.plotting_routines:'


def fn(name):
    fi = program().func(PR + name)
    if fi is None:
        raise Broken('%s not found' % name)
    return where_fn(fi)


class Rig:
    """a realization of three halos; `inside` says which of them have a mass in the plotted range (or above / below it)"""

    def __init__(self, inside, zs=None):
        self.S = S = Session(Config(draws=(), arrays=True))
        self.I = I = S.I
        self.plots, self.hists, self.bins, self.az, self.atz, self.conv, self.stats, self.resampled = [], [], [], [], [], [], [], []
        I.on_ext, I.on_ometh, I.on_call = self.ext, self.ometh, self.call
        self.real, self.ax = S.sym('REAL'), S.sym('AX')
        self.h = [S.sym('h%d' % i) for i in range(3)]
        self.lo, self.hi = S.sym('LO'), S.sym('HI')
        S.st.assume(bnot(TM.eq(self.ax, NONE)))
        I.preset_attrs[self.real, 'halos'] = S.py(list(self.h))
        self.sub = (True, False, True)
        self.facts = [TM.lt(ZERO, self.p10(self.lo)), TM.lt(self.p10(self.lo), self.p10(self.hi))]
        for k, h in enumerate(self.h):
            I.preset_attrs[h, 'is_subhalo'] = TRUE if self.sub[k] else FALSE
            for a in ('mass', 'x', 'y', 'z', 'c', 'bound_mass', 'time_since_infall'):
                I.preset_attrs[h, a] = S.sym('%s_%d' % (a, k))
            self.facts.append(TM.lt(ZERO, S.sym('mass_%d' % k)))
            I.preset_attrs[h, 'params_physical'] = S.py({'r_trunc_kpc': S.sym('rt_%d' % k), 'rs': S.sym('rs_%d' % k), 'rhos': S.sym('rhos_%d' % k), 'r200': S.sym('r200_%d' % k)})
            m = S.sym('mass_%d' % k)
            if inside[k] == 'in':
                self.facts += [TM.lt(self.p10(self.lo), m), TM.lt(m, self.p10(self.hi))]
            elif inside[k] == 'low':
                self.facts += [TM.lt(m, self.p10(self.lo)), TM.lt(m, self.p10(self.hi))]
            else:
                self.facts += [TM.lt(self.p10(self.hi), m), TM.lt(self.p10(self.lo), m)]
        I.preset_attrs[self.real, 'masses'] = arrays.build(I, [(TRUE, S.sym('mass_%d' % k)) for k in range(3)], S.st)
        for f in self.facts:
            S.st.assume(f)

    def p10(self, x):
        return TM.power(num(10), x)

    def call(self, fi, args, kwargs, st, node):
        if fi.name == 'realization_at_z':
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, args))
            d.update(dict(kwargs))
            self.atz.append({k: self.I.reify(v, st) for k, v in d.items()})
            o = self.S.sym('ATZ%d' % (len(self.atz) - 1))
            self.I.preset_attrs[o, 'masses'] = arrays.build(self.I, [(TRUE, self.S.sym('mass_1'))], st)
            return mk('tup', o, NONE)
        if fi.name == 'multiplane_convergence':
            pn = [a.arg for a in fi.node.args.args]
            d = dict(zip(pn, args))
            d.update(dict(kwargs))
            self.conv.append({k: self.I.reify(v, st) for k, v in d.items()})
            return mk('tup', arrays.build(self.I, [(TRUE, self.S.sym('kap%d' % i)) for i in range(2)], st), *[self.S.sym(n) for n in ('LMF', 'KWF', 'LMM', 'KWM')])
        return None

    def ext(self, name, args, kwargs, st):
        I, S = self.I, self.S
        short = name.split('.')[-1]
        if short in ('histogram', 'histogram2d', 'azimuthal_average'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            kw = dict(kw)
            if short == 'azimuthal_average':
                self.az.append(I.reify(pos[0], st))
                return mk('tup', arrays.build(I, [(TRUE, S.sym('prof%d' % i)) for i in range(2)], st), arrays.build(I, [(TRUE, S.sym('rbin%d' % i)) for i in range(2)], st))
            names = ('a', 'bins', 'range', 'density', 'weights') if short == 'histogram' else ('x', 'y', 'bins', 'range')
            d = dict(zip(names, pos))
            d.update(kw)
            saved, S.st = S.st, st
            try:
                data = [kept_(self, d[k]) for k in ('a', 'x', 'y') if k in d]
            finally:
                S.st = saved
            n = len(self.hists)
            self.hists.append((short, data, {k: I.reify(v, st) for k, v in d.items()}))
            if short == 'histogram':
                b = arrays.build(I, [(TRUE, S.sym('edge%d' % i)) for i in range(3)], st)
                return mk('tup', arrays.build(I, [(TRUE, S.sym('count%d' % i)) for i in range(2)], st), b)
            return mk('tup', S.sym('H2D'), S.sym('BX'), S.sym('BY'))
        if short == 'logspace' or short == 'linspace':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('start', 'stop', 'num'), pos), **dict(kw))
            self.bins.append((short, {k: I.reify(v, st) for k, v in d.items()}))
            if short == 'logspace' and self.bins[-1][1].get('num') is num(2):
                return arrays.build(I, [(TRUE, self.p10(self.bins[-1][1][q])) for q in ('start', 'stop')], st)
            return None
        if short in ('median', 'std') and name.startswith('numpy'):
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            if 'axis' in dict(kw) or len(pos) > 1:
                return None
            saved, S.st = S.st, st
            try:
                d = kept_(self, pos[0])
            finally:
                S.st = saved
            if d is None:
                return None
            self.stats.append((short, d))
            return S.sym('%s%d' % (short, len(self.stats) - 1))
        if name == 'numpy.random.randint':
            pos, star, kw, _ = I.expand_args(args, kwargs, st)
            d = dict(zip(('low', 'high', 'size'), pos), **dict(kw))
            if 'high' not in d:
                d['low'], d['high'] = ZERO, d.get('low', NONE)
            self.resampled.append({k: I.reify(v, st) for k, v in d.items()})
            return arrays.build(I, [(TRUE, num(1)), (TRUE, num(0))], st)
        return None

    def ometh(self, r, st):
        if r.op == 'meth' and r.args[0] is self.ax:
            k = list(r.args[3].args)
            self.plots.append((r.args[1], list(r.args[2].args), dict(zip(k[::2], k[1::2]))))
            return NONE
        return None

    def data(self, t):
        """the entries of a reified series under the facts"""
        if t is None:
            return None
        if t.op == 'arr':
            t = t.args[0]
        if t.op == 'call' and t.args[0] in ('np.array', 'numpy.array'):
            t = t.args[1].args[0]
        t = decide.simp(t, dict(p29_facts(self)), {})
        if t.op != 'seq':
            return None
        out = []
        for s in t.args:
            if s.op == 'item':
                out.append(s.args[0])
            elif s.op == 'when':
                c = p29.settle(self, s.args[0], *self.facts)
                if c not in (TRUE, FALSE):
                    return None
                if c is TRUE:
                    sub_ = self.data(mk('seq', *s.args[1:])) if s.args[1].op in ('item', 'when') else None
                    if sub_ is None:
                        return None
                    out += sub_
            else:
                return None
        return out


def p29_facts(R):
    from . import p28
    return p28.facts(list(R.S.st.pc) + list(R.facts))


def kept_(R, v):
    return kept(R, v, *R.facts)


REGIMES = (('in', 'in', 'in'), ('in', 'in', 'low'), ('high', 'in', 'in'), ('in', 'low', 'in'))


def call(R, f, **kw):
    fi = program().func(PR + f)
    names = [a.arg for a in fi.node.args.args]
    kk = dict(kw, ax=R.ax)
    for a, v in (('log_mlow', R.lo), ('log_mhigh', R.hi), ('log_m_low', R.lo), ('log_m_high', R.hi)):
        if a in names:
            kk[a] = v
    return R.S.call(PR + f, R.real, **{k: v for k, v in kk.items() if k in names or k in kw})


def drawn(R, kind):
    return [(a, k) for nm, a, k in R.plots if nm == kind]


def series(ctx, key, got, want, w, rule):
    """the data of a plot, halo by halo and in one order"""
    if any(g is None for g in got):
        return und(ctx, key, 'the data were not enumerated', w)
    n = [len(g) for g in got]
    m = len(want[0]) if want else 0
    if any(x != m for x in n):
        return viol(ctx, key, '%s values where %d halos are selected' % (n, m), w, rule)
    if len(got) > 1 or m < 2:
        left = [tuple(x[i] for x in want) for i in range(m)]
        rows = [tuple(g[i] for g in got) for i in range(m)]
        # any order, as long as the series keep the same one
        for r in rows:
            hit = [l for l in left if all(a is b for a, b in zip(l, r))]
            if hit:
                left.remove(hit[0])
            else:
                for a, b in zip(r, left[0]):
                    ctx.equal(key, a, b, w, rule)
                left.pop(0)
        if not left:
            ctx.ok(key, w, rule)
        return
    rest = list(want[0])
    for x in got[0]:
        hit = [y for y in rest if x is y]
        if hit:
            rest.remove(hit[0])
    if rest:
        for x, y in zip(got[0], want[0]):
            ctx.equal(key, x, y, w, rule)
    else:
        ctx.ok(key, w, rule)


def q_(k):
    return lambda a: mk('sym', '%s_%d' % (a, k))


def scatter(ctx):
    for f, xq, yq, ranged in (('plot_subhalo_bound_mass', 'mass', 'bound_mass', False), ('plot_subhalo_concentration_versus_bound_mass', 'c', 'bound_mass/mass', True),
                              ('plot_subhalo_infall_time_versus_bound_mass', 'time_since_infall', 'bound_mass/mass', True)):
        w = fn(f)
        for reg in REGIMES:
            R = Rig(reg)
            S = R.S
            key = '%s/%s' % (f[5:], ' '.join(reg))
            with guarded(ctx, key):
                call(R, f)
                ctx.saw(S)
                d = drawn(R, 'scatter') or drawn(R, 'plot')
                if len(drawn(R, 'scatter')) != 1 or len(d[0][0]) < 2:
                    und(ctx, key, 'no single scatter plot', w)
                    continue
                sel = [k for k in (0, 2) if reg[k] == 'in' or not ranged]
                val = lambda src, k: S.r(S.expr(src, {a: S.sym('%s_%d' % (a, k)) for a in ('mass', 'bound_mass', 'c', 'time_since_infall')}))
                got = [R.data(x) for x in d[0][0][:2]]
                if not ranged and got[0] is not None and len(got[0]) < 2:
                    sel = [k for k in (0, 2) if reg[k] == 'in']      # halos beyond the axis may be left out
                series(ctx, key, got, [[val(s, k) for k in sel] for s in (xq, yq)], w, 'the plot shows every subhalo%s once, %s against %s' % (' with a mass in the range' if ranged else '', yq, xq))


def histograms(ctx):
    for f, src, kw, field in (('plot_bound_mass_histogram', 'np.log10(bound_mass/mass)', {}, False), ('plot_truncation_radius_histogram', 'np.log10(rt/rs)', {}, False),
                              ('plot_truncation_radius_histogram', 'np.log10(rt/rs)', dict(subhalos_only=False), True)):
        w = fn(f)
        for reg in REGIMES:
            R = Rig(reg)
            S = R.S
            key = '%s/%s%s' % (f[5:], 'all halos/' if field else '', ' '.join(reg))
            with guarded(ctx, key):
                call(R, f, **kw)
                ctx.saw(S)
                d = drawn(R, 'hist')
                if len(d) != 1:
                    und(ctx, key, 'no single histogram', w)
                    continue
                sel = [k for k in range(3) if reg[k] == 'in' and (field or k != 1)]
                want = []
                for k in sel:
                    env = {a: S.sym('%s_%d' % (a, k)) for a in ('mass', 'bound_mass', 'rt', 'rs')}
                    want.append(S.r(S.expr(src, env)))
                series(ctx, key, [R.data(d[0][0][0])], [want], w, 'the histogram counts every %s with a mass in the range once' % ('halo' if field else 'subhalo'))


def spatial(ctx):
    f = 'plot_subhalo_spatial_distribution'
    w = fn(f)
    for reg in REGIMES:
        R = Rig(reg)
        S = R.S
        key = 'spatial distribution/%s' % ' '.join(reg)
        mx = S.sym('MAX')
        S.st.assume(TM.lt(ZERO, mx))
        with guarded(ctx, key):
            call(R, f, max_range_arcsec=mx)
            ctx.saw(S)
            h = [q for q in R.hists if q[0] == 'histogram2d']
            p = drawn(R, 'plot')
            if len(h) != 1 or len(p) != 1 or R.az != [S.sym('H2D')]:
                und(ctx, key, 'no single map of positions', w)
                continue
            sel = [k for k in (0, 2) if reg[k] == 'in']
            series(ctx, key, h[0][1], [[S.sym('%s_%d' % (a, k)) for k in sel] for a in 'xy'], w, 'the map counts every subhalo with a mass in the range at its own position')
            series(ctx, key + '/profile', [R.data(q) for q in p[0][0][:2]], [[S.r(S.expr('r*m/2', dict(r=S.sym('rbin%d' % i), m=mx))) for i in range(2)], [S.sym('prof%d' % i) for i in range(2)]], w, 'the profile is drawn at its radii in arcsec')


def mass_function(ctx):
    f = 'plot_halo_mass_function'
    w = fn(f)
    half, top = Fraction(1, 2), Fraction(3, 4)
    for name, z in (('all', None), ('one redshift', half), ('interval', (half, top))):
        for zr in ((('in', 'in', 'in'),) if name != 'interval' else (('in', 'in', 'in'), ('in', 'below', 'in'), ('in', 'above', 'in'), ('in', 'at', 'in'))):
            R = Rig(('in', 'in', 'in'))
            S = R.S
            key = 'mass function/%s%s' % (name, '/' + zr[1] if name == 'interval' else '')
            zv = None if z is None else num(z) if not isinstance(z, tuple) else S.py([num(q) for q in z])
            facts = []
            for k, q in enumerate(zr):
                zz = S.sym('z_%d' % k)
                if q == 'at':
                    S.I.preset_attrs[R.h[k], 'z'] = num(half)
                    continue
                facts += [TM.lt(num(half), zz) if q != 'below' else TM.lt(zz, num(half)), TM.lt(zz, num(top)) if q != 'above' else TM.lt(num(top), zz)]
            for q in facts:
                S.st.assume(q)
            R.facts += facts
            with guarded(ctx, key):
                call(R, f, nbins=num(7), **(dict(z_eval=zv) if z is not None else {}))
                ctx.saw(S)
                h, p = R.hists, drawn(R, 'plot')
                if len(h) != 1 or len(p) != 1:
                    und(ctx, key, 'no single histogram', w)
                    continue
                if name == 'one redshift':
                    ctx.require(key + '/plane', len(R.atz) == 1 and num(half) in R.atz[0].values() and R.real in R.atz[0].values() if R.atz else None, w, 'the halos of another plane', 'only the halos at the redshift are counted')
                    if not R.atz:
                        continue
                sel = (0, 1, 2) if z is None else (1,) if name == 'one redshift' else tuple(k for k in (1,) if zr[k] in ('in', 'at'))
                series(ctx, key, h[0][1], [[S.sym('mass_%d' % k) for k in sel]], w, 'the mass function counts %s' % dict(all='every halo', interval='the field halos with a redshift in the interval').get(name, 'the halos at the redshift'))
                b = [x for sh, x in R.bins if sh == 'logspace']
                if len(b) == 1:
                    for k, x in (('start', R.lo), ('stop', R.hi)):
                        ctx.equal(key + '/bins/' + k, b[0].get(k, NONE), x, w, 'the bins cover the mass range')
                else:
                    und(ctx, key + '/bins', 'no logarithmic bins', w)
                series(ctx, key + '/curve', [R.data(q) for q in p[0][0][:2]], [[S.sym('edge%d' % i) for i in range(2)], [S.sym('count%d' % i) for i in range(2)]], w, 'the counts are drawn at the lower edges of their bins')


def bound_function(ctx):
    f = 'plot_subhalo_mass_functon'
    w = fn(f)
    for bound in (False, True):
        R = Rig(('in', 'in', 'in'))
        S = R.S
        key = 'subhalo mass function/%s' % ('bound' if bound else 'infall')
        for k in range(3):
            S.st.assume(TM.lt(ZERO, S.sym('bound_mass_%d' % k)))
        with guarded(ctx, key):
            call(R, f, bound_mass_function=bound, n_bootstrap=num(1), nbins=num(3))
            ctx.saw(S)
            if not R.hists or not R.resampled:
                und(ctx, key, 'no histogram', w)
                continue
            a = 'bound_mass' if bound else 'mass'
            series(ctx, key, R.hists[0][1], [[S.r(S.expr('np.log10(m)', dict(m=S.sym('%s_%d' % (a, k))))) for k in (0, 2)]], w, 'the mass function counts the %s masses of subhalos' % a)
            r = R.resampled[0]
            ctx.equal(key + '/resampling', r.get('size', NONE), num(2), w, 'a bootstrap sample has as many halos as the population')
            ctx.equal(key + '/resampled from', r.get('high', NONE) if r.get('low') is ZERO else unknown('low'), num(2), w, 'a bootstrap sample is drawn from the whole population')
            rg = R.hists[0][2].get('range')
            if rg is not None and rg.op == 'tup':
                for i, x in enumerate((R.lo, R.hi)):
                    ctx.equal(key + '/range/%d' % i, rg.args[i], x, w, 'the bins cover the mass range')
            else:
                und(ctx, key + '/range', 'no range', w)


def concentrations(ctx):
    f = 'plot_concentration_mass_relation'
    w = fn(f)
    half, top = Fraction(1, 2), Fraction(3, 4)
    for name in ('z_lens', 'interval'):
        for reg in REGIMES:
            R = Rig(reg)
            S = R.S
            key = 'concentration-mass relation/%s/%s' % (name, ' '.join(reg))
            facts = []
            for k in range(3):
                zz = S.sym('z_%d' % k)
                facts += [TM.lt(num(half), zz), TM.lt(zz, num(top))] if k < 2 else [TM.lt(num(top), zz), TM.lt(num(half), zz)]
            for q in facts:
                S.st.assume(q)
            R.facts += facts
            with guarded(ctx, key):
                call(R, f, z_eval='z_lens' if name == 'z_lens' else S.py([num(half), num(top)]), nbins=num(1), show_errorbars=True)
                ctx.saw(S)
                sel = [k for k in ((0, 2) if name == 'z_lens' else (0, 1)) if reg[k] == 'in']
                med = [(i, d) for i, (n, d) in enumerate(R.stats) if n == 'median']
                std = [(i, d) for i, (n, d) in enumerate(R.stats) if n == 'std']
                p, e = drawn(R, 'plot'), drawn(R, 'errorbar')
                if len(med) != 1 or len(p) != 1:
                    und(ctx, key, 'no single median', w)
                    continue
                rule = 'the median concentration of a mass bin is that of the %s whose mass lies in the bin' % ('subhalos' if name == 'z_lens' else 'halos with a redshift in the interval')
                series(ctx, key, [med[0][1]], [[S.sym('c_%d' % k) for k in sel]], w, rule)
                series(ctx, key + '/curve', [R.data(q) for q in p[0][0][:2]], [[R.p10(R.lo)], [S.sym('median%d' % med[0][0])]], w, 'the median is drawn at the lower edge of its bin')
                if len(std) == 1 and len(e) == 1:
                    series(ctx, key + '/scatter', [std[0][1]], [[S.sym('c_%d' % k) for k in sel]], w, rule)
                    series(ctx, key + '/error bar', [R.data(q) for q in e[0][0][:2]] + [R.data(e[0][1].get('yerr'))], [[R.p10(R.lo)], [S.sym('median%d' % med[0][0])], [S.sym('std%d' % std[0][0])]], w, 'the error bar is the scatter of its own bin')
                else:
                    und(ctx, key + '/error bar', 'no error bars', w)


def convergence(ctx):
    f = 'plot_multiplane_convergence'
    w = fn(f)
    for mean in (False, True):
        R = Rig(('in', 'in', 'in'))
        S = R.S
        key = 'convergence/%s' % ('less the mean' if mean else 'plain')
        kw = dict(npix=S.sym('NPIX'), cone_opening_angle_arcsec=S.sym('ANG'), lens_model_list_macro=S.sym('MLIST'), kwargs_lens_macro=S.sym('MKW'), redshift_list_macro=S.sym('MZ'))
        with guarded(ctx, key):
            call(R, f, subtract_mean_kappa=mean, show_critical_curve=False, vmin_max=S.sym('VM'), **kw)
            ctx.saw(S)
            im = drawn(R, 'imshow')
            if len(R.conv) != 1 or len(im) != 1:
                und(ctx, key, 'no single map', w)
                continue
            for k, v in dict(kw, realization=R.real).items():
                ctx.equal(key + '/' + k, R.conv[0].get(k, NONE), v, w, 'the map is that of the realization and lens model asked for')
            a, k = im[0]
            kap = [S.sym('kap%d' % i) for i in range(2)]
            want = [S.r(S.expr('k - (a + b)/2', dict(k=q, a=kap[0], b=kap[1]))) for q in kap] if mean else kap
            got = R.data(a[0])
            if got is None or len(got) != 2:
                und(ctx, key, 'the map was not enumerated', w)
            else:
                for i in range(2):
                    ctx.equal(key + '/value %d' % i, got[i], want[i], w, 'the convergence is drawn%s' % (' less its mean' if mean else ''))
            ext = R.data(k['extent']) if 'extent' in k else None
            hv = S.r(S.expr('a/2', dict(a=S.sym('ANG'))))
            ctx.require(key + '/extent', None if ext is None or len(ext) != 4 else ext == [TM.neg(hv), hv, TM.neg(hv), hv], w, '', 'the axes span the opening angle')
            ctx.require(key + '/orientation', None if 'origin' not in k else k['origin'] is const('lower'), w, '', 'rows of the map increase upwards')


def run(ctx):
    scatter(ctx)
    histograms(ctx)
    spatial(ctx)
    mass_function(ctx)
    bound_function(ctx)
    concentrations(ctx)
    convergence(ctx)
    lightcone(ctx)
    coordinates(ctx)


def lightcone(ctx):
    """Realization.plot: halos at their comoving positions, rays along their interpolated angles"""
    from . import p30
    fi = program().func('pyHalo.single_realization:Realization.plot')
    if fi is None:
        raise Broken('Realization.plot not found')
    w = where_fn(fi)
    for rays in (False, True):
        R = p30.Rig(('sub', 'field', 'field', 'field'), ('l0', 'l1', 'l2', 'l3'), (0.5, 0.5, 0.25, 1), ())
        S, I = R.S, R.S.I
        plots, dist = [], {}
        ax = S.sym('AX')

        def ometh(r, st):
            if r.args[0] is ax:
                k = list(r.args[3].args)
                plots.append((r.args[1], list(r.args[2].args), dict(zip(k[::2], k[1::2]))))
                return NONE
            if r.args[1] == '__call__' and r.args[0] in xs + ys and r.args[2].args:
                d = p15.seqs(r.args[2].args[0])
                at = lambda q: mk('call', '_at', mk('args', r.args[0], q), mk('kw'))
                return at(r.args[2].args[0]) if d is None else arrays.build(I, [(TRUE, at(q)) for q in d], st)
            return None

        def ext(name, args, kwargs, st):
            if name == 'numpy.unique':
                es = arrays.entries(I, args[0], st)
                if es is not None and all(c is TRUE and q.op == 'num' for c, q in es) and len(args) == 1 and not dict(kwargs):
                    return arrays.build(I, [(TRUE, num(q)) for q in sorted({q.args[0] for c, q in es})], st)
            if name == 'numpy.linspace':
                pos, star, kw, _ = I.expand_args(args, kwargs, st)
                if len(pos) == 3 and pos[2].op == 'num' and pos[2].args[0] > 12:
                    return arrays.build(I, [(TRUE, num(Fraction(1, 100))), (TRUE, I.reify(pos[1], st))], st)
            return None
        I.on_ometh, I.on_ext = ometh, ext
        xs, ys = [[S.sym('ray%s%d' % (c, i)) for i in range(2)] for c in 'xy']
        with guarded(ctx, 'light cone'):
            kw = dict(ray_interp_x_list=S.py(list(xs)), ray_interp_y_list=S.py(list(ys))) if rays else {}
            S.meth(R.par, 'plot', ax, **kw)
            ctx.saw(S)
        e = dict(LC=R.lc)
        dc = lambda z: S.r(S.expr('LC.cosmo.D_C_transverse(z)', dict(e, z=z)))
        if not rays:
            sc = [(p, k) for n, p, k in plots if n == 'scatter']
            cols = [p15.seqs(q) for q in sc[0][0]] if len(sc) == 1 and len(sc[0][0]) == 3 else []
            if len(cols) != 3 or any(c is None for c in cols):
                und(ctx, 'light cone/halos', 'the plotted halos were not enumerated: %s' % [(n, len(p)) for n, p, k in plots][:6], w)
                continue
            want = set()
            for i, h in enumerate(R.halos):
                z = S.r(S.attr(h, 'z'))
                d = dc(z)
                want.add((i, d, S.r(S.expr('x*d/206265', dict(x=S.attr(h, 'x'), d=d))), S.r(S.expr('x*d/206265', dict(x=S.attr(h, 'y'), d=d)))))
            got = list(zip(*cols))
            rule = 'every halo is drawn once, at the comoving distance of its redshift and the transverse comoving position it has there'
            ctx.require('light cone/number', len(got) == len(R.halos), w, '%d halos drawn of %d' % (len(got), len(R.halos)), rule)
            for i, d, x, y in sorted(want):
                hx = S.r(S.attr(R.halos[i], 'x'))
                mine = [g for g in got if any(q is hx for q in TM.walk(g[1])) or any(q is hx for q in TM.walk(g[2]))]
                if len(mine) != 1:
                    viol(ctx, 'light cone/halo %d' % i, 'drawn %d times' % len(mine), w, rule)
                    continue
                for n, a, b in zip(('distance', 'x', 'y'), mine[0], (d, x, y)):
                    ctx.equal('light cone/halo %d/%s' % (i, n), a, b, w, rule)
        else:
            ln = [p for n, p, k in plots if n == 'plot']
            rule = 'each ray is drawn at its interpolated angle times the distance, x and y of the same ray'
            ctx.require('light cone/rays', len(ln) == 2 if plots else None, w, '%d rays drawn of 2' % len(ln), rule)
            zs = [num(Fraction(1, 100)), S.r(S.attr(R.lc, 'z_source'))]
            for i, p in enumerate(ln[:2]):
                cols = [p15.seqs(q) for q in p]
                if len(cols) != 3 or any(c is None for c in cols):
                    und(ctx, 'light cone/ray %d' % i, 'the ray was not enumerated: %s' % [TM.show(q)[:200] for q in p], w)
                    continue
                for j, z in enumerate(zs):
                    ctx.equal('light cone/ray %d/distance %d' % (i, j), cols[0][j], dc(z), w, rule)
                    for n, c, r in (('x', 1, xs[i]), ('y', 2, ys[i])):
                        ctx.equal('light cone/ray %d/%s %d' % (i, n, j), cols[c][j], S.r(S.expr('d*f/206265', dict(d=dc(z), f=mk('call', '_at', mk('args', r, dc(z)), mk('kw'))))), w, rule)


def coordinates(ctx):
    """the coordinates reported for plotting"""
    from . import p30
    fi = program().func('pyHalo.single_realization:Realization.halo_comoving_coordinates')
    if fi is None:
        return
    w = where_fn(fi)
    R = p30.Rig(('sub', 'field', 'field'), ('l0', 'l1', 'l2'), (0.5, 0.25, 1), ())
    S = R.S
    v = S.meth(R.par, 'halo_comoving_coordinates')
    ctx.saw(S)
    v = S.I.simplify_value(v, S.st)
    cols = [p30.entries(R, q) for q in v.args] if v.op == 'tup' else []
    if len(cols) != 4 or any(c is None or any(g is not TRUE for g, _ in c) for c in cols):
        return und(ctx, 'coordinates', 'four columns were not found: %s' % TM.show(S.r(v), 5)[:200], w)
    rule = 'the reported coordinates, masses and redshifts belong to one halo each, in order'
    ctx.require('coordinates/number', all(len(c) == 3 for c in cols), w, '%s entries for three halos' % [len(c) for c in cols], rule)
    e = dict(LC=R.lc)
    for i, h in enumerate(R.halos):
        if any(i >= len(c) for c in cols):
            continue
        at = [S.r(c[i][1]) for c in cols]
        for n, t in zip('xy', at):
            ctx.one_of('coordinates/%s %d' % (n, i), t, [S.r(S.expr('LC.cosmo.%s(z)*q%s' % (d, u), dict(e, z=S.attr(h, 'z'), q=S.attr(h, n)))) for d in ('D_C_z', 'D_C_transverse') for u in ('', '*LC.cosmo.arcsec', '/206265')], w, rule)
        ctx.equal('coordinates/mass %d' % i, at[2], S.r(S.expr('np.log10(m)', dict(m=S.attr(h, 'mass')))), w, rule)
        ctx.equal('coordinates/z %d' % i, at[3], S.r(S.attr(h, 'z')), w, rule)
