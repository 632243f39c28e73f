"""P03 realization operations neither lose nor duplicate halos."""
from .member import *
from .halos import *
from .p01 import RZ, EX, parent
from . import p02, p04

EXPLAIN = ("Operations are evaluated on realizations of two symbolic halos with distinct tags: conversions must return exactly one object with each tag on "
           "every path, splits exactly one part, filters only given objects, joins of overlapping, disjoint and empty realizations the union of tags, "
           "and operations that add objects must return the joining of the original realization with the new objects (join itself is decided separately). "
           "Realizations built from arrays must give each halo the properties of its own entry, and report the properties of their halos in order.")
FLOOR = 60
TAGS = 'AB'


def sess(opaque=()):
    return Session(Config(opaque=LENS + ['_solve_for_core_radius', 'log_derivative_inverse', 'compute_r_te_and_f_t'] + list(opaque), opaque_classes=['LensCosmo', 'Cosmology', 'Geometry'],
                          draws=(), arrays=True, elementwise=p04.ELEM + ['rx', 'ry']))


def halo(S, tag, sub, name=None):
    h = make(S, S.prog.cls(HM + p02.TNFW[sub]), sub, tag=name or tag)
    S.I.set_attr(h, 'unique_tag', const(tag), S.st, None)
    return h


def tagsof(ctx, S, v):
    """{tag: [guards]} of a realization or list of halos, or None"""
    lst = S.attr(v, 'halos') if is_inst(S, v, 'Realization') else v
    es = entries(S, lst)
    if es is None:
        return None
    out = {}
    for c, x in es:
        for y, g in gated(S, x, c):
            if not is_inst(S, y, 'Halo'):
                return None
            for t, g2 in gated(S, S.attr(y, 'unique_tag'), g):
                if t.op != 'const':
                    return None
                out.setdefault(t.args[0], []).append(g2)
    return out


def exactly(ctx, S, v, key, w, tags=TAGS, pc=None):
    """one object of each tag in every realization that can be the result"""
    for i, (x, g0) in enumerate(gated(S, v)):
        if x.op == 'bottom':
            ctx.violation(key, w, 'every path raises an exception', 'the operation returns a realization')
            continue
        with S.under(g0):
            if x.op == 'tup':
                continue
            m = tagsof(ctx, S, x)
            if m is None:
                ctx.undetermined(key, w, 'result list not recognised')
                continue
            pc = band(*S.st.pc)
            for t in tags:
                gs = m.get(t, [])
                ctx.equal('%s:%s:kept' % (key, t), band(pc, bnot(anyof(gs))), FALSE, w, 'every halo is in the result')
                ctx.equal('%s:%s:once' % (key, t), band(pc, twice(gs)), FALSE, w, 'no halo is in the result twice')
            for t in set(m) - set(tags):
                ctx.equal('%s:%s:new' % (key, t), band(pc, anyof(m[t])), FALSE, w, 'nothing else is in the result')


def convert(ctx, key, name, src, sub, w):
    S = sess()
    H = [halo(S, t, s) for t, s in zip(TAGS, sub)]
    par = parent(S, S.py(H))
    E = S.new(S.prog.cls(EX), par)
    env = dict(E=E, R=par, h=H[0], h2=H[1], **{x: S.sym(x) for x in p02.SYMS + ('mt', 'rx', 'ry', 'zm')})
    for x in ('rx', 'ry'):
        S.st.assume(bnot(TM.eq(env[x], NONE)))
    v = S.expr(src, env)
    exactly(ctx, S, v, key, w)
    exactly(ctx, S, par, key + ':original', w)
    ctx.saw(S)


def run(ctx):
    P = program()
    rz, ex = P.cls(RZ), P.cls(EX)
    if rz is None or ex is None:
        raise Broken('Realization / RealizationExtensions not found')

    def w(c, n):
        fi = P.lookup(c, n)
        if fi is None:
            raise Broken('%s.%s not found' % (c.name, n))
        return where_fn(fi)

    conv = {}
    for label, src in p02.conversions().items():
        n = label.split(':')[0]
        if n == 'toSIDM_single_halo':
            continue
        if n == 'toSIDM_halo_list':
            src = src.replace('[h]', '[h, h2]')
        conv[label] = (n, src)
        if '([0]' in src:
            conv[label + ':second'] = (n, src.replace('([0]', '([1]'))
            conv[label + ':both'] = (n, src.replace('([0]', '([0, 1]'))
    quick = ctx.tier == 'quick'
    for g in ('GNFW', 'SIS'):
        conv['SIS_injection:' + g] = ('SIS_injection', "E.SIS_injection(mt, '%s')" % g)
    for label, (n, src) in conv.items():
        for sub in ((TRUE, FALSE),) if quick else ((TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE), (FALSE, FALSE)):
            ctx.guard(label, convert, ctx, label + ('' if quick else ':' + ''.join('s' if s is TRUE else 'f' for s in sub)), n, src, sub, w(ex, n))
    ctx.guard('shift', convert, ctx, 'shift_background_to_source', 'shift', 'R.shift_background_to_source(rx, ry, zm)', (TRUE, FALSE), w(rz, 'shift_background_to_source'))

    # selections
    def subset(key, src, zs=None, name=None):
        S, H, R, env = p04.world(zs)
        v = S.expr(src, env)
        pc = band(*S.st.pc)
        m, other = membership(S, S.attr(v, 'halos') if is_inst(S, v, 'Realization') else v, H)
        ww = w(rz, name)
        if m is None or any(not is_inst(S, y, 'Halo') for _, y in other):
            return ctx.undetermined(key, ww, 'result list not recognised')
        for g, y in other:
            ctx.equal('%s:given' % key, band(pc, g), FALSE, ww, 'only objects of the original realization are returned')
        for h, t in zip(H, TAGS):
            ctx.equal('%s:%s:once' % (key, t), band(pc, twice(m[h])), FALSE, ww, 'no halo is in the result twice')
        ctx.saw(S)
    FILT = "R.filter(a, lm, [x0, x1], [y0, y1])"
    for lab, zs in (('lower', (0.3, 0.5)), ('upper', (0.5, 0.3)), ('same', (0.4, 0.4))):
        ctx.guard('filter', subset, 'filter:' + lab, FILT, zs, 'filter')
    ctx.guard('filter_subhalos', subset, 'filter_subhalos', 'R.filter_subhalos(a, lm, [x0, x1], [y0, y1])', None, 'filter_subhalos')
    ctx.guard('filter_bound_mass', subset, 'filter_bound_mass', 'R.filter_bound_mass(mb)', None, 'filter_bound_mass')
    ctx.guard('halos_at_z', subset, 'halos_at_z', 'R.halos_at_z(z0)[0]', None, 'halos_at_z')

    def split():
        S, H, R, env = p04.world()
        v = S.expr('R.split_at_z(z0)', env)
        pc = band(*S.st.pc)
        ww = w(rz, 'split_at_z')
        ms = []
        for i in (0, 1):
            m, other = membership(S, S.attr(S.I.get_item(v, num(i), S.st), 'halos'), H)
            if m is None or other:
                return ctx.undetermined('split_at_z', ww, 'result list not recognised')
            ms.append(m)
        for h, t in zip(H, TAGS):
            ctx.equal('split_at_z:%s:covered' % t, band(pc, anyof(ms[0][h] + ms[1][h])), pc, ww, 'every halo is in one of the parts')
            ctx.equal('split_at_z:%s:once' % t, band(pc, twice(ms[0][h] + ms[1][h])), FALSE, ww, 'no halo is in both parts')
        for a, b, n in (('subhalos', 'field_halos', 'status'),):
            ma, oa = membership(S, S.attr(R, a), H)
            mb, ob = membership(S, S.attr(R, b), H)
            if ma is None or mb is None or oa or ob:
                ctx.undetermined('partition:' + n, ww, 'list not recognised')
                continue
            for h, t in zip(H, TAGS):
                ctx.equal('partition:%s:%s' % (n, t), anyof(ma[h] + mb[h]), TRUE, ww, 'every halo is a subhalo or a field halo')
                ctx.equal('partition:%s:%s:once' % (n, t), twice(ma[h] + mb[h]), FALSE, ww, 'no halo is both')
        ctx.saw(S)
    ctx.guard('split', split)

    # joining, on every small combination of tags
    def joins():
        ww = w(rz, 'join')
        for left, right in (('AB', 'BC'), ('BC', 'AB'), ('AB', ''), ('', 'AB'), ('A', 'B'), ('AB', 'AB'), ('ABC', 'B'), ('B', 'ABC'), ('A', 'BCA'), ('AB', 'CD')):
            for jr in (TRUE, FALSE):
                S = sess()
                L = [halo(S, t, TRUE, 'l' + t) for t in left]
                R = [halo(S, t, TRUE, 'r' + t) for t in right]
                a, b = parent(S, S.py(L)), parent(S, S.py(R))
                v = S.meth(a, 'join', b, jr)
                exactly(ctx, S, v, 'join:%s+%s:%s' % (left, right, 'both' if jr is TRUE else 'own'), ww, sorted(set(left + right)))
                exactly(ctx, S, a, 'join:%s+%s:left' % (left, right), ww, left)
                exactly(ctx, S, b, 'join:%s+%s:right' % (left, right), ww, right)
                ctx.saw(S)
        # the equality of realizations is the equality of their tags
    ctx.guard('join', joins)

    # operations that add objects
    def operands(x):
        if x.op == 'meth' and x.args[1] == 'join':
            return operands(x.args[0]) + [y for a in x.args[2].args for y in operands(a)]
        return [x]

    def hastags(x, known):
        if x.op != 'inst':
            return None
        d = dict(zip(x.args[1::2], x.args[2::2]))
        l = d.get('halos')
        l = as_list(l) if l is not None else None
        if l is None:
            return None
        out = set()
        for h in l:
            if h in known:
                out.add(known[h])
                continue
            t = dict(zip(h.args[1::2], h.args[2::2])).get('unique_tag') if h.op == 'inst' else None
            if t is not None and t.op == 'const':
                out.add(t.args[0])
        return out

    def adders(n):
        ww = w(ex, n)
        fi = P.lookup(ex, n)
        S = sess(['Realization.join'])
        H = [halo(S, t, TRUE) for t in TAGS]
        par = parent(S, S.py(H))
        E = S.new(ex, par)
        v = S.meth(E, n, *[S.sym(p) for p in fi.params[1:]])
        for i, (x, g) in enumerate(gated(S, v)):
            if x is par:
                ctx.ok('%s:kept' % n, ww)
                continue
            if is_inst(S, x, 'Realization'):
                m = tagsof(ctx, S, x)
                if m is not None and all(anyof(m.get(t, [])) is FALSE for t in TAGS):
                    ctx.violation('%s:kept' % n, ww, 'the result holds none of the halos of the original realization', 'every existing halo is kept')
                    continue
            if x.op != 'meth':
                ctx.undetermined('%s:kept' % n, ww, 'result not recognised: ' + TM.show(x, 2)[:100])
                continue
            known = {k: t for h, t in zip(H, TAGS) for k in (S.r(h), S.I.idents.get(h))}
            ops = [hastags(o, known) for o in operands(S.r(x))]
            if any(o is not None and set(TAGS) <= o for o in ops):
                ctx.ok('%s:kept' % n, ww)
            elif all(o is not None or op.op == 'inst' for o, op in zip(ops, operands(S.r(x)))):
                ctx.violation('%s:kept' % n, ww, 'no operand of the join holds the original halos', 'every existing halo is kept')
            else:
                ctx.undetermined('%s:kept' % n, ww, 'operands of the join not recognised')
        ctx.saw(S)
    for n in ('add_globular_clusters', 'add_ULDM_fluctuations', 'add_correlated_structure', 'add_primordial_black_holes'):
        ctx.guard(n, adders, n)

    # from arrays, and reported arrays
    FIELDS = (('mass', 'masses'), ('x', 'x'), ('y', 'y'), ('r3d', 'r3d'), ('z', 'redshifts'), ('is_subhalo', 'subhalo_flags'), ('unique_tag', '_halo_tags'), ('mdef', 'mdefs'))

    def arrays():
        ww = w(rz, '__init__')
        for mdef in ('NFW', 'TNFW', 'PT_MASS'):
            for sub in ((TRUE, FALSE), (FALSE, TRUE)):
                S = sess()
                cols = [[S.sym('%s%d' % (n, i)) for i in (0, 1)] for n in ('m', 'x', 'y', 'r', 'z')]
                lc = S.sym('LC', 'pyHalo.Halos.lens_cosmo:LensCosmo')
                R = S.new(rz, S.py(cols[0]), S.py(cols[1]), S.py(cols[2]), S.py(cols[3]), S.py([mdef, mdef]), S.py(cols[4]), S.py(list(sub)), lc,
                          kwargs_halo_model=S.sym('khm'), rendering_center_x=S.sym('cx'), rendering_center_y=S.sym('cy'))
                lab = 'from-arrays:%s:%s' % (mdef, 'sf' if sub[0] is TRUE else 'fs')
                for its, g in list_items(S, S.attr(R, 'halos')):
                    if its is None:
                        ctx.undetermined(lab, ww, 'halo list not recognised')
                        continue
                    if not ctx.require(lab + ':count', len(its) == 2, ww, '%d halos for two entries' % len(its), 'one halo per entry') and len(its) != 2:
                        continue
                    for i, h in enumerate(its):
                        for f, c in zip(('mass', 'x', 'y', 'r3d', 'z'), cols):
                            if mdef == 'PT_MASS' and f == 'r3d':
                                continue
                            ctx.equal('%s:%s%d' % (lab, f, i), S.r(S.attr(h, f)), c[i], ww, 'the halo has the %s of its own entry' % f)
                        if mdef != 'PT_MASS':
                            ctx.equal('%s:status%d' % (lab, i), S.r(S.attr(h, 'is_subhalo')), sub[i], ww, 'the halo has the status of its own entry')
                        ctx.equal('%s:cosmo%d' % (lab, i), S.r(S.attr(h, 'lens_cosmo')), lc, ww, 'the halo has the cosmology of the realization')
                    for f, a in FIELDS:
                        if not S.I.obj(S.st, R).fields.get(a):
                            continue
                        es = entries(S, S.attr(R, a))
                        if es is None or len(es) != 2:
                            ctx.undetermined('%s:array:%s' % (lab, a), ww, 'array not recognised')
                            continue
                        for i, h in enumerate(its):
                            ctx.equal('%s:array:%s%d' % (lab, a, i), S.r(es[i][1]), S.r(S.attr(h, f)), ww, 'entry i of the reported array is that of halo i')
                ctx.saw(S)
    ctx.guard('arrays', arrays)

    # equality of realizations
    def equal():
        ww = w(rz, '__eq__')
        for left, right in (('AB', 'AB'), ('AB', 'BA'), ('AB', 'A'), ('A', 'AB'), ('AB', 'BC'), ('A', 'B'), ('', 'A'), ('A', ''), ('', '')):
            S = sess()
            a, b = [parent(S, S.py([halo(S, t, TRUE, n + t) for t in ts])) for n, ts in (('l', left), ('r', right))]
            v = S.r(S.meth(a, '__eq__', b))
            if v not in (TRUE, FALSE):
                ctx.undetermined('equality:%s=%s' % (left or 'none', right or 'none'), ww, 'the comparison is not decided: %s' % str(v)[:80])
                continue
            ctx.equal('equality:%s=%s' % (left or 'none', right or 'none'), v, TRUE if set(left) == set(right) else FALSE, ww, 'realizations are equal exactly when they hold the same halos')
            ctx.saw(S)
    if P.lookup(rz, '__eq__') is not None:
        ctx.guard('equality', equal)

    # a single halo made by the user
    def single():
        ci = P.cls('pyHalo.single_realization:SingleHalo')
        if ci is None:
            return
        ww = w(ci, '__init__')
        for mdef in ('NFW', 'TNFW', 'PT_MASS'):
            for sub in (TRUE, FALSE):
                for given in (True, False):
                    S = sess()
                    n = ('m', 'x', 'y', 'z', 'zl', 'zs', 'r3d', 'ap', 'lc')
                    e = {k: S.sym(k) for k in n}
                    e['lc'] = S.sym('lc', 'pyHalo.Halos.lens_cosmo:LensCosmo')
                    if given:
                        S.st.assume(bnot(TM.eq(e['lc'], NONE)))
                    R = S.new(ci, e['m'], e['x'], e['y'], mdef, e['z'], e['zl'], e['zs'], r3d=e['r3d'], subhalo_flag=sub, kwargs_halo_model=S.sym('khm'), astropy_instance=e['ap'], **(dict(lens_cosmo=e['lc']) if given else {}))
                    lab = 'single:%s:%s:%s' % (mdef, 's' if sub is TRUE else 'f', 'given' if given else 'own')
                    its = [i for i, g in list_items(S, S.attr(R, 'halos'))]
                    if len(its) != 1 or its[0] is None:
                        ctx.undetermined(lab, ww, 'halo list not recognised')
                        continue
                    ctx.require(lab + ':count', len(its[0]) == 1, ww, '%d halos' % len(its[0]), 'exactly one halo')
                    for h in its[0][:1]:
                        for f, k in (('mass', 'm'), ('x', 'x'), ('y', 'y'), ('z', 'z')) + ((('r3d', 'r3d'),) if mdef != 'PT_MASS' else ()):
                            ctx.equal('%s:%s' % (lab, f), S.r(S.attr(h, f)), e[k], ww, 'the halo has the requested %s' % f)
                        if mdef != 'PT_MASS':
                            ctx.equal(lab + ':status', S.r(S.attr(h, 'is_subhalo')), sub, ww, 'the halo has the requested status')
                        lc = S.r(S.attr(h, 'lens_cosmo'))
                        if given:
                            ctx.equal(lab + ':cosmo', lc, e['lc'], ww, 'the given lens cosmology is used')
                        else:
                            at = lambda t: dict(zip(t.args[2].args[::2], t.args[2].args[1::2])) if t.op == 'call' and str(t.args[0]).startswith('new:') else None
                            d = at(lc)
                            c = at(d['cosmology']) if d and 'cosmology' in d else None
                            if d and d.get('cosmology') is NONE:
                                ctx.require(lab + ':astropy', False, ww, 'the lens cosmology is made without the requested cosmology', 'the requested cosmology is used')
                                continue
                            if c is None or 'astropy_instance' not in c or 'z_lens' not in d or 'z_source' not in d:
                                ctx.undetermined(lab + ':cosmo', ww, TM.show(lc, 5)[:200])
                                continue
                            ctx.equal(lab + ':z_lens', d['z_lens'], e['zl'], ww, 'the lens cosmology has the requested redshifts')
                            ctx.equal(lab + ':z_source', d['z_source'], e['zs'], ww, 'the lens cosmology has the requested redshifts')
                            ctx.equal(lab + ':astropy', c['astropy_instance'], e['ap'], ww, 'the requested cosmology is used')
                    ctx.saw(S)
    ctx.guard('single', single)
