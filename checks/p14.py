"""P14 calls leave their inputs and defaults untouched."""
import multiprocessing
import signal
from .common import *
from .halos import *
from . import p01, p02, p03

EXPLAIN = ("Effect analysis: every public function, method and constructor of the package is evaluated abstractly with symbolic arguments (methods also on an "
           "object built from symbolic constructor arguments, so that contents borrowed from the caller are tracked); every write, item assignment, deletion or "
           "mutating method call whose target is an argument, something reachable from an argument, a default argument value, a class attribute or a module "
           "global is a violation unless it is a private memo of the object itself or an operation documented to modify its object in place. The operations "
           "deriving realizations are additionally evaluated on a parent with concrete halos and must not write to the parent, its halos or its dictionaries.")
FLOOR = 100
SLOW = 60
HEAVY = ['pyHalo.render']
EXT = ['SIS_injection', 'add_globular_clusters', 'toSIDM_from_cross_section', 'core_collapse_by_mass', 'add_core_collapsed_halos', 'add_ULDM_fluctuations',
       'add_black_holes', 'toSIDM_halo_list', 'toSIDM_from_timescale', 'add_cored_halos', 'add_correlated_structure', 'add_primordial_black_holes']
PREFIX = 'in:'
MUTATORS = {'sort', 'extend', 'insert', 'remove', 'reverse', 'fill', 'popitem', 'put', 'itemset', 'resize', 'add', 'discard', 'partition', 'pop', 'clear', 'append', 'update',
            'setdefault', '__setitem__', '__setattr__', '__delitem__'}


def root(t):
    """(root symbol, path) of a symbolic access path, or (None, ..)"""
    path = []
    while isinstance(t, T):
        if t.op == 'sym':
            return t.args[0], path[::-1]
        if t.op == 'attr':
            path.append('.' + str(t.args[1]))
        elif t.op in ('idx', 'get', 'item', 'each', 'elem'):
            path.append('[]')
        else:
            return None, path[::-1]
        t = t.args[0]
    return None, path


def public(n):
    return not n.startswith('_') or n == '__init__'


def entries(P):
    out = []
    for mn, m in sorted(P.modules.items()):
        for n, bs in sorted(m.bind.items()):
            for b in bs:
                if b[0] == 'func' and public(n):
                    out.append((b[1].qual, 'func'))
                if b[0] == 'class':
                    ci = b[1]
                    for k, f in sorted(ci.methods.items()):
                        if public(k):
                            out.append((f.qual, 'method'))
    return out


def find(P, qual):
    mod, rest = qual.split(':')
    m = P.modules.get(mod)
    if m is None:
        return None
    parts = rest.split('.')
    for b in m.bind.get(parts[0], ()):
        if len(parts) == 1 and b[0] == 'func':
            return b[1]
        if len(parts) == 2 and b[0] == 'class':
            return b[1].methods.get(parts[1])
    return None


def config(fi):
    heavy = fi.qual.startswith('pyHalo.PresetModels')
    return Config(opaque=(HEAVY + ['RealizationExtensions.' + x for x in EXT]) if heavy else [], maxdepth=6)


def one(qual, mode):
    """[(root, path, what, key, where)] for one entry"""
    P = program()
    fi = find(P, qual)
    S = Session(config(fi))
    I = S.I
    own, selfchange = set(), []
    base = I.mutated

    def mutated(v, what, st, node, key=None):
        f = I.stack[-1]
        if f.cls is not None and f.params and f.kind not in ('static', 'classmethod') and st.env.get(f.params[0]) is v:
            own.add(len(I.events))
        base(v, what, st, node, key)
    I.mutated = mutated
    params = list(fi.params)
    selfp = params[0] if fi.cls is not None and fi.kind != 'static' and params else None

    def args(f, skip, tag):
        return [S.sym(PREFIX + tag + p) for p in f.params if p != skip], [(k, S.sym(PREFIX + tag + k)) for k in f.kwonly]
    if mode == 'built' and fi.cls is not None and selfp and fi.kind not in ('classmethod', 'static'):
        init = P.lookup(fi.cls, '__init__')
        a, k = args(init, init.params[0], 'ctor.') if init is not None else ([], [])
        me = I.instantiate(fi.cls, a, k, S.st)
        if fi.name != '__init__':
            a, k = args(fi, selfp, '')
            state = snapshot(S, [('self', me)])
            if fi.kind == 'property':
                I.get_attr(me, fi.name, S.st)
            else:
                I.invoke(fi, [me] + a, k, S.st)
            if not fi.name.startswith(('set_', 'setup_', 'rescale_', 'update_', '_')) and fi.kind != 'setter':
                for (_, f), b in state.items():
                    v = I.obj(S.st, me).fields.get(f)
                    a = raw(S, v) if v is not None and v.op != 'absent' else None
                    if a is b or b is NONE or b.op == 'absent':
                        continue
                    if changed(a, b):
                        selfchange.append((f, S.st))
    elif fi.kind == 'classmethod':
        a, k = args(fi, selfp, '')
        I.invoke(fi, [mk('cls', fi.cls.qual)] + a, k, S.st)
    else:
        a, k = args(fi, None, '')
        I.invoke(fi, a, k, S.st)
    out = []
    for i, e in enumerate(I.events):
        if e.kind == 'mutate':
            prov, what, key, v = e.data
        elif e.kind == 'ometh' and e.data[1] in MUTATORS:
            prov, what, key = e.data[0], e.data[1] + '()', None
        elif e.kind == 'augname' and e.data[1].op == 'sym':
            prov, what, key = e.data[1], 'augmented', None
        else:
            continue
        site = e.where()
        if isinstance(prov, T):
            r, path = root(prov)
            if r is None or not r.startswith(PREFIX):
                continue
            t, cp = prov, False
            while t.args and isinstance(t.args[0], T):
                cp = cp or t in I.copied
                t = t.args[0]
            if cp or t in I.copied:
                continue        # (an element of) a deep copy
            r = r[len(PREFIX):]
        else:
            r, path = prov, []
        out.append((r, ''.join(path), what, TM.show(key, 2) if isinstance(key, T) else str(key or ''), site, i in own))
    res = []
    for x in out:
        if x not in res:
            res.append(x)
    return res, sorted(I.visited), selfp, sorted({f for f, _ in selfchange})


def _job(job):
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(SLOW)
    try:
        return job, one(*job), None
    except Exception as e:
        return job, None, '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)


def _late(*a):
    raise TimeoutError('analysis time limit')


def effects(ctx):
    P = program()
    base = [l.strip() for l in open(os.path.join(VERIF, 'checks', 'p14_entries.txt')) if l.strip()]
    jobs, gone = [], 0
    for q in base:
        fi = find(P, q)
        if fi is None:
            gone += 1
            continue
        if fi.name != '__init__':
            jobs.append((q, 'sym'))
        if fi.cls is not None and fi.kind not in ('static', 'classmethod'):
            jobs.append((q, 'built'))
    if gone > len(base) // 2:
        raise Broken('%d of %d public functions are gone' % (gone, len(base)))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_job, jobs, chunksize=4)
    for (q, mode), r, err in res:
        name = q.split(':')[-1]
        fi = find(P, q)
        w = where_fn(fi)
        if err:
            ctx.undetermined('%s:%s' % (name, mode), w, err)
            continue
        out, seen, selfp, state = r
        ctx.functions |= set(seen)
        bad = [x for x in out if judge(P, fi, mode, selfp, *x)]
        keys = set()
        for rt, path, what, key, site, own in bad:
            k = '%s:%s%s%s%s' % (site[site.rfind('(') + 1:].rstrip(')'), rt, path, ':' + what, key)
            if k in keys:
                continue
            keys.add(k)
            ctx.violation(k, site, '%s modifies %s%s (%s %s)' % (name, rt, path, what, key), 'arguments, defaults and shared objects are not modified')
        for f in state:
            ctx.violation('%s:state:%s' % (name, f), w, '%s changes the state %s of its object' % (name, f), 'only operations documented to do so modify their object')
        if not bad and not state:
            ctx.ok('%s:%s' % (name, mode), w, 'arguments, defaults and shared objects are not modified')


def changed(a, b):
    """does the state a differ from the earlier state b other than by new entries of a table"""
    if a is None or a is b:
        return a is None
    if b.op == 'dict' and a.op == 'dict':
        da, db = dict(zip(a.args[0::2], a.args[1::2])), dict(zip(b.args[0::2], b.args[1::2]))
        return any(k not in da or changed(da[k], v) for k, v in db.items())
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return changed(a.args[1], b.args[1]) or changed(a.args[2], b.args[2])
    if a.op == 'upd':
        # symbolic object with overwritten parts: its own private attributes are memos, decided where they are written
        base, da = a.args[0], dict(zip(a.args[1::2], a.args[2::2]))
        b0, db = (b.args[0], dict(zip(b.args[1::2], b.args[2::2]))) if b.op == 'upd' else (b, {})
        return base is not b0 or any(v is not db.get(k) and not str(k).startswith('._') for k, v in da.items())
    if b.op == 'inst' and a.op == 'inst' and a.args[0] is b.args[0]:
        da, db = dict(zip(a.args[1::2], a.args[2::2])), dict(zip(b.args[1::2], b.args[2::2]))
        return any(v is not NONE and not str(k).startswith('_') and (k not in da or changed(da[k], v)) for k, v in db.items())
    return True


def judge(P, fi, mode, selfp, rt, path, what, key, site, own):
    """is this write a violation?"""
    attr = what.startswith('.')
    if what == 'augmented':
        return arrayish(fi, path.split('.')[-1] if path else rt)
    if rt.startswith('global:'):
        # private tables of the module itself; that their content does not depend on the first query is another property
        return not rt.split(':')[-1].startswith('_')
    if attr and what.startswith('._') and own:
        return False            # private state of the object, changed by its own method
    if rt == selfp and mode == 'sym':
        if path == '':
            return not (fi.name == '__init__' or fi.kind == 'setter' or fi.name.startswith(('set_', 'rescale_', 'update_')))
        if path.startswith('._') and not attr:
            return False        # contents of private attributes: decided on constructed objects
    return True


def arrayish(fi, name):
    """is the value used like an array in the function? (augmented assignment then changes it in place)"""
    if fi is None or fi.node is None:
        return False

    def is_it(n):
        return isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Subscript) and is_it(n.value):
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and is_it(n.iter):
            return True
        if isinstance(n, ast.Call) and n.args and is_it(n.args[0]) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'zip'):
            return True
        if isinstance(n, ast.Attribute) and is_it(n.value) and n.attr in ('shape', 'size', 'ndim', 'T', 'dtype', 'astype', 'sum', 'mean'):
            return True
    return False


# ---------------------------------------------------------------- derivations on concrete halos
def snapshot(S, objs):
    out = {}
    for lab, o in objs:
        ob = S.I.obj(S.st, o)
        for f, v in ob.fields.items():
            if v.op == 'absent':
                continue
            out[lab, f] = raw(S, v)
    return out


def raw(S, v):
    """value of an attribute; lists of objects by the identity of the objects"""
    if v.op == 'ref':
        ob = S.I.obj(S.st, v)
        if ob.kind == 'list' and ob.segs and all(s.op == 'item' and s.args[0].op == 'ref' for s in ob.segs):
            return mk('tup', *[mk('const', 'object%d' % s.args[0].args[0]) for s in ob.segs])
    return S.r(v)


def unchanged(ctx, S, objs, before, key, w):
    pc = band(*S.st.pc)
    for lab, o in objs:
        ob = S.I.obj(S.st, o)
        names = {f for l, f in before if l == lab} | set(ob.fields)
        for f in sorted(names):
            b = before.get((lab, f))
            v = ob.fields.get(f)
            a = raw(S, v) if v is not None and v.op != 'absent' else None
            if b is None:
                if not f.startswith('_') and not (v is not None and v.op == 'absent'):
                    ctx.equal('%s:%s:%s' % (key, lab, f), ite(pc, a, ABSENT), ABSENT, w, 'a derivation attaches nothing to the original %s' % lab)
                continue
            if a is None:
                ctx.violation('%s:%s:%s' % (key, lab, f), w, 'the attribute is removed', 'the original %s is not changed' % lab)
                continue
            if a is b:
                ctx.ok('%s:%s:%s' % (key, lab, f), w)
                continue
            if b is NONE and f.startswith('_'):
                continue
            ctx.equal('%s:%s:%s' % (key, lab, f), ite(pc, a, b), b, w, 'the original %s is not changed' % lab)


def derive(ctx, label, name, src, w, on='R'):
    S = p03.sess()
    subs = (TRUE, FALSE)
    H = [p03.halo(S, t, s) for t, s in zip(p03.TAGS, subs)]
    H2 = [p03.halo(S, t, TRUE) for t in 'BC']
    par, oth = p01.parent(S, S.py(H)), p01.parent(S, S.py(H2))
    E = S.new(S.prog.cls(p01.EX), par)
    fi = S.prog.lookup(S.prog.cls(p01.EX if on == 'E' else p01.RZ), name)
    env = dict(E=E, R=par, R2=oth, h=H[0], h2=H[1], **{x: S.sym(x) for x in p02.SYMS + ('mt', 'rx', 'ry', 'zm', 'a', 'lm', 'x0', 'x1', 'y0', 'y1', 'mb', 'z0')})
    for x in ('rx', 'ry'):
        S.st.assume(bnot(TM.eq(env[x], NONE)))
    objs = [('realization', par), ('other', oth)] + [('halo ' + t, h) for t, h in zip(p03.TAGS, H)] + [('other halo ' + t, h) for t, h in zip('BC', H2)]
    before = snapshot(S, objs)

    def on_call(f, a, k, st, node):
        # one object drawn at an image; the first halo of the realization is to be rescaled
        if f.cls is not None and f.cls.name == 'CorrelatedStructure' and f.name == 'render':
            def col(v):
                return S.I.new_list(st, [item(S.sym(v) if isinstance(v, str) else v)])
            return mk('tup', col('pm'), col('px'), col('py'), col(NONE), col('pz'), col(FALSE), S.sym('rf'), col(num(0)))
    S.I.on_call = on_call
    if src is None:
        S.meth(E if on == 'E' else par, name, *[S.sym(p) for p in fi.params[1:]])
    else:
        S.expr(src, env)
    unchanged(ctx, S, objs, before, label, w)
    ctx.saw(S)


def run(ctx):
    P = program()
    rz, ex = P.cls(p01.RZ), P.cls(p01.EX)
    if rz is None or ex is None:
        raise Broken('Realization / RealizationExtensions not found')
    effects(ctx)

    def go(label, name, src, on):
        fi = P.lookup(ex if on == 'E' else rz, name)
        if fi is None:
            raise Broken(name + ' not found')
        ctx.guard(label, derive, ctx, label, name, src, where_fn(fi), on)
    for label, src in p02.conversions().items():
        go(label, label.split(':')[0], src.replace('[h]', '[h, h2]'), 'E')
    go('add_correlated_structure', 'add_correlated_structure', "E.add_correlated_structure(a, {}, 'PT_MASS', [rx], [ry], lm, zm)", 'E')
    for g in ('GNFW', 'SIS'):
        go('SIS_injection:' + g, 'SIS_injection', "E.SIS_injection(mt, '%s')" % g, 'E')
    for name, src in (('filter', 'R.filter(a, lm, [x0, x1], [y0, y1])'), ('filter_subhalos', 'R.filter_subhalos(a, lm, [x0, x1], [y0, y1])'),
                      ('filter_bound_mass', 'R.filter_bound_mass(mb)'), ('halos_at_z', 'R.halos_at_z(z0)'), ('split_at_z', 'R.split_at_z(z0)'),
                      ('shift_background_to_source', 'R.shift_background_to_source(rx, ry, zm)'), ('join', 'R.join(R2, True)'), ('lensing_quantities', 'R.lensing_quantities(False)')):
        go(name, name, src, 'R')
    for n in ('add_globular_clusters', 'add_ULDM_fluctuations', 'add_primordial_black_holes', 'add_black_holes'):
        go(n, n, None, 'E')
