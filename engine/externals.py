"""Meaning given to builtins, numpy and copy; everything else is an uninterpreted call."""
from .terms import *
from . import arrays
from . import terms as TM

A = 'args'


def _c(name, *a):
    return mk('call', name, mk('args', *a), mk('kw'))


IDENT = {'numpy.array', 'numpy.asarray', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.float64', 'numpy.ascontiguousarray',
         'builtins.float', 'numpy.copy', 'numpy.real', 'numpy.asanyarray'}

ALIAS = {'numpy.absolute': 'abs', 'numpy.abs': 'abs', 'builtins.abs': 'abs', 'math.fabs': 'abs', 'numpy.fabs': 'abs'}


def ext_call(I, name, args, kwargs, st, node=None):
    short = name.split('.')[-1]
    if name.startswith('builtins.'):
        r = builtin(I, short, args, kwargs, st, node)
        if r is not None:
            return r
    if name in ('copy.deepcopy',):
        return I.deepcopy(args[0], st)
    if name in ('copy.copy',):
        return I.shallow(args[0], st)
    if name == 'functools.partial':
        flat = []
        for k, v in kwargs:
            flat += [k, v]
        return mk('partial', args[0], mk('args', *[a for a in args[1:] if isinstance(a, T)]), mk('kw', *flat))
    pos, star, kw, bases = I.expand_args(args, kwargs, st)
    memo = {}

    def R(x):
        return I.reify(I.array_term(x, st), st, (), memo)
    if '.random.' in name or name.startswith(('random.', 'secrets.')) or short in ('default_rng', 'RandomState', 'Generator'):
        return rnd(I, name, pos, kw, st, node, R)
    if star is None and not bases:
        a = pos
        n = len(a)
        if I.cfg.arrays and name.startswith(('numpy.', 'math.', 'builtins.')) and a:
            from . import arrays
            sh = short if not name.startswith('builtins.') else short if short in ('abs', 'round') else None
            if sh is not None and name not in IDENT:
                r = arrays.npcall(I, sh, [I.simplify_value(x, st) for x in a], kw, st)
                if r is not None:
                    return r
        if name in IDENT and n >= 1:
            v = a[0]
            dt = a[1] if n > 1 and short in ('array', 'asarray') else dict(kw).get('dtype')
            if I.cfg.arrays and dt is not None and 'bool' in str(I.reify(dt, st)):
                from . import arrays
                r = arrays.method(I, I.simplify_value(v, st), 'astype', [dt], [], st)
                if r is not None:
                    return r
            if I.is_list(st, v):
                if name in ('numpy.array', 'numpy.copy') or I.obj(st, v).order != 'arr':
                    return I.new_list(st, I.obj(st, v).segs, arr=True)
                return v
            if v.op == 'seq':
                return I.new_list(st, v.args, arr=True)
            if v.op == 'tup':
                return I.new_list(st, [item(x) for x in v.args], arr=True)
            return v
        if name == 'numpy.ndim' and n == 1 and not kw:
            v = a[0]
            if v.op == 'num' or v.op == 'idx' and v.args[1].op in ('ivar', 'bvar') and v.args[0].op == 'call' and v.args[0].args[0] in ('np.arange', 'np.linspace', 'np.logspace'):
                return ZERO
        if name in ALIAS and n == 1:
            return absval(R(a[0]))
        if name.startswith(('numpy.', 'math.', 'scipy.')):
            r = numpy_call(I, short, name, a, kw, st, node, R)
            if r is not None:
                return r
    # uninterpreted external call
    vals = [I.reify(x, st, (), memo) for x in pos]
    if star is not None:
        vals.append(mk('star', I.reify(star, st, (), memo)))
    kl = []
    for k in sorted(kw):
        kl += [k, I.reify(kw[k], st, (), memo)]
    for b in bases:
        kl += ['**', I.reify(b, st, (), memo)]
    r = mk('call', canon_ext(name), mk('args', *vals), mk('kw', *kl))
    I.event('ext', st, (name, r), node)
    return r


def canon_ext(name):
    if name.startswith('builtins.'):
        return name[9:]
    if name.startswith('numpy.'):
        return 'np.' + name[6:]
    return name


def absval(x):
    if x.op == 'num':
        return num(abs(x.args[0]))
    p = TM._poly(x)
    if x.op == 'poly':
        lead = p[min(p, key=TM._mono_key)]
        if lead < 0:
            x = TM.neg(x)
        if len(p) == 1:
            (m, c), = p.items()
            if m:
                return mul(num(abs(c)), *[mk('call', 'abs', mk('args', TM.power(b, e)), mk('kw')) if not _evenpow(e) else TM.power(b, e) for b, e in m])
    return _c('abs', x)


def _evenpow(e):
    return e.op == 'num' and e.args[0].denominator == 1 and int(e.args[0]) % 2 == 0


def rnd(I, name, pos, kw, st, node, R):
    vals = [R(x) for x in pos]
    short = name.replace('numpy.random.', '')
    order = RNDSIG.get(short)
    if order and kw and all(k in order for k in kw):
        full = list(vals) + [None] * (len(order) - len(vals))
        for k, v in kw.items():
            full[order.index(k)] = R(v)
        defaults = RNDDEF.get(short, {})
        for i, k in enumerate(order):
            if full[i] is None and i < max(j for j in range(len(order)) if full[j] is not None):
                full[i] = const(defaults.get(k))
        vals = [x for x in full if x is not None]
        kw = {}
    kl = []
    for k in sorted(kw):
        kl += [k, R(kw[k])]
    base = (short, tuple(vals), tuple(kl))
    n = st.rc.get(base, 0)
    st.rc[base] = n + 1
    r = mk('rnd', short, mk('args', *vals), mk('kw', *kl), n)
    I.event('rnd', st, (name, r), node)
    return r


RNDSIG = {'uniform': ('low', 'high', 'size'), 'normal': ('loc', 'scale', 'size'), 'poisson': ('lam', 'size'),
          'rand': None, 'randint': ('low', 'high', 'size', 'dtype'), 'choice': ('a', 'size', 'replace', 'p'),
          'lognormal': ('mean', 'sigma', 'size')}
RNDDEF = {'uniform': {'low': 0, 'high': 1}, 'normal': {'loc': 0, 'scale': 1}, 'choice': {'replace': True}}


def numpy_call(I, f, name, a, kw, st, node, R):
    n = len(a)
    if f in ('log10',) and n == 1:
        return TM.log10(R(a[0]))
    if f == 'log' and n == 1:
        return TM.log(R(a[0]))
    if f == 'log2' and n == 1:
        return div(TM.log(R(a[0])), TM.log(num(2)))
    if f == 'exp' and n == 1:
        return power(EUL, R(a[0]))
    if f == 'sqrt' and n == 1:
        return sqrt(R(a[0]))
    if f == 'square' and n == 1:
        return power(R(a[0]), TWO)
    if f in ('power', 'pow') and n == 2:
        return power(R(a[0]), R(a[1]))
    if f == 'hypot' and n == 2:
        return sqrt(add(power(R(a[0]), TWO), power(R(a[1]), TWO)))
    if f in ('add',) and n == 2:
        return add(R(a[0]), R(a[1]))
    if f in ('subtract',) and n == 2:
        return sub(R(a[0]), R(a[1]))
    if f in ('multiply',) and n == 2:
        return mul(R(a[0]), R(a[1]))
    if f in ('divide', 'true_divide') and n == 2:
        return div(R(a[0]), R(a[1]))
    if f in ('matmul', 'dot') and n == 2 and not kw:
        A, B = TM.literal_items(R(a[0])), TM.literal_items(R(a[1]))
        if A is not None and B is not None:
            rows = [TM.literal_items(x) for x in A]
            if any(r is None for r in rows) and len(A) == len(B) and all(TM.literal_items(x) is None and x.op not in ('seq', 'tup') for x in A + B):
                return add(*[mul(x, y) for x, y in zip(A, B)])
            if all(r is not None and len(r) == len(B) for r in rows) and all(TM.literal_items(x) is None for x in B):
                return I.new_list(st, [item(add(*[mul(x, y) for x, y in zip(r, B)])) for r in rows], arr=True)
    if f == 'negative' and n == 1:
        return TM.neg(R(a[0]))
    if f in ('maximum', 'fmax') and n == 2:
        return vmax(R(a[0]), R(a[1]))
    if f in ('minimum', 'fmin') and n == 2:
        return vmin(R(a[0]), R(a[1]))
    if f == 'clip' and n == 3:
        x = R(a[0])
        if a[1] is not NONE:
            x = vmax(x, R(a[1]))
        if a[2] is not NONE:
            x = vmin(x, R(a[2]))
        return x
    if f in ('deg2rad', 'radians') and n == 1:
        return div(mul(R(a[0]), PI), num(180))
    if f in ('rad2deg', 'degrees') and n == 1:
        return div(mul(R(a[0]), num(180)), PI)
    if f == 'where' and n == 3:
        return ite(truth(R(a[0])), R(a[1]), R(a[2]))
    if f == 'where' and n == 1:
        # indices of a mask: used only for selection
        return mk('tup', truth(R(a[0])))
    if f == 'logical_and' and n == 2:
        return band(truth(R(a[0])), truth(R(a[1])))
    if f == 'logical_or' and n == 2:
        return bor(truth(R(a[0])), truth(R(a[1])))
    if f == 'logical_not' and n == 1:
        return bnot(truth(R(a[0])))
    if f in ('less',) and n == 2:
        return lt(R(a[0]), R(a[1]))
    if f in ('greater',) and n == 2:
        return lt(R(a[1]), R(a[0]))
    if f in ('less_equal',) and n == 2:
        return le(R(a[0]), R(a[1]))
    if f in ('greater_equal',) and n == 2:
        return le(R(a[1]), R(a[0]))
    if f == 'nonzero' and n == 1:
        return mk('tup', truth(R(a[0])))
    if f in ('ones', 'zeros') and n == 1:
        v = a[0]
        segs = I.segs_of(v, st) if v.op in ('ref', 'tup') else None
        if segs is not None:
            if len(segs) == 1 and segs[0].op == 'item':
                v = segs[0].args[0]
            else:
                return _c(f, R(a[0]))
        return arr_const(I, ONE if f == 'ones' else ZERO, v)
    if f in ('ones_like', 'zeros_like') and n >= 1:
        return arr_const(I, ONE if f == 'ones_like' else ZERO, length(R(a[0])))
    if f == 'full' and n == 2:
        return arr_const(I, R(a[1]), a[0])
    if f == 'full_like' and n == 2:
        return arr_const(I, R(a[1]), length(R(a[0])))
    if f == 'append' and n == 2 and not kw:
        return I.new_list(st, segs_or_splice(I, a[0], st) + segs_or_splice(I, a[1], st, elem=True), arr=True)
    if f in ('concatenate', 'hstack') and n == 1:
        segs = I.segs_of(a[0], st) if a[0].op in ('ref', 'tup') else None
        if segs is not None and all(s.op == 'item' for s in segs):
            out = []
            for s in segs:
                out += segs_or_splice(I, s.args[0], st)
            return I.new_list(st, out, arr=True)
    if f == 'sum' and n == 1 and not kw:
        from .interp import sum_term
        v = a[0]
        segs = I.segs_of(v, st)
        if segs is not None:
            return sum_term(I.reify(mk('seq', *segs), st))
        return sum_term(mk('seq', splice(R(v))))
    if f in ('max', 'amax', 'min', 'amin') and n == 1 and not kw:
        v = a[0]
        segs = I.segs_of(v, st)
        if segs is not None and segs and all(s.op == 'item' for s in segs):
            fn = vmax if 'max' in f else vmin
            r = R(segs[0].args[0])
            for s in segs[1:]:
                r = fn(r, R(s.args[0]))
            return r
        return _c('max' if 'max' in f else 'min', R(v))
    if f in ('any', 'all') and n == 1 and not kw:
        return anyall(I, f, a[0], st, R)
    if f == 'isscalar':
        return None
    if f == 'mean' and n == 1 and not kw:
        return _c('mean', R(a[0]))
    if f in ('median', 'sort', 'argsort', 'cumsum', 'diff', 'unique', 'floor', 'ceil', 'round', 'sin', 'cos', 'tan', 'arctan', 'isnan') and n == 1 and not kw:
        return _c('round' if f == 'round_' else f, R(a[0]))
    if f == 'trapezoid' and n == 2:
        return _c('trapezoid', R(a[0]), R(a[1]))
    if f == 'array_equal':
        return None
    return None


def arr_const(I, v, n):
    if v is ONE:
        return _c('ones', n)
    return mul(v, _c('ones', n)) if v is not ZERO else _c('zeros', n)


def segs_or_splice(I, v, st, elem=False):
    v = I.simplify_value(v, st)
    s = I.segs_of(v, st)
    if s is not None:
        return list(s)
    x = I.reify(v, st)
    if elem and (x.op in ('num',)):
        return [item(x)]
    return [splice(x)]


def vmax(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(max(a.args[0], b.args[0]))
    return ite(lt(a, b), b, a)


def vmin(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(min(a.args[0], b.args[0]))
    return ite(lt(b, a), b, a)


def anyall(I, f, v, st, R):
    segs = I.segs_of(v, st)
    if segs is not None:
        parts = []
        for s in segs:
            if s.op == 'item':
                parts.append(I.truth_of(s.args[0], st))
            else:
                parts = None
                break
        if parts is not None:
            return bor(*parts) if f == 'any' else band(*parts)
        x = I.reify(mk('seq', *segs), st)
    else:
        x = mk('seq', splice(R(v)))
    if f == 'any':
        return mk('truth', _c('any', x))
    # all(x) = not any(not x)
    return mk('truth', _c('all', x))


def builtin(I, f, args, kwargs, st, node):
    if any(isinstance(a, tuple) for a in args) and f not in ('print',):
        pos, star, kw, bases = I.expand_args(args, kwargs, st)
        if star is not None:
            return None
        args = pos
    n = len(args)
    memo = {}

    def R(x):
        return I.reify(I.array_term(x, st), st, (), memo)
    if f in ('print', 'object.__init__'):
        return NONE
    if f == 'len' and n == 1:
        v = args[0]
        if v.op == 'call':
            s = I.literal_set(v)
            if s is not None:
                return num(len(s))
        segs = I.segs_of(v, st)
        if segs is not None:
            return length(I.reify(mk('seq', *segs), st))
        return length(I.reify(v, st))
    if f == 'vars' and n == 1:
        return I.get_attr(args[0], '__dict__', st, node)
    if f == 'hasattr' and n == 2:
        o, nm = args
        if nm.op != 'const':
            return None
        return has_attr(I, o, nm.args[0], st)
    if f == 'getattr' and n >= 2 and args[1].op == 'const':
        if n == 3:
            c = has_attr(I, args[0], args[1].args[0], st)
            return I.fork(st, c, lambda s: I.get_attr(args[0], args[1].args[0], s, node), lambda s: args[2])
        return I.get_attr(args[0], args[1].args[0], st, node)
    if f == 'setattr' and n == 3 and args[1].op == 'const':
        I.set_attr(args[0], args[1].args[0], args[2], st, node)
        return NONE
    if f == 'delattr' and n == 2 and args[1].op == 'const':
        I.del_attr(args[0], args[1].args[0], st, node)
        return NONE
    if f == 'isinstance' and n == 2:
        return is_instance(I, args[0], args[1], st)
    if f == 'type' and n == 1:
        v = I.simplify_value(args[0], st)
        if v.op == 'ref' and I.obj(st, v).cls is not None:
            return mk('cls', I.obj(st, v).cls.qual)
        return _c('type', R(v))
    if f == 'callable' and n == 1:
        def is_callable(v):
            v = I.simplify_value(v, st)
            if v.op in ('fn', 'bm', 'cls', 'lam', 'ext'):
                return TRUE
            if v.op in ('num', 'const', 'poly', 'tup', 'seq', 'dict'):
                return FALSE
            if v.op == 'ite':
                a, b = is_callable(v.args[1]), is_callable(v.args[2])
                return None if a is None or b is None else ite(v.args[0], a, b)
            return mk('truth', _c('callable', R(v)))
        return is_callable(args[0])
    if f in ('list', 'tuple') and n == 0:
        return I.new_list(st, []) if f == 'list' else mk('tup')
    if f in ('list', 'tuple') and n == 1:
        r = I.iter_value(args[0], st) if args[0].op == 'call' and args[0].args[0] in ('range', 'zip', 'enumerate') else None
        if r is not None:
            if r[0] == 'concrete':
                segs = [item(x) for x in r[1]]
            elif r[0] == 'condc':
                segs = [y for c, x in r[1] for y in cond_seg(c, [item(x)])]
            else:
                iv = I.fresh_iv()
                segs = each(r[1], iv, [item(r[2](iv, st))])
        else:
            segs = I.segs_of(args[0], st)
            if segs is None:
                segs = [splice(I.reify(args[0], st))]
        if f == 'tuple' and all(s.op == 'item' for s in segs):
            return mk('tup', *[s.args[0] for s in segs])
        return I.new_list(st, segs)
    if f == 'dict':
        r = I.new_dict(st, {})
        if args:
            I.dict_update(r, args[0], st, node)
        for k, v in kwargs:
            if k is None:
                I.dict_update(r, v, st, node)
            else:
                I.set_item(r, const(k), v, st, node)
        return r
    if f in ('set', 'frozenset') and n <= 1:
        if n == 1:
            if I.cfg.arrays:
                # a set of numbers that are each present under a condition
                es = arrays.entries(I, args[0], st)
                if es and all(v.op == 'num' for _, v in es) and any(c is not TRUE for c, _ in es):
                    return arrays.npcall(I, 'unique', [args[0]], [], st)
            segs = I.segs_of(args[0], st)
            if segs is not None and all(s.op == 'item' for s in segs):
                return mk('call', 'set', mk('args', *[I.reify(s.args[0], st) for s in segs]), mk('kw'))
        return None
    if f in ('int',) and n == 1:
        v = R(args[0])
        if v.op == 'num':
            return num(int(v.args[0]))
        if v.op == 'const' and isinstance(v.args[0], str) and v.args[0].strip().isdigit():
            return num(int(v.args[0]))
        if v.op in BOOLS:
            return ite(v, ONE, ZERO)
        if integral(v):
            return v
        if v.op == 'ite':
            f1 = lambda x: num(int(x.args[0])) if x.op == 'num' else x if integral(x) else _c('int', x)
            return ite(v.args[0], f1(v.args[1]), f1(v.args[2]))
        return _c('int', v)
    if f == 'round' and n == 1:
        return _c('round', R(args[0]))
    if f == 'bool' and n == 1:
        return I.truth_of(args[0], st)
    if f == 'str' and n == 1:
        if args[0].op == 'const' and isinstance(args[0].args[0], str):
            return args[0]
        return mk('call', 'fmt', mk('args', R(args[0])), mk('kw'))
    if f in ('max', 'min') and n >= 2 and not kwargs:
        fn = vmax if f == 'max' else vmin
        r = R(args[0])
        for x in args[1:]:
            r = fn(r, R(x))
        return r
    if f in ('max', 'min', 'any', 'all') and n == 1 and not kwargs:
        return numpy_call(I, f, 'numpy.' + f, args, {}, st, node, R)
    if f == 'sum' and n >= 1 and not kwargs:
        from .interp import sum_term
        segs = I.segs_of(args[0], st)
        if segs is None:
            segs = [splice(R(args[0]))]
        t = sum_term(I.reify(mk('seq', *segs), st))
        return add(t, R(args[1])) if n > 1 else t
    if f == 'pow' and n == 2:
        return power(R(args[0]), R(args[1]))
    if f == 'range':
        r = I.range_elems(args)
        if r[0] == 'concrete':
            return mk('tup', *r[1])
        return mk('call', 'range', mk('args', *[R(a) for a in args]), mk('kw'))
    if f in ('zip', 'enumerate') and not kwargs:
        return mk('call', f, mk('args', *args), mk('kw'))
    if f == 'reversed' and n == 1:
        segs = I.segs_of(args[0], st)
        if segs is not None and all(s.op == 'item' for s in segs):
            return I.new_list(st, segs[::-1])
        return None
    if f in ('sorted',):
        if I.cfg.arrays and n == 1:
            kw = dict(kwargs)
            key, rev = kw.get('key', NONE), kw.get('reverse', FALSE)
            es = arrays.entries(I, args[0], st)
            if key is NONE and rev in (TRUE, FALSE) and es and all(v.op == 'num' for _, v in es) and any(c is not TRUE for c, _ in es):
                return arrays.build(I, sorted(es, key=lambda e: e[1].args[0], reverse=rev is TRUE), st)
            if rev in (TRUE, FALSE) and es is not None:
                return arrays.sorted_(I, args[0], (lambda x: x) if key is NONE else (lambda x: I.apply(key, [x], [], st, node)), rev is TRUE, st)
        return None
    if f == 'map' and n == 2:
        r = I.iter_value(args[1], st)
        if r[0] == 'concrete':
            return I.new_list(st, [item(I.apply(args[0], [x], [], st, node)) for x in r[1]])
        if r[0] == 'condc':
            return I.new_list(st, [y for c, x in r[1] for y in cond_seg(c, [item(I.apply(args[0], [x], [], st, node))])])
        iv = I.fresh_iv()
        return I.new_list(st, each(r[1], iv, [item(I.reify(I.apply(args[0], [r[2](iv, st)], [], st, node), st))]))
    if f == 'filter' and n == 2:
        r = I.iter_value(args[1], st)
        if r[0] == 'condc':
            return None
        if r[0] == 'concrete':
            out = []
            for x in r[1]:
                c = I.truth_of(I.apply(args[0], [x], [], st, node), st)
                out += cond_seg(c, [item(x)])
            return I.new_list(st, out)
        iv = I.fresh_iv()
        x = r[2](iv, st)
        c = I.reify(I.truth_of(I.apply(args[0], [x], [], st, node), st), st)
        return I.new_list(st, each(r[1], iv, cond_seg(c, [item(x)])))
    return None


def integral(v):
    """is the term an integer by construction?"""
    if v.op == 'num':
        return v.args[0].denominator == 1
    if v.op == 'ite':
        return integral(v.args[1]) and integral(v.args[2])
    if v.op == 'call':
        return v.args[0] in ('int', 'round', 'floor', 'len', 'ceil') and len(v.args[1].args) == 1
    if v.op == 'poly':
        return all(m.args[0].denominator == 1 and all(e.op == 'num' and e.args[0].denominator == 1 and e.args[0] > 0 for e in m.args[2::2])
                   and all(integral(b) for b in m.args[1::2]) for m in v.args)
    return v.op in BOOLS


BOOLS = TM.BOOLOPS


def has_attr(I, o, name, st):
    o = I.simplify_value(o, st)
    if o.op == 'ite':
        return ite(o.args[0], has_attr(I, o.args[1], name, st), has_attr(I, o.args[2], name, st))
    if o.op == 'ref':
        ob = I.obj(st, o)
        if ob.kind == 'inst':
            v = ob.fields.get(name)
            if v is not None:
                p = I.present(v)
                if p is not FALSE:
                    return p
            fi = I.prog.lookup(ob.cls, name)
            if fi is not None and fi.kind in ('func', 'static', 'classmethod'):
                return TRUE
            if fi is not None:
                return TRUE
            if I.prog.lookup_attr(ob.cls, name) is not None:
                return TRUE
            if I.prog.has_ext_base(ob.cls):
                return mk('hasattr', I.reify(o, st), name)
            v = I.dyn_class_attr(ob.cls, name, st)
            return FALSE if v is None else I.present(v)
        if ob.kind == 'sym':
            if name in ob.fields:
                return I.present(ob.fields[name])
            if ob.base is not None:
                return has_attr(I, ob.base, name, st)
        return FALSE
    key = (o, '.' + name)
    if key in st.ov:
        return I.present(st.ov[key])
    if o.op == 'cls':
        ci = I.prog.cls(o.args[0])
        if ci is not None:
            if I.prog.lookup(ci, name) is not None or I.prog.lookup_attr(ci, name) is not None or name.startswith('__'):
                return TRUE
            v = I.dyn_class_attr(ci, name, st)
            if v is not None:
                return I.present(v)
            if not I.prog.has_ext_base(ci):
                return FALSE
    ci = I.type_of(o)
    if ci is not None and (I.prog.lookup(ci, name) is not None):
        return TRUE
    if o.op == 'inst':
        d = dict(zip(o.args[1::2], o.args[2::2]))
        return const(name in d)
    if o.op in ('num', 'poly') or o.op in BOOLS:
        return FALSE
    return mk('hasattr', o, name)


def is_instance(I, v, c, st):
    v = I.simplify_value(v, st)
    if v.op == 'ite':
        return ite(v.args[0], is_instance(I, v.args[1], c, st), is_instance(I, v.args[2], c, st))
    cs = list(c.args) if c.op == 'tup' else [c]
    segs = I.segs_of(c, st) if c.op == 'ref' else None
    if segs:
        cs = [s.args[0] for s in segs]
    res = []
    for k in cs:
        res.append(_isinst1(I, v, k, st))
    return bor(*res)


def _isinst1(I, v, k, st):
    if k.op == 'cls':
        ci = I.prog.cls(k.args[0])
        if v.op == 'ref':
            ob = I.obj(st, v)
            if ob.kind == 'inst' and ob.cls is not None:
                return const(ci in I.prog.mro(ob.cls))
            if ob.kind in ('list', 'dict'):
                return FALSE
        if v.op == 'inst':
            cc = I.prog.cls(v.args[0])
            return const(cc is not None and ci in I.prog.mro(cc))
        if v.op in ('num', 'const', 'poly', 'tup', 'seq', 'cls', 'fn', 'lam'):
            return FALSE
    if k.op == 'ext':
        n = k.args[0].split('.')[-1]
        if v.op == 'ref':
            ob = I.obj(st, v)
            if ob.kind == 'list':
                return const(n == 'list') if n in ('list', 'dict', 'str', 'float', 'int', 'tuple') else mk('isinst', I.reify(v, st), n)
            if ob.kind == 'dict':
                return const(n == 'dict')
            if ob.kind == 'inst':
                return FALSE if k.args[0].startswith(('builtins.', 'numpy.')) else mk('isinst', I.reify(v, st), n)
            return mk('isinst', ob.base if ob.base is not None else unknown('x'), n)
        if v.op == 'const':
            x = v.args[0]
            if isinstance(x, bool):
                return const(n in ('bool', 'int'))
            if isinstance(x, str):
                return const(n == 'str')
            if x is None:
                return FALSE
        if v.op == 'num':
            if n in ('str', 'list', 'dict', 'tuple', 'ndarray'):
                return FALSE
        if v.op == 'tup':
            if n in ('str', 'list', 'dict', 'float', 'int', 'ndarray', 'tuple'):
                return const(n == 'tuple')
        if v.op == 'poly' and n in ('str', 'list', 'dict', 'tuple'):
            return FALSE
        if v.op in ('cls', 'fn', 'lam') and n in ('str', 'list', 'dict', 'tuple', 'float', 'int'):
            return FALSE
    if getattr(I.cfg, 'floats', False) and show(k).replace('builtins.', '') in ('float', 'int', 'list', 'tuple', 'numpy.ndarray', 'np.ndarray'):
        return const(show(k).replace('builtins.', '') == 'float')
    return mk('isinst', I.reify(v, st), show(k).replace('builtins.', ''))
