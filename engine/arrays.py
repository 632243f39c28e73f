"""Small literal arrays: element-wise numpy code on arrays whose entries are known one by one (entries may be conditional).

Only active for sessions created with Config(arrays=True)."""
import ast
from fractions import Fraction
from .terms import *
from . import terms as TM

ELEM1 = {'sqrt', 'log10', 'log', 'log2', 'exp', 'abs', 'absolute', 'fabs', 'square', 'negative', 'isnan', 'isfinite', 'sin', 'cos', 'tan', 'arctan', 'floor',
         'ceil', 'round', 'round_', 'around', 'logical_not', 'invert', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'isinf', 'bitwise_not', 'float64', 'sign',
         'tanh', 'sinh', 'cosh', 'arcsin', 'arccos', 'arctanh', 'arcsinh', 'expm1', 'log1p', 'cbrt'}
TRANS = {'tan', 'arctan', 'tanh', 'sinh', 'cosh', 'arcsin', 'arccos', 'arctanh', 'arcsinh', 'expm1', 'log1p', 'cbrt'}
ELEM2 = {'hypot', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'fmax', 'fmin', 'logical_and', 'logical_or',
         'less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal', 'bitwise_and', 'bitwise_or', 'arctan2'}


class No(Exception):
    pass


def entries(I, v, st):
    """[(condition, value)] of a literal array, or None"""
    v = I.simplify_value(v, st)
    if v.op == 'ite':
        a, b = entries(I, v.args[1], st), entries(I, v.args[2], st)
        if a is None or b is None or len(a) != len(b) or any(x[0] is not y[0] for x, y in zip(a, b)):
            return None
        return [(x[0], merge(I, v.args[0], x[1], y[1], st)) for x, y in zip(a, b)]
    if v.op == 'poly':
        l = TM.literal_items(v)
        return None if l is None else [(TRUE, x) for x in l]
    if v.op == 'seq':
        segs = v.args
    elif v.op == 'ref':
        o = I.obj(st, v)
        if o.kind != 'list':
            return None
        segs = o.segs
    else:
        return None
    out = []
    for s in segs:
        if s.op == 'item':
            out.append((TRUE, s.args[0]))
        elif s.op == 'cond' and all(x.op == 'item' for x in s.args[1:]):
            out += [(s.args[0], x.args[0]) for x in s.args[1:]]
        elif s.op == 'splice':
            e = entries(I, s.args[0], st)
            if e is None:
                return None
            out += e
        else:
            return None
    return out


def merge(I, c, a, b, st):
    ea, eb = entries(I, a, st), entries(I, b, st)
    if ea is not None and eb is not None and len(ea) == len(eb):
        return build(I, [(x[0], merge(I, c, x[1], y[1], st)) for x, y in zip(ea, eb)], st)
    return ite(c, a, b)


def build(I, es, st):
    segs = []
    for c, v in es:
        segs += cond_seg(c, [item(v)])
    return I.new_list(st, segs, arr=True)


def constarr(v):
    """scalar of a constant array such as 3*ones(n)"""
    def isone(x):
        return x.op == 'call' and x.args[0] in ('ones', 'zeros')
    if isone(v):
        return ONE if v.args[0] == 'ones' else ZERO
    if v.op == 'poly':
        found = [0]

        def f(u):
            if isone(u):
                found[0] += 1
                return ONE if u.args[0] == 'ones' else ZERO
            return None
        r = TM.subst(v, f)
        return r if found[0] else None
    if v.op == 'ite' and not v.args[0].op == 'seq':
        a, b = constarr(v.args[1]), constarr(v.args[2])
        if a is not None and b is not None:
            return ite(v.args[0], a, b)
    if v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'each' and len(v.args[0].args) == 3 and v.args[0].args[2].op == 'item':
        e = v.args[0]
        if not contains(e.args[2].args[0], mk('bvar', e.args[1])):
            return e.args[2].args[0]
    return None


def ndim(I, v, st):
    e = entries(I, v, st)
    if e is None:
        return 0
    return 1 + (ndim(I, e[0][1], st) if e else 0)


def shape(I, v, st):
    """shape of a literal array whose entries are all present, or None"""
    e = entries(I, v, st)
    if e is None or any(c is not TRUE for c, _ in e):
        return None
    sub_ = [shape(I, x, st) for _, x in e if isinstance(x, T)]
    if not e or all(x is None for x in sub_):
        return (len(e),)
    if any(x != sub_[0] or x is None for x in sub_):
        return None
    return (len(e),) + sub_[0]


def any_array(I, vals, st):
    return any(entries(I, v, st) is not None for v in vals)


def mapn(I, f, vals, st):
    """broadcast f over arrays and scalars"""
    vals = [I.simplify_value(v, st) for v in vals]
    nd = [ndim(I, v, st) for v in vals]
    top = max(nd)
    if top == 0:
        return f(*[I.reify(I.array_term(v, st), st) for v in vals])
    vs = []
    for v, n in zip(vals, nd):
        if n == 0 and v.op != 'num':
            c = constarr(I.reify(I.array_term(v, st), st))
            if c is not None:
                v = c
        vs.append(v)
    lead = [entries(I, v, st) if n == top else None for v, n in zip(vs, nd)]
    big = [e for e in lead if e is not None]
    size = max(len(e) for e in big)
    ref = next(e for e in big if len(e) == size)
    # a lone unconditional entry is stretched; conditional shapes must agree
    for e in big:
        if len(e) == size:
            for i, (x, y) in enumerate(zip(e, ref)):
                if x[0] is not y[0]:
                    if size == 1 and x[0] is TRUE or y[0] is TRUE and size == 1:
                        continue
                    raise No()
        elif len(e) != 1 or e[0][0] is not TRUE:
            raise No()
    if size == 1 and any(e[0][0] is not TRUE for e in big):
        ref = next(e for e in big if e[0][0] is not TRUE)
    out = []
    for i in range(size):
        args = [v if e is None else (e[i][1] if len(e) == size else e[0][1]) for v, e in zip(vs, lead)]
        out.append((ref[i][0], mapn(I, f, args, st)))
    return build(I, out, st)


def binop(I, op, a, b, st):
    if not any_array(I, (a, b), st):
        return None
    if isinstance(op, ast.MatMult):
        return npcall(I, 'matmul', [a, b], {}, st)
    try:
        return mapn(I, lambda x, y: I.arith(op, x, y), [a, b], st)
    except No:
        return None


def compare(I, op, a, b, st):
    import ast
    if not any_array(I, (a, b), st):
        return None

    def f(x, y):
        if isinstance(op, ast.Lt):
            return TM.lt(x, y)
        if isinstance(op, ast.Gt):
            return TM.lt(y, x)
        if isinstance(op, ast.LtE):
            return TM.le(x, y)
        if isinstance(op, ast.GtE):
            return TM.le(y, x)
        r = I.equal(x, y, st)
        return bnot(r) if isinstance(op, ast.NotEq) else r
    try:
        return mapn(I, f, [a, b], st)
    except No:
        return None


def invert(I, v, st):
    if not any_array(I, (v,), st):
        return None
    return mapn(I, lambda x: bnot(truth(x)), [v], st)


def isbool(v):
    return v.op in TM.BOOLOPS or v is TRUE or v is FALSE or v.op == 'truth' or v.op == 'ite' and isbool(v.args[1]) and isbool(v.args[2])


def take(I, o, k, st):
    """o[k] for one literal axis: integer, boolean mask or index array"""
    es, ks = entries(I, o, st), entries(I, k, st)
    if ks is None:
        if k.op == 'num':
            n = int(k.args[0])
            if all(c is TRUE for c, _ in es) and -len(es) <= n < len(es):
                return es[n][1]
        return pick(I, es, k, st)
    if ks and all(isbool(x) for _, x in ks):
        if len(ks) != len(es):
            raise No()
        return build(I, [(band(c, truth(x)), e[1]) for (c, x), e in zip(ks, es)], st)
    out = []
    for c, x in ks:
        if x.op == 'num' and all(cc is TRUE for cc, _ in es):
            n = int(x.args[0])
            if not -len(es) <= n < len(es):
                raise No()
            out.append((c, es[n][1]))
        else:
            r = pick(I, es, x, st)
            if r is None:
                raise No()
            out.append((c, r))
    return build(I, out, st)


def pick(I, es, k, st, depth=0):
    """entry number k (a gated number) of a conditional list"""
    if depth > 40:
        return None
    if k.op == 'poly' or k.op == 'ite':
        g = first_guard(k)
        if g is None:
            return None
        a = pick(I, [(TM.ite(g, c, c) if False else known(c, g, True), v) for c, v in es], TM.subst(k, lambda u: u.args[1] if u.op == 'ite' and u.args[0] is g else None), st, depth + 1)
        b = pick(I, [(known(c, g, False), v) for c, v in es], TM.subst(k, lambda u: u.args[2] if u.op == 'ite' and u.args[0] is g else None), st, depth + 1)
        if a is None or b is None:
            return None
        return ite(g, a, b)
    if k.op != 'num':
        return None
    n = int(k.args[0])
    if n < 0:
        return None
    for i, (c, v) in enumerate(es):
        c = I.known(c, st)
        if c is FALSE:
            continue
        if c is TRUE:
            if n == 0:
                return v
            n -= 1
            continue
        rest = es[i + 1:]
        a = v if n == 0 else pick(I, rest, num(n - 1), st, depth + 1)
        b = pick(I, rest, num(n), st, depth + 1)
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        return a if b is UNDEF else b if a is UNDEF else ite(c, a, b)
    return UNDEF


def known(c, g, val):
    """c when g is known"""
    def f(u):
        if u is g:
            return const(val)
        if g.op == 'not' and u is g.args[0]:
            return const(not val)
        return None
    return TM.subst(c, f)


def under(v, st):
    """v with the conditions decided by the path"""
    if not st.facts:
        return v
    return TM.subst(v, lambda u: st.facts.get(u))


def first_guard(k):
    for u in walk(k):
        if u.op == 'ite':
            return u.args[0]
    return None


def get_item(I, o, k, st):
    """o[k] on a literal array, or None"""
    if entries(I, o, st) is None:
        return None
    try:
        k = I.simplify_value(k, st)
        if k.op == 'tup' and len(k.args) > 1 and all(x.op == 'num' for x in k.args):
            v = o
            for x in k.args:
                v = take(I, v, x, st) if v is not None and entries(I, v, st) is not None else None
            return None if v is UNDEF else v
        if k.op == 'tup' and any(x is NONE or entries(I, x, st) is not None or x.op == 'call' and x.args[0] == 'slice' for x in k.args):
            lists = [entries(I, x, st) for x in k.args]
            if sum(e is not None for e in lists) > 1 and not any(x is NONE or isfull(x) for x in k.args):
                return pairwise(I, o, k.args, lists, st)
            return axes(I, o, list(k.args), st)
        if entries(I, k, st) is not None:
            return take(I, o, k, st)
        if k.op == 'call' and k.args[0] == 'slice':
            return slice_(I, o, k.args[1].args, st)
        if k.op in ('ite', 'poly') and first_guard(k) is not None or k.op == 'num' and any(c is not TRUE and I.known(c, st) is TRUE for c, _ in entries(I, o, st)):
            r = take(I, o, k, st)
            return None if r is UNDEF else r
    except No:
        pass
    return None


def pairwise(I, o, ks, lists, st):
    """o[i, j] with index arrays of one length: one entry per pair"""
    if any(e is not None and (any(c is not TRUE or isbool(x) or entries(I, x, st) is not None for c, x in e)) for e in lists):
        raise No()
    n = max(len(e) for e in lists if e is not None)
    if any(e is not None and len(e) not in (1, n) for e in lists):
        raise No()
    out = []
    for q in range(n):
        v = o
        for k, e in zip(ks, lists):
            v = take(I, v, k if e is None else e[q if len(e) == n else 0][1], st)
            if v is None or v is UNDEF:
                raise No()
        out.append((TRUE, v))
    return build(I, out, st)


def slice_(I, o, b, st):
    """slice of a literal array with conditional entries"""
    es = entries(I, o, st)
    lo, hi, step = b
    if all(c is TRUE for c, _ in es) and all(x is NONE or x.op == 'num' for x in b):
        return None
    if step is not NONE or any(x is not NONE and not (x.op == 'num' and x.args[0] >= 0) and first_guard(x) is None for x in (lo, hi)):
        return None
    out, pos = [], num(0)
    for c, v in es:
        g = c
        if lo is not NONE:
            g = band(g, bnot(TM.lt(pos, lo)))
        if hi is not NONE:
            g = band(g, TM.lt(pos, hi))
        out.append((g, v))
        pos = TM.add(pos, ite(c, num(1), num(0)))
    return build(I, out, st)


def sorted_(I, v, keyfn, reverse, st):
    """sorted literal list: exchange network on gated entries (at most 4)"""
    es = entries(I, v, st)
    if es is None or len(es) > 4:
        return None
    ks = [(c, x, keyfn(x)) for c, x in es]
    if any(k.op in ('ref', 'tup') for _, _, k in ks):
        return None
    for n in range(len(ks)):
        for i in range(len(ks) - 1):
            (c1, x1, k1), (c2, x2, k2) = ks[i], ks[i + 1]
            g = TM.lt(k1, k2) if reverse else TM.lt(k2, k1)
            if g is FALSE:
                continue
            f = lambda a, b: b if g is TRUE else ite(g, b, a)
            ks[i], ks[i + 1] = (f(c1, c2), f(x1, x2), f(k1, k2)), (f(c2, c1), f(x2, x1), f(k2, k1))
    r = build(I, [(c, x) for c, x, _ in ks], st)
    o = I.obj(st, r)
    return I.new_list(st, o.segs)


def isfull(x):
    return x.op == 'call' and x.args[0] == 'slice' and all(a is NONE for a in x.args[1].args)


def axes(I, o, ks, st):
    if not ks:
        return o
    k = ks[0]
    if k is NONE:
        return build(I, [(TRUE, axes(I, o, ks[1:], st))], st)
    es = entries(I, o, st)
    if es is None:
        c = constarr(I.reify(o, st))
        if c is not None:
            return c
        raise No()
    if k.op == 'call' and k.args[0] == 'slice' and not isfull(k):
        b = k.args[1].args
        if all(c is TRUE for c, _ in es) and all(x is NONE or x.op == 'num' and x.args[0].denominator == 1 for x in b):
            es = es[slice(*[None if x is NONE else int(x.args[0]) for x in b])]
            o = build(I, es, st)
        else:
            o = slice_(I, o, b, st)
            if o is None:
                raise No()
            es = entries(I, o, st)
    elif not isfull(k):
        o = take(I, o, k, st)
        if entries(I, k, st) is None:
            return axes(I, o, ks[1:], st)
        es = entries(I, o, st)
    if len(ks) == 1:
        return o
    return build(I, [(c, axes1(I, v, ks[1:], st)) for c, v in es], st)


def axes1(I, v, ks, st):
    """remaining axes of one entry"""
    if not ks:
        return v
    if ks[0] is NONE:
        return build(I, [(TRUE, axes1(I, v, ks[1:], st))], st)
    return axes(I, v, ks, st)


def set_item(I, o, k, v, st):
    """new entries of o after o[k] = v, or None"""
    if k.op == 'tup' and len(k.args) == 1:
        k = k.args[0]
    if k.op == 'tup' and len(k.args) == 2:
        return set_cell(I, o, k.args[0], k.args[1], v, st)
    es, ks = entries(I, o, st), entries(I, k, st)
    if es is not None and k.op == 'call' and k.args[0] == 'slice' and all(x is NONE or x.op == 'num' and x.args[0].denominator == 1 for x in k.args[1].args):
        ks = [(TRUE, num(i)) for i in range(*slice(*[None if x is NONE else int(x.args[0]) for x in k.args[1].args]).indices(len(es)))]
    if es is None:
        c = constarr(I.reify(I.array_term(o, st), st))
        if c is None or ks is None or not ks or not all(isbool(x) for _, x in ks):
            return None
        es = [(TRUE, c) for _ in ks]
    if ks is None or any(c is not TRUE for c, _ in es):
        return None
    vs = entries(I, v, st)
    out = [x for _, x in es]
    if ks and len(ks) == len(es) and vs is None and all(c is TRUE and entries(I, x, st) is not None for c, x in ks) and all(entries(I, x, st) is not None for x in out):
        # a mask of the shape of a two-dimensional array
        rows = []
        for (_, x), old in zip(ks, out):
            m = entries(I, x, st)
            if not m or not all(isbool(y) for _, y in m):
                return None
            row = set_item(I, old, x, v, st)
            if row is None:
                return None
            rows.append((TRUE, build(I, row, st)))
        return rows
    if ks and all(isbool(x) for _, x in ks):
        if len(ks) != len(es):
            return None
        ks = [(band(c, truth(x)), num(i)) for i, (c, x) in enumerate(ks)]
    if vs is not None and (len(vs) != len(ks) or any(a[0] is not b[0] for a, b in zip(vs, ks))):
        if not (len(vs) == 1 and vs[0][0] is TRUE):
            return None
        vs = [vs[0]] * len(ks)
    for i, (c, x) in enumerate(ks):
        if x.op != 'num' or not 0 <= int(x.args[0]) < len(es):
            return None
        n = int(x.args[0])
        val = vs[i][1] if vs is not None else v
        if vs is None:
            cv = constarr(I.reify(I.array_term(v, st), st)) if v.op not in ('num', 'const') else None
            val = cv if cv is not None else v
        out[n] = merge(I, c, val, out[n], st) if c is not TRUE else val
    return [(TRUE, x) for x in out]


def set_cell(I, o, r, c, v, st):
    """two-dimensional store o[r, c] = v with whole or single rows and columns"""
    es = entries(I, o, st)
    if es is None or any(g is not TRUE for g, _ in es):
        return None
    rows = [x for _, x in es]
    if r.op == 'num':
        n = int(r.args[0])
        if not 0 <= n < len(rows):
            return None
        pick_ = [n]
        vs = [v]
    elif isfull(r):
        pick_ = range(len(rows))
        ve = entries(I, v, st)
        if ve is None:
            vs = [v] * len(rows)
        elif len(ve) == len(rows) and all(g is TRUE for g, _ in ve):
            vs = [x for _, x in ve]
        else:
            return None
    else:
        return None
    out = list(rows)
    for n, x in zip(pick_, vs):
        row = entries(I, rows[n], st)
        if row is None or any(g is not TRUE for g, _ in row):
            return None
        cells = [y for _, y in row]
        if c.op == 'num' and 0 <= int(c.args[0]) < len(cells):
            if entries(I, x, st) is not None:
                return None
            cells[int(c.args[0])] = x
        elif isfull(c):
            xe = entries(I, x, st)
            if xe is None:
                cells = [x] * len(cells)
            elif len(xe) == len(cells) and all(g is TRUE for g, _ in xe):
                cells = [y for _, y in xe]
            else:
                return None
        else:
            return None
        out[n] = build(I, [(TRUE, y) for y in cells], st)
    return [(TRUE, x) for x in out]


def where1(I, v, st):
    es = entries(I, v, st)
    if es is None or any(c is not TRUE for c, _ in es):
        return None
    return build(I, [(truth(x), num(i)) for i, (_, x) in enumerate(es)], st)


def reduce_(I, f, es, st):
    vals = []
    for c, v in es:
        vals.append((c, v))
    if f in ('any', 'all', 'sum', 'count_nonzero'):
        if ndim(I, vals[0][1], st) if vals else 0:
            raise No()
        if f == 'any':
            return bor(*[band(c, truth(I.reify(v, st))) for c, v in vals])
        if f == 'all':
            return band(*[bor(bnot(c), truth(I.reify(v, st))) for c, v in vals])
        if f == 'count_nonzero':
            vals = [(c, ite(truth(v), ONE, ZERO)) for c, v in vals]
        if f == 'sum' and vals and all(isbool(v) for _, v in vals):
            vals = [(c, ite(truth(v), ONE, ZERO)) for c, v in vals]
        return add(*[v if c is TRUE else ite(c, v, ZERO) for c, v in vals]) if vals else ZERO
    raise No()


def transpose(I, v, st):
    es = entries(I, v, st)
    rows = [entries(I, x, st) for _, x in es]
    if any(r is None for r in rows) or any(c is not TRUE for c, _ in es):
        raise No()
    n = len(rows[0]) if rows else 0
    if any(len(r) != n for r in rows):
        raise No()
    out = []
    for j in range(n):
        if any(r[j][0] is not rows[0][j][0] for r in rows):
            raise No()
        out.append((rows[0][j][0], build(I, [(TRUE, r[j][1]) for r in rows], st)))
    return build(I, out, st)


def npcall(I, f, a, kw, st):
    """numpy function on literal arrays, or None"""
    try:
        return _npcall(I, f, a, dict(kw), st)
    except No:
        return None


def _npcall(I, f, a, kw, st):
    from . import externals as X
    n = len(a)
    E = lambda v: entries(I, v, st)
    axis = kw.pop('axis', None)
    if axis is None and f in ('any', 'all', 'sum') and n == 2:
        axis, a, n = a[1], a[:1], 1
    kw.pop('dtype', None)
    if kw and set(kw) - {'keepdims'}:
        return None

    def R(x):
        return I.reify(x, st)

    def scalar(*xs):
        r = X.numpy_call(I, f, 'numpy.' + f, list(xs), {}, st, None, R)
        if r is None:
            if f in ('abs', 'absolute', 'fabs'):
                return X.absval(xs[0])
            r = mk('call', f if n == 1 and f not in TRANS else X.canon_ext('numpy.' + f), mk('args', *xs), mk('kw'))
        return r
    if f in ELEM1 and n == 1 and any_array(I, a, st):
        if f in ('invert', 'bitwise_not'):
            return invert(I, a[0], st)
        return mapn(I, scalar, a, st)
    if f in ELEM2 and n == 2 and any_array(I, a, st):
        if f in ('equal', 'not_equal'):
            import ast
            return compare(I, ast.Eq() if f == 'equal' else ast.NotEq(), a[0], a[1], st)
        if f in ('maximum', 'minimum', 'fmax', 'fmin'):
            return mapn(I, lambda *x: under(scalar(*x), st), a, st)
        return mapn(I, scalar, a, st)
    if f == 'clip' and n == 3 and any_array(I, a, st):
        return mapn(I, lambda *x: under(scalar(*x), st), a, st)
    if f == 'where' and n == 3 and any_array(I, a, st):
        return mapn(I, lambda c, x, y: under(ite(truth(c), x, y), st), a, st)
    if f in ('where', 'nonzero') and n == 1 and E(a[0]) is not None:
        r = where1(I, a[0], st)
        return None if r is None else mk('tup', r)
    if f in ('flatnonzero',) and n == 1 and E(a[0]) is not None:
        return where1(I, a[0], st)
    if f == 'norm' and n == 1 and E(a[0]) is not None:
        nd = ndim(I, a[0], st)
        ax = None if axis is None or axis is NONE else int(axis.args[0]) if axis.op == 'num' else 'no'
        length = lambda es: power(add(*[mul(v, v) for _, v in es]), num(Fraction(1, 2)))
        if nd == 1 and ax in (None, 0, -1):
            es = E(a[0])
        elif nd == 2 and ax in (0, 1, -1):
            es = E(transpose(I, a[0], st) if ax == 0 else a[0])
            if any(c is not TRUE for _, v in es for c, _ in E(v)):
                return None
            return build(I, [(c, length(E(v))) for c, v in es], st)
        else:
            return None
        return length(es) if all(c is TRUE for c, _ in es) else None
    if f in ('dot', 'matmul') and n == 2 and E(a[0]) is not None and E(a[1]) is not None:
        dims = ndim(I, a[0], st), ndim(I, a[1], st)
        if dims not in ((1, 1), (1, 2), (2, 1), (2, 2)):
            return None
        rows = [E(a[0])] if dims[0] == 1 else [E(v) for _, v in E(a[0])]
        t = a[1] if dims[1] == 1 else transpose(I, a[1], st)
        cols = [(TRUE, E(t))] if dims[1] == 1 else [(c, E(v)) for c, v in E(t)]
        if any(r is None or any(c is not TRUE for c, _ in r) for r in rows) or any(q is None or any(c is not TRUE for c, _ in q) or len(q) != len(rows[0]) for _, q in cols):
            return None
        prod = lambda r, q: add(*[mul(x, y) for (_, x), (_, y) in zip(r, q)])
        out = [[(c, prod(r, q)) for c, q in cols] for r in rows]
        if dims[1] == 1:
            out = [r[0][1] for r in out]
            return out[0] if dims[0] == 1 else build(I, [(TRUE, x) for x in out], st)
        out = [build(I, r, st) for r in out]
        return out[0] if dims[0] == 1 else build(I, [(TRUE, x) for x in out], st)
    if f in ('any', 'all', 'sum', 'count_nonzero') and n == 1 and E(a[0]) is not None:
        es = E(a[0])
        if axis is None or axis is NONE:
            if ndim(I, a[0], st) == 1:
                return reduce_(I, f, es, st)
            return None
        ax = int(axis.args[0]) if axis.op == 'num' else None
        nd = ndim(I, a[0], st)
        if ax is None or nd != 2 and not (nd == 1 and ax in (0, -1)):
            return None
        if nd == 1:
            return reduce_(I, f, es, st)
        if ax in (1, -1):
            return build(I, [(c, reduce_(I, f, E(v), st)) for c, v in es], st)
        t = transpose(I, a[0], st)
        return build(I, [(c, reduce_(I, f, E(v), st)) for c, v in E(t)], st)
    if f in ('column_stack', 'stack', 'vstack') and n == 1 and a[0].op == 'tup':
        a = [build(I, [(TRUE, x) for x in a[0].args], st)]
    if f in ('column_stack', 'stack', 'vstack', 'transpose') and n == 1 and E(a[0]) is not None:
        rows = E(a[0])
        if f == 'column_stack' or f == 'stack' and axis is not None and axis.op == 'num' and int(axis.args[0]) in (1, -1) or f == 'transpose':
            return transpose(I, a[0], st)
        return a[0]
    if f in ('atleast_1d', 'ravel', 'asarray', 'array', 'copy') and n == 1 and E(a[0]) is not None:
        if f == 'ravel' and ndim(I, a[0], st) > 1:
            return flat(I, a[0], st)
        return build(I, E(a[0]), st)
    if f == 'atleast_1d' and n == 1 and ndim(I, a[0], st) == 0:
        return None
    if f == 'expand_dims' and n == 1 and E(a[0]) is not None and axis is not None and axis.op == 'num':
        return axes(I, a[0], [NONE] if int(axis.args[0]) == 0 else [mk('call', 'slice', mk('args', NONE, NONE, NONE), mk('kw')), NONE], st)
    if f in ('ones', 'zeros', 'full') and a and a[0].op == 'num' and a[0].args[0].denominator == 1 and 0 <= a[0].args[0] <= 8:
        v = ONE if f == 'ones' else ZERO if f == 'zeros' else a[1]
        return build(I, [(TRUE, v)] * int(a[0].args[0]), st)
    if f == 'empty' and n == 1 and a[0].op == 'num' and a[0].args[0].denominator == 1 and 0 <= a[0].args[0] <= 8:
        return build(I, [(TRUE, TM.sym('uninitialised'))] * int(a[0].args[0]), st)
    if f == 'broadcast_to' and n == 2:
        k = a[1].args if a[1].op == 'tup' else (a[1],)
        if len(k) != 1 or k[0].op != 'num':
            return None
        m, es = int(k[0].args[0]), E(a[0])
        if es is None:
            return build(I, [(TRUE, a[0])] * m, st)
        if len(es) == 1 and es[0][0] is TRUE:
            return build(I, es * m, st)
        return build(I, es, st) if len(es) == m else None
    if f in ('ones_like', 'zeros_like', 'full_like') and a and E(a[0]) is not None:
        v = ONE if f == 'ones_like' else ZERO if f == 'zeros_like' else a[1]
        return build(I, [(c, v) for c, _ in E(a[0])], st)
    if f == 'arange' and n == 1 and a[0].op == 'num' and 0 <= a[0].args[0] <= 8:
        return build(I, [(TRUE, num(i)) for i in range(int(a[0].args[0]))], st)
    if f in ('sort', 'unique') and n == 1 and E(a[0]) is not None:
        es = E(a[0])
        if all(c is TRUE for c, _ in es):
            if len(es) <= 1:
                return build(I, es, st)
            vals = [v for _, v in es]
            if all(v.op == 'num' for v in vals):
                l = [v.args[0] for v in vals]
                l = sorted(set(l)) if f == 'unique' else sorted(l)
                return build(I, [(TRUE, num(x)) for x in l], st)
            if len(set(vals)) == 1 and f == 'unique':
                return build(I, [es[0]], st)
        elif f == 'unique' and all(v.op == 'num' for _, v in es):
            # a value is present when any of its copies is
            d = {}
            for c, v in es:
                d[v.args[0]] = TM.bor(d[v.args[0]], c) if v.args[0] in d else c
            return build(I, [(d[x], num(x)) for x in sorted(d)], st)
        return None
    if f in ('flip', 'flipud') and n == 1 and E(a[0]) is not None:
        es = E(a[0])
        if f == 'flip' and any(E(x) is not None for _, x in es):
            return None
        return build(I, es[::-1], st)
    if f == 'argsort' and n == 1 and E(a[0]) is not None:
        es = E(a[0])
        if all(c is TRUE and v.op == 'num' for c, v in es):
            # stable order; numpy leaves the order of ties open, so ties are not decided
            vals = [v.args[0] for _, v in es]
            if len(set(vals)) == len(vals):
                return build(I, [(TRUE, num(i)) for i in sorted(range(len(vals)), key=lambda i: vals[i])], st)
        return None
    if f == 'intersect1d' and n == 2:
        x, y = E(a[0]), E(a[1])
        if x is None or y is None or not all(v.op == 'num' for _, v in x + y):
            return None
        d = {}
        for c, v in y:
            d[v] = bor(d[v], c) if v in d else c
        out = {}
        for c, v in x:
            if v in d:
                out[v] = bor(out.get(v, FALSE), band(c, d[v]))
        return build(I, [(out[v], v) for v in sorted(out, key=lambda t: t.args[0])], st)
    if f in ('isin', 'in1d') and n == 2 and E(a[0]) is not None and E(a[1]) is not None:
        y = E(a[1])
        return build(I, [(c, bor(*[band(d, I.equal(v, w, st)) for d, w in y])) for c, v in E(a[0])], st)
    if f == 'searchsorted' and n == 2:
        x, y = E(a[0]), E(a[1])
        if x is None or not all(v.op == 'num' for _, v in x):
            return None
        if y is None:
            y1 = [(TRUE, a[1])]
        else:
            y1 = y
        out = []
        for c, v in y1:
            if v.op != 'num':
                return None
            r = add(*[ite(cx, ONE, ZERO) for cx, vx in x if vx.args[0] < v.args[0]]) if x else ZERO
            out.append((c, r))
        return build(I, out, st) if y is not None else out[0][1]
    if f == 'delete' and n == 2 and E(a[0]) is not None:
        es, ks = E(a[0]), E(a[1])
        if ks is None:
            ks = [(TRUE, a[1])]
        if any(c is not TRUE for c, _ in es) or not all(v.op == 'num' for _, v in ks):
            return None
        out = []
        for i, (c, v) in enumerate(es):
            g = bor(*[cc for cc, k in ks if int(k.args[0]) % len(es) == i])
            out.append((bnot(g), v))
        return build(I, out, st)
    if f == 'mean' and n == 1 and E(a[0]) and (axis is None or axis is NONE) and ndim(I, a[0], st) == 1 and all(c is TRUE for c, _ in E(a[0])):
        return div(add(*[v for _, v in E(a[0])]), num(len(E(a[0]))))
    if f in ('diff', 'ediff1d', 'cumsum') and n == 1 and E(a[0]) is not None:
        es = E(a[0])
        if any(c is not TRUE for c, _ in es) or ndim(I, a[0], st) != 1:
            return None
        vs = [v for _, v in es]
        if f == 'cumsum':
            return build(I, [(TRUE, add(*vs[:i + 1])) for i in range(len(vs))], st)
        return build(I, [(TRUE, add(vs[i + 1], mul(num(-1), vs[i]))) for i in range(len(vs) - 1)], st)
    if f in ('max', 'min', 'amax', 'amin') and n == 1 and E(a[0]) is not None and E(a[0]):
        es = E(a[0])
        if any(c is not TRUE for c, _ in es) or ndim(I, a[0], st) != 1:
            return None
        fn = X.vmax if 'max' in f else X.vmin
        r = es[0][1]
        for _, v in es[1:]:
            r = fn(r, v)
        return r
    return None


METHODS = {'dot', 'mean', 'any', 'all', 'sum', 'clip', 'max', 'min', 'round', 'ravel', 'copy', 'flatten', 'nonzero', 'astype', 'tolist', 'transpose'}


def flat(I, o, st):
    """the rows of a two-dimensional array one after the other"""
    if ndim(I, o, st) != 2:
        return None
    out = []
    for c, row in entries(I, o, st):
        es = entries(I, row, st)
        if es is None or c is not TRUE or any(k is not TRUE for k, _ in es):
            return None
        out += es
    return build(I, out, st)


def method(I, o, name, pos, kw, st):
    if name not in METHODS or entries(I, o, st) is None:
        return None
    if name in ('astype', 'copy', 'flatten', 'tolist'):
        if name == 'flatten' and ndim(I, o, st) > 1:
            return flat(I, o, st)
        if name == 'astype' and ndim(I, o, st) == 1 and pos and 'bool' in str(I.reify(pos[0], st)):
            return build(I, [(c, truth(I.reify(v, st))) for c, v in entries(I, o, st)], st)
        r = build(I, entries(I, o, st), st)
        if name == 'tolist':
            return I.new_list(st, I.obj(st, r).segs)
        return r
    return npcall(I, name, [o] + list(pos), kw, st)
