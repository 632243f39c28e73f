"""Equality of gated terms by case splitting; verdicts equal / differ / undetermined."""
from .terms import *
from .terms import _poly, _unpoly, _canon_diff
from . import terms as TM
from . import ri

ATOMS = ('neg', 'pos', 'zero', 'eq', 'truth', 'in', 'lt', 'exc', 'isinst', 'hasattr')


def atom_key(t):
    if t.op in ('neg', 'pos', 'zero'):
        return ('sgn', t.args[0])
    return ('b', t)


class Budget(Exception):
    pass


def simp(t, asg, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ATOMS:
        k = atom_key(t)
        v = asg.get(k)
        if v is not None:
            if k[0] == 'sgn':
                r = const({'neg': v < 0, 'pos': v > 0, 'zero': v == 0}[t.op])
            else:
                r = const(v)
            memo[t] = r
            return r
    r = rebuild(t, lambda a: simp(a, asg, memo))
    if r is not t and r.op in ATOMS:
        k = atom_key(r)
        if k in asg:
            r2 = simp(r, asg, memo)
            memo[t] = r2
            return r2
    memo[t] = r
    return r


def next_atom(t, seen=None):
    """first undecided atom (outermost gate first)"""
    st = [t]
    seen = set()
    found = None
    while st:
        u = st.pop(0)
        if u in seen:
            continue
        seen.add(u)
        if u.op in ATOMS:
            # prefer atoms that contain no nested atoms
            for a in u.args:
                if isinstance(a, T):
                    x = next_atom(a)
                    if x is not None:
                        return x
            return u
        st.extend(a for a in u.args if isinstance(a, T))
    return None


def _threshold(q):
    """q = c*(B - t) with B normalised: (B, t, sign of c)"""
    r = _THR.get(q)
    if r is None:
        p = TM._poly(q)
        const, rest = 0, []
        for m, c in p.items():
            if m:
                rest.append((m, c))
            else:
                const = c
        if not rest or any(isinstance(c, TM.T) for _, c in rest) or isinstance(const, TM.T):
            r = ()
        else:
            lead = min(rest, key=lambda mc: repr(mc[0]))[1]
            B = frozenset((m, c / lead) for m, c in rest)
            r = (B, -const / lead, 1 if lead > 0 else -1)
        _THR[q] = r
    return r


_THR = {}


def _disjoint(q, v, q1, v1):
    """sign(q) = v and sign(q1) = v1 cannot hold together when both bound the same quantity"""
    a, b = _threshold(q), _threshold(q1)
    if not a or not b or a[0] != b[0]:
        return False
    (t, s), (t1, s1) = (a[1], v * a[2]), (b[1], v1 * b[2])
    if s < 0 < s1 or (s <= 0 < s1) or (s < 0 <= s1):
        # B below (or at) t, above (or at) t1
        return t1 > t or t1 == t
    if s > 0 > s1 or (s > 0 >= s1) or (s >= 0 > s1):
        return t > t1 or t == t1
    if s == 0 and s1 == 0:
        return t != t1
    return False


def _eq_classes(asg):
    """union-find over the equalities of asg: find"""
    up = {}

    def find(t):
        while t in up:
            t = up[t]
        return t

    def union(a, b):
        a, b = find(a), find(b)
        if a is b:
            return
        if is_const(a) or not is_const(b) and a.id < b.id:
            a, b = b, a
        up[a] = b
    for (k, q), v in asg.items():
        if k == 'b' and v and q.op == 'eq':
            union(*q.args)
        elif k == 'sgn' and v == 0:
            ab = _pair(q)
            if ab:
                union(*ab)
    return up, find


def _pair(q):
    """q = c*(a - b) with atoms or numbers a, b"""
    p = TM._poly(q)
    if any(isinstance(c, TM.T) for c in p.values()) or len(p) > 2 or not p:
        return None
    const, at = 0, []
    for m, c in p.items():
        if not m:
            const = c
        elif len(m) == 1 and m[0][1] is ONE:
            at.append((m[0][0], c))
        else:
            return None
    if len(at) == 1:
        return at[0][0], num(-const / at[0][1])
    if len(at) == 2 and at[0][1] == -at[1][1]:
        return at[0][0], at[1][0]
    return None


def _eq_consistent(asg):
    if not any(k == 'b' and v and q.op == 'eq' for (k, q), v in asg.items()):
        return True
    up, find = _eq_classes(asg)
    for x in list(up):
        r = find(x)
        if is_const(x) and is_const(r) and x is not r:
            return False
    for (k, q), v in asg.items():
        if k == 'b' and not v and q.op == 'eq' and find(q.args[0]) is find(q.args[1]):
            return False
        if k == 'sgn' and v != 0:
            ab = _pair(q)
            if ab and find(ab[0]) is find(ab[1]):
                return False
    return True


def consistent(asg):
    """False when the sign conditions of asg contradict each other (exact linear elimination, monomials as variables)"""
    eqs, ineqs = [], []
    ren = None
    if any(k == 'b' and v and q.op == 'eq' for (k, q), v in asg.items()):
        up, find = _eq_classes(asg)
        if up:
            ren = {x: find(x) for x in up}
    for (k, q), v in asg.items():
        if k != 'sgn':
            continue
        if ren and v != 0:
            q = TM.subst(q, lambda t: ren.get(t))
            if q.op == 'num' and (q.args[0] > 0) - (q.args[0] < 0) != v:
                return False
        row, const = {}, 0
        for m, c in TM._poly(q).items():
            if isinstance(c, TM.T):
                row = None
                break
            if m:
                row[m] = c
            else:
                const = c
        if row is None or not row:
            continue
        if v == 0:
            eqs.append((row, const))
        else:
            ineqs.append(({m: c * v for m, c in row.items()}, const * v))     # row + const > 0
    if not _eq_consistent(asg):
        return False
    if len(eqs) + len(ineqs) < (2 if ren else 3) or len(ineqs) > 40:
        return True

    def subst(r, c, var, er, ec):
        k = r.pop(var, 0)
        if not k:
            return r, c
        f = k / er[var]
        out = dict(r)
        for m, x in er.items():
            if m != var:
                y = out.get(m, 0) - f * x
                if y:
                    out[m] = y
                else:
                    out.pop(m, None)
        return out, c - f * ec
    while eqs:
        er, ec = eqs.pop()
        if not er:
            if ec:
                return False
            continue
        var = next(iter(er))
        eqs = [subst(dict(r), c, var, er, ec) for r, c in eqs]
        ineqs = [subst(dict(r), c, var, er, ec) for r, c in ineqs]
    while True:
        live = []
        for r, c in ineqs:
            if not r:
                if c <= 0:
                    return False
            else:
                live.append((r, c))
        ineqs = live
        if not ineqs:
            return True
        count = {}
        for r, _ in ineqs:
            for m, c in r.items():
                p = count.setdefault(m, [0, 0])
                p[c > 0] += 1
        var = min(count, key=lambda m: count[m][0] * count[m][1] - count[m][0] - count[m][1])
        lo = [x for x in ineqs if x[0].get(var, 0) > 0]
        hi = [x for x in ineqs if x[0].get(var, 0) < 0]
        rest = [x for x in ineqs if var not in x[0]]
        if len(lo) * len(hi) + len(rest) > 400:
            return True
        seen = set()
        for a, ca in lo:
            for b, cb in hi:
                fa, fb = -b[var], a[var]
                r = {}
                for m in set(a) | set(b):
                    if m != var:
                        y = fa * a.get(m, 0) + fb * b.get(m, 0)
                        if y:
                            r[m] = y
                key = (frozenset(r.items()), fa * ca + fb * cb)
                if key not in seen:
                    seen.add(key)
                    rest.append((r, key[1]))
        ineqs = rest


def feasible(asg, key, val):
    if key[0] == 'sgn':
        q = key[1]
        for (k0, q1), v1 in asg.items():
            if k0 != 'sgn':
                continue
            if _threshold(q) and _threshold(q1):
                if _disjoint(q, val, q1, v1):
                    return False
                continue
            for sg in (1, -1):
                d = sub(q, q1 if sg == 1 else TM.neg(q1))
                if d.op == 'num':
                    c = d.args[0]
                    s1 = v1 * sg
                    # q = sg*q1 + c
                    if s1 == 0 and val != (c > 0) - (c < 0):
                        return False
                    if s1 > 0 and c >= 0 and val <= 0:
                        return False
                    if s1 < 0 and c <= 0 and val >= 0:
                        return False
        return True
    t = key[1]
    if t.op == 'eq' and val:
        a, b = t.args
        for (k0, u), v in asg.items():
            if k0 == 'b' and u.op == 'eq' and v and u is not t:
                if u.args[0] is a and is_const(u.args[1]) and is_const(b):
                    return False
            if k0 == 'b' and u.op == 'truth' and b is NONE and u.args[0] is a and v:
                return False
            if k0 == 'b' and u.op == 'isinst' and b is NONE and u.args[0] is a and v:
                return False
            if k0 == 'b' and u.op == 'truth' and b.op == 'const' and b.args[0] and u.args[0] is a and not v:
                return False
    if t.op in ('truth', 'isinst') and val:
        e = ('b', TM.eq(t.args[0], NONE))
        if asg.get(e):
            return False
    if t.op == 'truth' and not val:
        for (k0, u), v in asg.items():
            if k0 == 'b' and u.op == 'eq' and v and u.args[0] is t.args[0] and u.args[1].op == 'const' and u.args[1].args[0]:
                return False
    if t.op == 'truth' and val:
        for (k0, u), v in asg.items():
            if k0 == 'b' and u.op == 'truth' and v and u is not t and False:
                return False
    return True


def denoms(t, acc):
    for u in walk(t):
        if u.op == 'term':
            for i in range(1, len(u.args), 2):
                b, e = u.args[i], u.args[i + 1]
                if e.op == 'num' and e.args[0] < 0 and b.op in ('poly',):
                    acc.append((b, e))
    return acc


def is_zero(d, depth=0):
    if d is ZERO:
        return True
    if d.op != 'poly' or depth > 6:
        return False
    # clear denominators that are sums
    cl = {}
    for m in d.args:
        for i in range(1, len(m.args), 2):
            b, e = m.args[i], m.args[i + 1]
            if b.op == 'poly' and e.op == 'num' and e.args[0] < 0:
                cl[b] = min(cl.get(b, 0), e.args[0])
            elif b.op == 'poly' and e.op == 'num' and e.args[0] > 0 and e.args[0].denominator != 1:
                pass
    if not cl:
        return False
    new = d
    for b, e in cl.items():
        k = -e
        if k.denominator != 1:
            k = Fraction(k.numerator // k.denominator + 1)
        # multiply term by term
        parts = []
        for m in (new.args if new.op == 'poly' else [new]):
            tm = mul(mk('poly', m) if m.op == 'term' and len(m.args) > 1 else (num(m.args[0]) if m.op == 'term' else m), power(b, num(k)) if k > 4 else _ipow(b, int(k), m))
            parts.append(tm)
        new = add(*parts)
        if new.size > 20000:
            return False
    if new is d:
        return False
    return is_zero(new, depth + 1)


def _ipow(b, k, m):
    # combine exponents first so that b^-2 * b^2 cancels without expanding
    return mk('poly', mk('term', Fraction(1), b, num(k))) if k != 1 else _Keep(b)


def _Keep(b):
    return mk('poly', mk('term', Fraction(1), b, ONE))


def same(a, b):
    """structural/arithmetical equality without splitting gates"""
    if a is b:
        return True
    if a.op == 'poly' or b.op == 'poly':
        if a.op in ('const', 'seq', 'tup', 'dict', 'inst', 'cls') or b.op in ('const', 'seq', 'tup', 'dict', 'inst', 'cls'):
            return False
        d = sub(a, b)
        if is_zero(d):
            return True
        # congruence: align atoms that are equal modulo arithmetic inside
        return _congr(a, b)
    if a.op == b.op and len(a.args) == len(b.args) and a.args:
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if not same(x, y):
                    return False
            elif x != y:
                return False
        return True
    return False


def _congr(a, b):
    """unify atoms of a and b that are equal up to arithmetic in their arguments"""
    atoms_a = [u for u in walk(a) if u.op in ('call', 'meth', 'idx', 'attr', 'poly') and u is not a]
    atoms_b = [u for u in walk(b) if u.op in ('call', 'meth', 'idx', 'attr', 'poly') and u is not b]
    sa, sb = set(atoms_a), set(atoms_b)
    only_a = [u for u in atoms_a if u not in sb]
    only_b = [u for u in atoms_b if u not in sa]
    if not only_a or not only_b or len(only_a) * len(only_b) > 400:
        return False
    only_a.sort(key=lambda u: u.size)
    m = {}
    for u in only_a:
        for v in only_b:
            if u.op == v.op and u.size < a.size and v.size < b.size and v not in m:
                if u.op == 'poly':
                    if is_zero(sub(u, v)):
                        m[v] = u
                        break
                elif same(u, v):
                    m[v] = u
                    break
    if not m:
        return False
    b2 = subst(b, lambda t: m.get(t))
    if b2 is b:
        return False
    return a is b2 or (a.op == 'poly' or b2.op == 'poly') and is_zero(sub(a, b2)) or same(a, b2) if b2 is not b else False


def same_under(a, b, asg):
    if same(a, b):
        return True
    # equality modulo facts d == 0
    for (k, q), v in asg.items():
        if k == 'sgn' and v == 0:
            for sol in solve_for_atom(q):
                x, e = sol
                if same(subst1(a, x, e), subst1(b, x, e)):
                    return True
    for (k, t), v in asg.items():
        if k == 'b' and v and t.op == 'eq':
            if same(subst1(a, t.args[0], t.args[1]), subst1(b, t.args[0], t.args[1])):
                return True
    if sum(1 for (k, q), v in asg.items() if k == 'b' and v and q.op == 'eq') and sum(1 for (k, q), v in asg.items() if k == 'b' and v and q.op == 'eq' or k == 'sgn' and v == 0) > 1:
        up, find = _eq_classes(asg)
        m = {x: find(x) for x in up}
        return same(subst(a, lambda t: m.get(t)), subst(b, lambda t: m.get(t)))
    return False


def solve_for_atom(q):
    out = []
    p = _poly(q)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] is ONE and m[0][0].op != 'poly':
            rest = _unpoly({k: -v / c for k, v in p.items() if k != m})
            if not contains(rest, m[0][0]):
                out.append((m[0][0], rest))
    return out


class Diff:
    def __init__(self, a, b, asg, path=''):
        self.a, self.b, self.asg, self.path = a, b, asg, path

    def __str__(self):
        conds = []
        for (k, t), v in self.asg.items():
            if k == 'sgn':
                conds.append('%s %s 0' % (show(t, 5), {-1: '<', 0: '==', 1: '>'}[v]))
            else:
                conds.append(('%s' if v else 'not %s') % show(t, 5))
        s = 'got %s ; required %s' % (show(self.a, 7)[:600], show(self.b, 7)[:600])
        if self.path:
            s = self.path + ': ' + s
        if conds:
            s += ' ; when ' + ' and '.join(conds)[:400]
        return s


def compare(a, b, asg=None, budget=None, path=''):
    """None if equal, Diff if different; raises Budget."""
    if budget is None:
        budget = [3000]
    asg = dict(asg or {})
    if asg:
        memo = {}
        a = simp(a, asg, memo)
        b = simp(b, asg, memo)
    return _cmp(a, b, asg, budget, path)


def _cmp(a, b, asg, budget, path):
    if a is b:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    if a.op == b.op and a.op in ('tup', 'dict', 'inst', 'upd') and len(a.args) == len(b.args):
        ok = True
        for x, y in zip(a.args, b.args):
            if not (isinstance(x, T) and isinstance(y, T)):
                if x != y:
                    ok = False
        if a.op == 'dict' and ok:
            ok = all(x is y for x, y in zip(a.args[0::2], b.args[0::2]))
        if ok:
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if isinstance(x, T):
                    lab = path
                    if a.op == 'dict':
                        lab = path + '[%s]' % show(a.args[i - 1], 3) if i % 2 else path
                    elif a.op == 'tup':
                        lab = path + '[%d]' % i
                    elif a.op == 'inst' and i:
                        lab = path + '.' + str(a.args[i - 1])
                    r = _cmp(x, y, asg, budget, lab)
                    if r is not None:
                        return r
            return None
    if same(a, b):
        return None
    ea, eb = elementwise(a, b)
    if ea is not None:
        return _cmp(ea, eb, asg, budget, path + '[i]')
    at = next_atom(mk('pairx', a, b))
    if at is None:
        if same_under(a, b, asg) or ri.equal(a, b) or not consistent(asg):
            return None
        return Diff(a, b, asg, path)
    k = atom_key(at)
    vals = (-1, 0, 1) if k[0] == 'sgn' else (True, False)
    for v in vals:
        if not feasible(asg, k, v):
            continue
        na = dict(asg)
        na[k] = v
        memo = {}
        r = _cmp(simp(a, na, memo), simp(b, na, memo), na, budget, path)
        if r is not None:
            return r
    return None


def unwrap(t):
    while t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'splice':
        t = t.args[0].args[0]
    return t


def elementwise(a, b):
    """two array-valued terms written differently: compare their generic element"""
    a, b = unwrap(a), unwrap(b)
    pick = None
    for t in (a, b):
        if t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'each' and len(t.args[0].args) == 3 and t.args[0].args[2].op == 'item':
            pick = t
    if pick is None or a is b:
        return None, None
    other = b if pick is a else a
    if other.op not in ('poly', 'seq', 'ite') and not (other.op == 'call' and other.args[0] in TM.LIFT_UFUNC):
        return None, None
    n = pick.args[0].args[0]
    iv = mk('ivar', -1 - a.size - b.size)
    if other.op == 'seq' and not any(s.op == 'each' for s in other.args):
        return None, None
    x, y = elem(a, iv, n), elem(b, iv, n)
    if x is None or y is None:
        return None, None
    return x, y


ARRAYS = ('np.arange', 'np.linspace', 'np.logspace', 'np.round', 'np.array', 'np.unique', 'np.sort', 'np.append')


def elem(t, iv, n):
    t = unwrap(t)
    if t.op == 'seq':
        if len(t.args) == 1 and t.args[0].op == 'each' and len(t.args[0].args) == 3 and t.args[0].args[2].op == 'item' and t.args[0].args[0] is n:
            e = t.args[0]
            return subst1(e.args[2].args[0], mk('bvar', e.args[1]), iv)
        return None
    if t.op in ('poly', 'term', 'ite', 'not', 'and', 'or', 'neg', 'pos', 'zero') or t.op == 'call' and t.args[0] in TM.LIFT_UFUNC and len(t.args) > 2 and not t.args[2].args:
        bad = []

        def f(u):
            r = elem(u, iv, n)
            if r is None:
                bad.append(u)
                return u
            return r
        if t.op == 'call':
            r = mk('call', t.args[0], mk('args', *[f(u) for u in t.args[1].args]), t.args[2])
        else:
            r = rebuild(t, f)
        return None if bad else r
    if t.op == 'call' and t.args[0] in ARRAYS or t.op == 'rnd':
        return TM.idx(t, iv)
    return t


# ------------------------------------------------------------ vocabulary
BASIC = {'num', 'const', 'sym', 'attr', 'idx', 'poly', 'term', 'ite', 'not', 'and', 'or', 'neg', 'pos', 'zero', 'eq',
         'truth', 'in', 'seq', 'tup', 'dict', 'item', 'splice', 'each', 'cond', 'bvar', 'ivar', 'args', 'kw', 'cls',
         'pairx', 'absent', 'undef'}


def vocab(t):
    v = set()
    for u in walk(t):
        if u.op == 'call':
            v.add('call:' + u.args[0])
        elif u.op == 'meth':
            v.add('meth:' + u.args[1])
        elif u.op == 'rnd':
            v.add('rnd:' + u.args[0])
        elif u.op == 'inst':
            v.add('inst:' + str(u.args[0]))
        elif u.op not in BASIC:
            v.add(u.op)
    return v


def leaves(t):
    """maximal access paths rooted at symbols"""
    out = set()
    memo = set()

    def go(u, top):
        if u.op == 'sym' and u.args[0] in ('pi', 'e'):
            return
        if u.op in ('sym',) or (u.op in ('attr',) and is_path(u)):
            out.add(u)
            return
        if u in memo:
            return
        memo.add(u)
        for a in u.args:
            if isinstance(a, T):
                go(a, False)
    go(t, True)
    return out


def is_path(u):
    while u.op == 'attr':
        u = u.args[0]
    return u.op == 'sym'


SAFE = {'call:log', 'call:len', 'call:abs', 'call:max', 'call:min', 'call:sum', 'call:pow'}


def verdict(actual, expected, asg=None, budget=3000, known=()):
    """('equal', None) | ('differ', Diff) | ('unknown', reason)"""
    try:
        d = compare(actual, expected, asg, [budget])
    except Budget:
        return 'unknown', 'case budget exceeded'
    except RecursionError:
        return 'unknown', 'recursion'
    if d is None:
        return 'equal', None
    a, b = d.a, d.b
    for (k, t) in d.asg:
        ops = {u.op for u in walk(t)}
        if 'unknown' in ops:
            return 'unknown', 'the condition of the difference is unresolved: ' + str(d)[:300]
        if 'meth' in ops and not ops & {'sym', 'bvar', 'ivar', 'draw', 'rnd', 'inst', 'ext'}:
            return 'unknown', 'the condition of the difference is not evaluated: ' + str(d)[:300]
    va, vb = vocab(a), vocab(b)
    if 'unknown' in va:
        return 'unknown', 'unresolved construct: ' + '; '.join(sorted({str(u.args[0]) for u in walk(a) if u.op == 'unknown'}))[:300]
    extra = va - vb - SAFE - vocab(expected) - set(known)
    if extra:
        # different vocabulary: definite only if a required leaf is missing altogether
        la, lb = leaves(a), leaves(b)
        if not any(e.startswith(('lam', 'bm', 'ref', 'upd')) for e in extra):
            missing = [l for l in lb if l not in la and not any(contains(l, x) or contains(x, l) for x in la)]
            if missing:
                d.note = 'does not depend on ' + ', '.join(show(m) for m in missing)
                return 'differ', d
        return 'unknown', 'different vocabulary: ' + ', '.join(sorted(extra))[:200] + ' :: ' + str(d)[:800]
    return 'differ', d


def cases(a, asg=None, budget=None, limit=4000):
    """enumerate gate-free alternatives of a: (term, assignment)"""
    if budget is None:
        budget = [limit]
    asg = dict(asg or {})
    out = []

    def go(t, g):
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        at = next_atom(t) if t.op != 'pairx' else None
        if at is None:
            if consistent(g):
                out.append((t, g))
            return
        k = atom_key(at)
        for v in ((-1, 0, 1) if k[0] == 'sgn' else (True, False)):
            if feasible(g, k, v):
                n = dict(g)
                n[k] = v
                go(simp(t, n, {}), n)
    go(simp(a, asg, {}) if asg else a, asg)
    return out


def show_asg(asg):
    c = []
    for (k, t), v in asg.items():
        if k == 'sgn':
            c.append('%s %s 0' % (show(t, 5), {-1: '<', 0: '==', 1: '>'}[v]))
        else:
            c.append(('%s' if v else 'not %s') % show(t, 5))
    return ' and '.join(c)[:400]


def cases_top(a, asg=None):
    """alternatives of the outermost gates only"""
    out = []

    def go(t, g):
        if t.op == 'ite':
            c = t.args[0]
            memo = {}
            for v, b in ((True, t.args[1]), (False, t.args[2])):
                n = dict(g)
                if c.op in ATOMS:
                    k = atom_key(c)
                    if k[0] == 'b':
                        n[k] = v
                    elif c.op == 'zero' and v:
                        n[k] = 0
                    elif c.op in ('neg', 'pos') and v:
                        n[k] = -1 if c.op == 'neg' else 1
                go(b, n)
        else:
            out.append((t, g))
    go(a, dict(asg or {}))
    return out
