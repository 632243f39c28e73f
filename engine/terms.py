"""Hash-consed value-number terms with normalising constructors.

Arithmetic is kept in a polynomial normal form over atoms (exponents may be
symbolic), booleans over canonical comparison atoms, sequences as segment
lists.  Equality of two terms is decided by case splitting over the atoms of
their gates and cross-multiplying denominators.  Nothing is executed.
"""
from fractions import Fraction
from decimal import Decimal
import math
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'args', 'id', '__weakref__', 'size')

    def __repr__(self):
        return show(self, 6)


_tab = {}
_next = [0]


def mk(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _next[0] += 1
        t.id = _next[0]
        s = 1
        for a in args:
            if isinstance(a, T):
                s += a.size
        t.size = s
        _tab[key] = t
    return t


# ------------------------------------------------------------ constants
def num(v):
    if isinstance(v, Fraction):
        return mk('num', v)
    if isinstance(v, bool):
        return const(v)
    if isinstance(v, int):
        return mk('num', Fraction(v))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk('const', repr(v), 'float')
        return mk('num', Fraction(Decimal(repr(v))))
    raise TypeError(v)


def const(v):
    if isinstance(v, bool):
        return mk('const', v)
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, complex):
        return mk('const', repr(v), 'complex')
    return mk('const', v)


ZERO, ONE, TWO = num(0), num(1), num(2)
TRUE, FALSE, NONE = const(True), const(False), const(None)
ABSENT = mk('absent')
UNDEF = mk('undef')


def sym(n):
    return mk('sym', n)


PI, EUL = sym('pi'), sym('e')


def unknown(reason, *deps):
    return mk('unknown', reason, *deps)


def is_num(t):
    return t.op == 'num'


def is_const(t):
    return t.op in ('num', 'const')


def numval(t):
    return t.args[0]


# ------------------------------------------------------------ polynomials
MAXTERMS = 300


class TooBig(Exception):
    pass


def _poly(t):
    """dict: mono (tuple of (base, exp T)) -> Fraction"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        d = {}
        for m in t.args:
            d[tuple(zip(m.args[1::2], m.args[2::2]))] = m.args[0]
        return d
    if t.op == 'const' and isinstance(t.args[0], bool) and len(t.args) == 1:
        return {(): Fraction(int(t.args[0]))} if t.args[0] else {}
    return {((t, ONE),): Fraction(1)}


def _mono_key(m):
    return tuple((b.id, e.id) for b, e in m)


def _unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    terms = []
    for m in sorted(d, key=_mono_key):
        fl = [d[m]]
        for b, e in m:
            fl += [b, e]
        terms.append(mk('term', *fl))
    return mk('poly', *terms)


def _dist_ok(*ts):
    return True


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _unpoly(d)


def neg(t):
    return _unpoly({m: -c for m, c in _poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _is_int(e):
    return e.op == 'num' and e.args[0].denominator == 1


def _factor(n):
    """prime factorisation dict (bounded)"""
    f = {}
    n = int(n)
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        while n % p == 0:
            n //= p
            f[p] = f.get(p, 0) + 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _mono_mul(m1, m2):
    """-> (coef, mono, extra polys to multiply)"""
    ex = {}
    for b, e in m1 + m2:
        if b in ex:
            ex[b] = add(ex[b], e)
        else:
            ex[b] = e
    coef = Fraction(1)
    out = []
    extra = []
    for b, e in ex.items():
        if e is ZERO:
            continue
        if b.op == 'num' and e.op == 'num':
            r, x = b.args[0], e.args[0]
            if x.denominator == 1:
                coef *= r ** int(x)
                continue
            fl = x.numerator // x.denominator
            if fl:
                coef *= r ** fl
                x = x - fl
            if x == 0:
                continue
            out.append((b, num(x)))
            continue
        if b.op == 'poly' and _is_int(e) and 0 < e.args[0] <= 6:
            extra.append((b, int(e.args[0])))
            continue
        out.append((b, e))
    out.sort(key=lambda p: (p[0].id, p[1].id))
    return coef, tuple(out), extra


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        p = _poly(t)
        if len(p) * len(acc) > MAXTERMS:
            # keep the big factor as an atom
            if len(p) > 1:
                p = {((t, ONE),): Fraction(1)}
            if len(p) * len(acc) > MAXTERMS:
                a = _unpoly(acc)
                acc = {((a, ONE),): Fraction(1)}
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                c, m, extra = _mono_mul(m1, m2)
                if extra:
                    q = {m: c1 * c2 * c}
                    for b, k in extra:
                        for _ in range(k):
                            q = _pmul(q, _poly(b))
                    for mm, cc in q.items():
                        new[mm] = new.get(mm, 0) + cc
                else:
                    new[m] = new.get(m, 0) + c1 * c2 * c
        acc = {m: c for m, c in new.items() if c}
    return _unpoly(acc)


def _pmul(p, q):
    new = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c, m, extra = _mono_mul(m1, m2)
            if extra:
                # very rare; keep as atoms
                m = tuple(sorted(m + tuple((b, num(k)) for b, k in extra), key=lambda z: (z[0].id, z[1].id)))
            new[m] = new.get(m, 0) + c1 * c2 * c
    return new


def _content(p):
    """(coef, common mono, primitive poly dict) of a multi-term poly."""
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for b in list(common):
            if b not in d:
                del common[b]
            elif d[b] is not common[b]:
                if d[b].op == 'num' and common[b].op == 'num':
                    common[b] = d[b] if d[b].args[0] < common[b].args[0] else common[b]
                else:
                    del common[b]
    common = {b: e for b, e in common.items() if e.op == 'num'}
    cm = tuple(sorted(common.items(), key=lambda z: (z[0].id, z[1].id)))
    inv = tuple((b, neg(e)) for b, e in cm)
    q = {}
    for m, c in p.items():
        cc, mm, extra = _mono_mul(m, inv)
        q[mm] = q.get(mm, 0) + c * cc
    lead = q[min(q, key=_mono_key)]
    return lead, cm, q


def power(b, e):
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if b is ZERO and e.op == 'num' and e.args[0] > 0:
        return ZERO
    p = _poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if b.op == 'ite' and False:
            pass
        # (c * prod base^ei)^e
        acc = []
        for bb, ee in m:
            acc.append(_atom_pow(bb, mul(ee, e)))
        if c != 1:
            if c < 0 and not _is_int(e):
                if m:
                    acc.append(mk('poly', mk('term', Fraction(1), num(c), e)))
                else:
                    return mk('poly', mk('term', Fraction(1), num(c), e))
            else:
                acc.append(_num_pow(c, e))
        return mul(*acc) if acc else ONE
    if not p:
        return mk('call', 'pow', mk('args', b, e), mk('kw'))
    if _is_int(e) and 0 < e.args[0] <= 4 and len(p) ** int(e.args[0]) <= MAXTERMS:
        r = ONE
        for _ in range(int(e.args[0])):
            r = mul(r, b)
        return r
    lead, cm, q = _content(p)
    if _is_int(e):
        k = lead
    else:
        k = abs(lead)
    q = {m: c / k for m, c in q.items()}
    base = _unpoly(q)
    parts = [_atom_pow(base, e)]
    if k != 1:
        parts.append(_num_pow(k, e))
    for bb, ee in cm:
        parts.append(_atom_pow(bb, mul(ee, e)))
    if len(parts) == 1:
        return parts[0]
    return mul(*parts)


def _num_pow(c, e):
    """c positive Fraction (or e integer)"""
    if _is_int(e):
        return num(c ** int(e.args[0]))
    if e.op == 'num':
        parts = []
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            if n == 1:
                continue
            for pr, k in _factor(n).items():
                x = e.args[0] * k * s
                fl = x.numerator // x.denominator
                fr = x - fl
                if fl:
                    parts.append(num(Fraction(pr) ** fl))
                if fr:
                    parts.append(mk('poly', mk('term', Fraction(1), num(pr), num(fr))))
        return mul(*parts) if parts else ONE
    return _atom_pow(num(c), e)


def _atom_pow(b, e):
    if e is ONE:
        return b
    if e is ZERO:
        return ONE
    if b.op == 'poly' and _is_int(e) and 0 < e.args[0] <= 4:
        r = ONE
        for _ in range(int(e.args[0])):
            r = mul(r, b)
        return r
    if e.op != 'num':
        # b ** (sum): log elimination  b**(k*log x / log b) = x**k
        d = _poly(e)
        outs = []
        rest = {}
        for m, c in d.items():
            lg = [(bb, ee) for bb, ee in m if bb.op == 'call' and bb.args[0] == 'log' and ee is ONE]
            done = False
            if lg:
                if b is EUL:
                    x = lg[0][0].args[1].args[0]
                    mm = tuple(z for z in m if z[0] is not lg[0][0])
                    outs.append(power(x, _unpoly({mm: c})))
                    done = True
                else:
                    lb = log(b)
                    for z in m:
                        if z[0] is lb and z[1] is num(-1):
                            x = lg[0][0].args[1].args[0]
                            mm = tuple(y for y in m if y[0] is not lb and y[0] is not lg[0][0])
                            outs.append(power(x, _unpoly({mm: c})))
                            done = True
                            break
            if not done:
                rest[m] = c
        c0 = rest.pop((), None)
        if outs or c0 is not None:
            parts = list(outs)
            if c0 is not None:
                parts.append(power(b, num(c0)))
            r = _unpoly(rest)
            if r is not ZERO:
                parts.append(_atom_pow(b, r))
            return mul(*parts)
    if b.op == 'num' and e.op == 'num':
        return _num_pow(b.args[0], e) if b.args[0] > 0 else mk('poly', mk('term', Fraction(1), b, e))
    if b.op == 'num' and b.args[0] > 0 and b.args[0] != 1:
        # normalise base: 100**x -> 10**(2x); 1/10**x
        n = b.args[0]
        if n < 1:
            return _atom_pow(num(1 / n), neg(e))
        if n.denominator == 1:
            k = 0
            v = int(n)
            while v % 10 == 0:
                v //= 10
                k += 1
            if v == 1 and k > 1:
                return _atom_pow(num(10), mul(num(k), e))
    return mk('poly', mk('term', Fraction(1), b, e))


def div(a, b):
    return mul(a, power(b, num(-1)))


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


def log(x):
    if x is ONE:
        return ZERO
    if x is EUL:
        return ONE
    if x.op == 'num' and x.args[0] > 0:
        n = x.args[0]
        if n < 1:
            return neg(log(num(1 / n)))
        if n.denominator == 1:
            k = 0
            v = int(n)
            while v % 10 == 0:
                v //= 10
                k += 1
            if k > 0 and not (v == 1 and k == 1):
                r = mul(num(k), log(num(10)))
                return add(r, log(num(v))) if v > 1 else r
        return mk('call', 'log', mk('args', x), mk('kw'))
    p = _poly(x)
    if len(p) == 1 and x.op == 'poly':
        (m, c), = p.items()
        if c > 0:
            parts = [mul(e, log(b)) for b, e in m]
            if c != 1:
                parts.append(log(num(c)))
            return add(*parts)
    return mk('call', 'log', mk('args', x), mk('kw'))


def log10(x):
    return div(log(x), log(num(10)))


# ------------------------------------------------------------ booleans
def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return mk('not', t)


def band(*ts):
    s = {}
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.args if t.op == 'and' else (t,)):
            s[u] = 1
    for u in s:
        if bnot(u) in s:
            return FALSE
    l = sorted(s, key=lambda u: u.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk('and', *l)


def bor(*ts):
    s = {}
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for u in (t.args if t.op == 'or' else (t,)):
            s[u] = 1
    for u in s:
        if bnot(u) in s:
            return TRUE
    l = sorted(s, key=lambda u: u.id)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk('or', *l)


def _canon_diff(d):
    """positive scaling; returns (canonical poly, sign) with canonical leading coef > 0"""
    p = _poly(d)
    lead = p[min(p, key=_mono_key)]
    k = abs(lead)
    q = _unpoly({m: c / lead for m, c in p.items()})
    return q, (1 if lead > 0 else -1)


def lt(a, b):
    """a < b"""
    if a.op == 'const' and len(a.args) == 2 and a.args[1] == 'float' or b.op == 'const' and len(b.args) == 2 and b.args[1] == 'float':
        va = a.args[0] if a.op == 'const' else None
        vb = b.args[0] if b.op == 'const' else None
        if vb == 'inf' and va != 'inf':
            return mk('lt', a, b)
        return mk('lt', a, b)
    d = sub(a, b)
    return lt0(d)


def lt0(d):
    if d.op == 'num':
        return const(d.args[0] < 0)
    # log-linear comparison:  k*log(x)/log(10) + r < 0
    d = _unlog(d)
    if d.op == 'num':
        return const(d.args[0] < 0)
    s = closed_sign(d)
    if s is not None:
        return const(s < 0)
    p = _poly(d)
    if len(p) > 1:
        # a positive factor common to all terms
        ms = iter(p)
        com = set(next(ms))
        for m in ms:
            com &= set(m)
            if not com:
                break
        com = {(b, e) for b, e in com if b is PI or b is EUL or b.op == 'num' and b.args[0] > 0}
        if com:
            return lt0(_unpoly({tuple(x for x in m if x not in com): c for m, c in p.items()}))
    q, s = _canon_diff(d)
    return mk('neg', q) if s > 0 else mk('pos', q)


def closed_value(t):
    """(value, magnitude) of a term without symbols; None when it is not one, or not a real number"""
    import math

    def ev(u):
        if u.op == 'num':
            x = float(u.args[0])
            return x, abs(x)
        if u is PI:
            return math.pi, math.pi
        if u is EUL:
            return math.e, math.e
        if u.op == 'call' and u.args[0] == 'log' and len(u.args[1].args) == 1:
            x = math.log(ev(u.args[1].args[0])[0])
            return x, abs(x)
        if u.op not in ('poly', 'term', 'call'):
            raise ValueError(u.op)
        p = _poly(u)
        if list(p.items()) and len(p) == 1 and u.op == 'call':
            raise ValueError('atom')
        v = mag = 0.0
        for m, c in p.items():
            r, tot = float(c), 0.0
            for b, e in m:
                x, e = ev(b)[0], ev(e)[0]
                if x < 0:
                    x, tot = -x, tot + e
                r *= x ** e
            if abs(tot - round(tot)) > 1e-9:
                raise ValueError('sign')
            r *= (-1) ** int(round(tot))
            v, mag = v + r, mag + abs(r)
        return v, mag
    try:
        return ev(t)
    except (ValueError, ZeroDivisionError, OverflowError, RecursionError):
        return None


def closed_sign(d):
    """sign of a number such as 10**-0.5 - 1/2, None when it is too close to zero or not a number"""
    if d.op not in ('poly', 'term'):
        return None
    v = closed_value(d)
    if v is None or abs(v[0]) <= 1e-9 * v[1]:
        return None
    return 1 if v[0] > 0 else -1


def _unlog(d):
    p = _poly(d)
    if len(p) < 2 or len(p) > 4:
        return d
    L10 = mk('call', 'log', mk('args', num(10)), mk('kw'))
    logs = []
    rest = []
    for m, c in p.items():
        bs = dict(m)
        lg = [b for b in bs if b.op == 'call' and b.args[0] == 'log' and bs[b] is ONE and b is not L10]
        if len(lg) == 1:
            others = {b: e for b, e in bs.items() if b is not lg[0]}
            if not others or (list(others) == [L10] and others[L10] is num(-1)):
                logs.append((lg[0].args[1].args[0], c, bool(others)))
                continue
        rest.append((m, c))
    if len(logs) == 0:
        return d
    base10 = logs[0][2]
    if any(l[2] != base10 for l in logs):
        return d
    B = num(10) if base10 else EUL
    r = _unpoly(dict(rest))
    # sum c_i log x_i + r < 0  <=>  prod x_i^{c_i} < B^{-r}
    lhs = ONE
    rhs = power(B, neg(r))
    for x, c, _ in logs:
        if c > 0:
            lhs = mul(lhs, power(x, num(c)))
        else:
            rhs = mul(rhs, power(x, num(-c)))
    return sub(lhs, rhs)


def le(a, b):
    return bnot(lt(b, a))


NUMERIC_OPS = ('num', 'poly')


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op != 'const':
        a, b = b, a
    if a.op == 'num' and b.op == 'const' or a.op == 'const' and b.op == 'num':
        return FALSE if not (isinstance(a.args[0], bool) or isinstance(b.args[0], bool)) else const(a.args[0] == b.args[0])
    if is_const(a) and is_const(b):
        return FALSE
    if b is TRUE:
        return truth(a)
    if b is FALSE:
        return bnot(truth(a))
    if a.op == 'ite' and is_const(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'const':
        if b is NONE and a.op in NONNONE:
            return FALSE
        if isinstance(b.args[0], str) and a.op in ('poly', 'seq', 'tup', 'inst', 'cls', 'fn', 'ref'):
            return FALSE
        return mk('eq', a, b)
    if a.op in NUMERIC_OPS or b.op in NUMERIC_OPS:
        d = sub(a, b)
        if d.op == 'num':
            return const(d.args[0] == 0)
        q, s = _canon_diff(d)
        return mk('zero', q)
    if a.op == 'cls' and b.op == 'cls' or a.op == 'tup' and b.op == 'tup' and all(is_const(x) for x in a.args + b.args):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


NONNONE = ('num', 'poly', 'seq', 'tup', 'inst', 'cls', 'fn', 'ref', 'dict', 'bm', 'ext', 'mod', 'lam', 'rnd', 'upd')

BOOLOPS = ('not', 'and', 'or', 'neg', 'pos', 'zero', 'eq', 'truth', 'in', 'lt', 'exc', 'isinst', 'hasattr')


def truth(t):
    if t.op == 'const':
        return const(bool(t.args[0])) if len(t.args) == 1 else TRUE
    if t.op == 'num':
        return const(t.args[0] != 0)
    if t.op in BOOLOPS:
        return t
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('fn', 'cls', 'bm', 'inst', 'lam', 'ext', 'mod'):
        return TRUE
    if t.op == 'tup':
        return const(len(t.args) > 0)
    if t.op == 'dict':
        if not t.args:
            return FALSE
    if t.op == 'call' and t.args[0] == 'len':
        return bnot(eq(t, ZERO))
    if t.op == 'seq':
        if not t.args:
            return FALSE
        if any(s.op == 'item' for s in t.args):
            return TRUE
    return mk('truth', t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == 'ite':
        # ite(ite(x,y,z),a,b): keep
        pass
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is TRUE and _isb(b):
        return bor(c, b)
    if b is FALSE and _isb(a):
        return band(c, a)
    if a is FALSE and _isb(b):
        return band(bnot(c), b)
    if b is TRUE and _isb(a):
        return bor(bnot(c), a)
    if a.op == 'seq' and b.op == 'seq':
        return seq_ite(c, a, b)
    return mk('ite', c, a, b)


def _isb(t):
    return t.op in BOOLOPS or t is TRUE or t is FALSE


# ------------------------------------------------------------ sequences
def item(t):
    return mk('item', t)


def splice(t):
    return mk('splice', t)


def cond_seg(c, segs):
    """list of segments guarded by c"""
    if c is TRUE:
        return list(segs)
    if c is FALSE or not segs:
        return []
    out = []
    if len(segs) == 1 and segs[0].op == 'cond':
        c2 = segs[0].args[0]
        return cond_seg(band(c, c2), segs[0].args[1:])
    return [mk('cond', c, *segs)]


def seq(segs):
    out = []
    for s in segs:
        if s.op == 'splice':
            x = s.args[0]
            if x.op == 'seq':
                out.extend(x.args)
                continue
            if x.op == 'tup':
                out.extend(item(y) for y in x.args)
                continue
            if x.op == 'ite':
                a, b = x.args[1], x.args[2]
                if a.op in ('seq', 'tup') or b.op in ('seq', 'tup'):
                    out.extend(seq_ite(x.args[0], as_seq(a), as_seq(b)).args)
                    continue
        out.append(s)
    # merge complementary conds  cond(c,X) cond(!c,Y) are kept as they are
    return mk('seq', *out)


def as_seq(t):
    if t.op == 'seq':
        return t
    if t.op == 'tup':
        return mk('seq', *[item(y) for y in t.args])
    return mk('seq', splice(t))


def seq_ite(c, a, b):
    x, y = list(a.args), list(b.args)
    pre = []
    while x and y and x[0] is y[0]:
        pre.append(x.pop(0))
        y.pop(0)
    post = []
    while x and y and x[-1] is y[-1]:
        post.insert(0, x.pop())
        y.pop()
    mid = cond_seg(c, x) + cond_seg(bnot(c), y)
    if len(x) == 1 and len(y) == 1 and x[0].op == 'item' and y[0].op == 'item':
        mid = [item(ite(c, x[0].args[0], y[0].args[0]))]
    return mk('seq', *(pre + mid + post))


def maxlevel(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 0
        if t.op == 'bvar':
            r = t.args[0]
        for a in t.args:
            if isinstance(a, T):
                r = max(r, maxlevel(a))
        if t.op == 'each':
            r = max(r, t.args[1])
        memo[t] = r
    return r


LIFT_UFUNC = {'log', 'abs', 'floor', 'int', 'sin', 'cos', 'tan', 'arctan', 'exp', 'round', 'sqrt'}


def _liftable(t, iv, arrs):
    """t is arithmetic over idx(arr, iv) and loop-independent scalars."""
    if t.op == 'idx' and t.args[1] is iv:
        if contains(t.args[0], iv):
            return False
        arrs.append(t.args[0])
        return True
    if not contains(t, iv):
        return t.op not in ('seq', 'tup', 'dict', 'inst')
    if t.op in ('poly', 'term', 'not', 'and', 'or', 'neg', 'pos', 'zero', 'ite'):
        return all(_liftable(a, iv, arrs) for a in t.args if isinstance(a, T))
    if t.op == 'call' and t.args[0] in LIFT_UFUNC and not t.args[2].args:
        return all(_liftable(a, iv, arrs) for a in t.args[1].args)
    return False


def each(n, iv, segs):
    """for iv in range(n): append segs"""
    if not segs:
        return []
    # constant unroll is done by the caller
    if len(segs) == 1 and segs[0].op == 'item':
        b = segs[0].args[0]
        if b.op == 'idx' and b.args[1] is iv and not contains(b.args[0], iv) and length(b.args[0]) is n:
            return [splice(b.args[0])]
        arrs = []
        if b.op != 'idx' and contains(b, iv) and _liftable(b, iv, arrs) and arrs and any(length(a) is n for a in arrs):
            return [splice(subst(b, lambda t: t.args[0] if (t.op == 'idx' and t.args[1] is iv) else None))]
    lvl = 1 + max(maxlevel(s) for s in segs)
    bv = mk('bvar', lvl)
    ns = [subst1(s, iv, bv) for s in segs]
    return [mk('each', n, lvl, *ns)]


def length(t):
    if t.op == 'tup':
        return num(len(t.args))
    if t.op == 'const' and isinstance(t.args[0], str):
        return num(len(t.args[0]))
    if t.op == 'dict':
        return num(len(t.args) // 2)
    if t.op == 'seq':
        parts = []
        for s in t.args:
            if s.op == 'item':
                parts.append(ONE)
            elif s.op == 'splice':
                parts.append(length(s.args[0]))
            elif s.op == 'each' and all(x.op == 'item' for x in s.args[2:]):
                parts.append(mul(s.args[0], num(len(s.args) - 2)))
            elif s.op == 'cond' and all(x.op == 'item' for x in s.args[1:]):
                parts.append(ite(s.args[0], num(len(s.args) - 1), ZERO))
            else:
                parts.append(mk('call', 'len', mk('args', mk('seq', s)), mk('kw')))
        return add(*parts) if parts else ZERO
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    sl = _tail_slice(t)
    if sl is not None:
        return sub(length(t.args[0]), num(sl[0] + sl[1]))
    # elementwise arithmetic keeps the length of its (single) array operand
    if t.op == 'call' and t.args[0] == 'ones' and len(t.args[1].args) == 1:
        return t.args[1].args[0]
    if t.op == 'call' and t.args[0] in LIFT_UFUNC and len(t.args[1].args) == 1:
        return length(t.args[1].args[0])
    return mk('call', 'len', mk('args', t), mk('kw'))


def zip_segs(segs, others, f):
    """map f(element, [matching element of each other list]) over segments of lists with the same shape; None if shapes differ"""
    def opened(l):
        r = []
        for x in l:
            if x.op == 'splice':
                lv = 1 + maxlevel(x)
                x = mk('each', length(x.args[0]), lv, item(idx(x.args[0], mk('bvar', lv))))
            r.append(x)
        return r
    out = []
    segs, others = opened(segs), [opened(o) for o in others]
    if any(len(o) != len(segs) for o in others):
        return None
    for i, s in enumerate(segs):
        os_ = [o[i] for o in others]
        if any(o.op != s.op for o in os_):
            return None
        if s.op == 'item':
            v = f(s.args[0], [o.args[0] for o in os_])
            if v is None:
                return None
            out.append(item(v))
        elif s.op == 'cond':
            if any(o.args[0] is not s.args[0] for o in os_):
                return None
            r = zip_segs(s.args[1:], [o.args[1:] for o in os_], f)
            if r is None:
                return None
            out.append(mk('cond', s.args[0], *r))
        elif s.op == 'each':
            if any(o.args[0] is not s.args[0] for o in os_):
                return None
            lv = max([s.args[1]] + [o.args[1] for o in os_])
            bv = mk('bvar', lv)

            def norm(e):
                if e.args[1] == lv:
                    return list(e.args[2:])
                if any(contains(x, bv) for x in e.args[2:]):
                    return None
                return [subst1(x, mk('bvar', e.args[1]), bv) for x in e.args[2:]]
            ss, oo = norm(s), [norm(o) for o in os_]
            if ss is None or any(o is None for o in oo):
                return None
            r = zip_segs(ss, oo, f)
            if r is None:
                return None
            lvl = max([lv] + [1 + maxlevel(x) for x in r if maxlevel(x) > lv])
            out.append(mk('each', s.args[0], lvl, *[subst1(x, bv, mk('bvar', lvl)) for x in r]))
        else:
            return None
    return out


# ------------------------------------------------------------ traversal
def contains(t, x):
    if t is x:
        return True
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u is x:
            return True
        if u in seen:
            continue
        seen.add(u)
        st.extend(a for a in u.args if isinstance(a, T))
    return False


def walk(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        st.extend(a for a in u.args if isinstance(a, T))


def rebuild(t, f):
    """rebuild t with children mapped by f (smart constructors)."""
    op = t.op
    if op == 'poly':
        return add(*[rebuild(m, f) for m in t.args])
    if op == 'term':
        fl = t.args
        return mul(num(fl[0]), *[power(f(fl[i]), f(fl[i + 1])) for i in range(1, len(fl), 2)])
    na = tuple(f(a) if isinstance(a, T) else a for a in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        return t
    return cons(op, na)


def cons(op, na):
    if op == 'ite':
        return ite(*na)
    if op == 'not':
        return bnot(truth(na[0]))
    if op == 'and':
        return band(*na)
    if op == 'or':
        return bor(*na)
    if op == 'neg':
        return lt0(na[0])
    if op == 'pos':
        return lt0(neg(na[0]))
    if op == 'zero':
        return eq(na[0], ZERO)
    if op == 'eq':
        return eq(*na)
    if op == 'truth':
        return truth(na[0])
    if op == 'seq':
        return seq(na)
    if op == 'cond':
        l = cond_seg(na[0], na[1:])
        return l[0] if len(l) == 1 else mk('splice', mk('seq', *l))
    if op == 'idx':
        return idx(*na)
    if op == 'attr':
        return attr(*na)
    if op == 'call' and na[0] == 'log' and len(na[1].args) == 1:
        return log(na[1].args[0])
    if op == 'call' and na[0] == 'len':
        return length(na[1].args[0])
    if op == 'call' and na[0] in CALL_REBUILD:
        return CALL_REBUILD[na[0]](na)
    return mk(op, *na)


CALL_REBUILD = {}


def subst(t, f, memo=None):
    """f(term) -> replacement or None; bottom-up application at matching nodes (top-down match)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        r = rebuild(t, lambda a: subst(a, f, memo))
    memo[t] = r
    return r


def subst1(t, x, y):
    if not contains(t, x):
        return t
    return subst(t, lambda u: y if u is x else None)


def attr(t, name):
    if t.op == 'ite':
        return ite(t.args[0], attr(t.args[1], name), attr(t.args[2], name))
    if t.op == 'inst':
        d = dict(zip(t.args[1::2], t.args[2::2]))
        if name in d and d[name] is not ABSENT:
            return d[name]
    if t.op == 'upd':
        d = dict(zip(t.args[1::2], t.args[2::2]))
        k = '.' + name
        if k in d:
            return d[k]
        return attr(t.args[0], name)
    return mk('attr', t, name)


def _tail_slice(t):
    '''x[a:-b] with constants a, b >= 0 -> (a, b)'''
    if t.op != 'idx' or t.args[1].op != 'call' or t.args[1].args[0] != 'slice':
        return None
    ks = t.args[1].args[1].args
    if len(ks) != 3 or ks[2] is not NONE:
        return None
    a = 0 if ks[0] is NONE else int(ks[0].args[0]) if ks[0].op == 'num' and ks[0].args[0].denominator == 1 else -1
    b = 0 if ks[1] is NONE else -int(ks[1].args[0]) if ks[1].op == 'num' and ks[1].args[0].denominator == 1 and ks[1].args[0] < 0 else -1
    return (a, b) if a >= 0 and b >= 0 else None


def literal_items(t):
    """elements of scalar arithmetic on literal arrays, e.g. c*[a, b] -> [c*a, c*b]"""
    if t.op == 'seq':
        return [x.args[0] for x in t.args] if all(x.op == 'item' for x in t.args) else None
    if t.op != 'poly':
        return None
    out = None
    for m, c in _poly(t).items():
        l, n = None, None
        cols = []
        for b, e in m:
            lb, le = literal_items(b), literal_items(e)
            if b.op == 'seq' and lb is None or e.op == 'seq' and le is None:
                return None
            for x in (lb, le):
                if x is not None:
                    if n is not None and n != len(x):
                        return None
                    n = len(x)
            cols.append((lb, le, b, e))
        if n is None:
            if m:
                return None
            n = None if out is None else len(out)
            l = mk('num', c)
        else:
            l = [mul(mk('num', c), *[power(lb[i] if lb else b, le[i] if le else e) for lb, le, b, e in cols]) for i in range(n)]
        if out is None:
            out = l
        elif isinstance(out, T) and isinstance(l, T):
            out = add(out, l)
        elif isinstance(out, T):
            out = [add(out, x) for x in l]
        elif isinstance(l, T):
            out = [add(x, l) for x in out]
        elif len(out) != len(l):
            return None
        else:
            out = [add(x, y) for x, y in zip(out, l)]
    return out if isinstance(out, list) else None


def idx(t, k):
    sl = _tail_slice(t)
    if sl is not None and (k.op in ('ivar', 'bvar') or k.op == 'num' and k.args[0] >= 0):
        return idx(t.args[0], add(k, num(sl[0])) if sl[0] else k)
    if t.op == 'ite':
        return ite(t.args[0], idx(t.args[1], k), idx(t.args[2], k))
    if t.op in ('tup', 'seq') and k.op == 'num' and k.args[0].denominator == 1:
        i = int(k.args[0])
        if t.op == 'tup':
            if -len(t.args) <= i < len(t.args):
                return t.args[i]
        else:
            if i >= 0:
                if all(s.op == 'item' for s in t.args[:i + 1]) and i < len(t.args):
                    return t.args[i].args[0]
            else:
                if -i <= len(t.args) and all(s.op == 'item' for s in t.args[i:]):
                    return t.args[i].args[0]
    if t.op == 'dict':
        for a, b in zip(t.args[0::2], t.args[1::2]):
            if a is k:
                return b
    if t.op == 'upd' and k.op == 'const':
        d = dict(zip(t.args[1::2], t.args[2::2]))
        key = '[]%r' % (k.args[0],)
        if key in d:
            return d[key]
        if not any(x.startswith('[]?') for x in d if isinstance(x, str)):
            return idx(t.args[0], k)
    if t.op == 'seq' and len(t.args) == 1:
        s = t.args[0]
        if s.op == 'splice':
            return idx(s.args[0], k)
        if s.op == 'each' and len(s.args) == 3 and s.args[2].op == 'item' and k.op in ('ivar', 'bvar'):
            return subst1(s.args[2].args[0], mk('bvar', s.args[1]), k)
    if t.op == 'poly' and k.op == 'num' and k.args[0].denominator == 1:
        ex = literal_items(t)
        i = int(k.args[0])
        if ex is not None and -len(ex) <= i < len(ex):
            return ex[i]
    # elementwise arithmetic at a loop index: (a*b)[i] = a[i]*b[i] is applied by lift in each()
    return mk('idx', t, k)


# ------------------------------------------------------------ printing
def show(t, d=8):
    if not isinstance(t, T):
        return repr(t)
    if d <= 0:
        return '…'
    op = t.op
    if op == 'num':
        v = t.args[0]
        return str(v) if v.denominator == 1 else ('%.6g' % float(v))
    if op == 'const':
        return repr(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op == 'attr':
        return '%s.%s' % (show(t.args[0], d - 1), t.args[1])
    if op == 'idx':
        return '%s[%s]' % (show(t.args[0], d - 1), show(t.args[1], d - 1))
    if op == 'term':
        s = []
        if t.args[0] != 1 or len(t.args) == 1:
            s.append(show(num(t.args[0])))
        for i in range(1, len(t.args), 2):
            b, e = t.args[i], t.args[i + 1]
            bs = show(b, d - 1)
            if b.op == 'poly':
                bs = '(%s)' % bs
            s.append(bs if e is ONE else '%s^%s' % (bs, show(e, d - 1) if e.op in ('num', 'sym') else '(%s)' % show(e, d - 1)))
        return '*'.join(s)
    if op == 'poly':
        return ' + '.join(show(m, d) for m in t.args)
    if op == 'call':
        return '%s(%s)' % (t.args[0], ', '.join([show(a, d - 1) for a in t.args[1].args] + ['%s=%s' % (k, show(v, d - 1)) for k, v in zip(t.args[2].args[0::2], t.args[2].args[1::2])]))
    if op == 'meth':
        return '%s.%s(%s)' % (show(t.args[0], d - 1), t.args[1], ', '.join([show(a, d - 1) for a in t.args[2].args] + ['%s=%s' % (k, show(v, d - 1)) for k, v in zip(t.args[3].args[0::2], t.args[3].args[1::2])]))
    if op == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], d - 1), show(t.args[0], d - 1), show(t.args[2], d - 1))
    if op == 'not':
        return 'not(%s)' % show(t.args[0], d - 1)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(a, d - 1) for a in t.args) + ')'
    if op == 'neg':
        return '[%s < 0]' % show(t.args[0], d - 1)
    if op == 'pos':
        return '[%s > 0]' % show(t.args[0], d - 1)
    if op == 'zero':
        return '[%s == 0]' % show(t.args[0], d - 1)
    if op == 'eq':
        return '[%s == %s]' % (show(t.args[0], d - 1), show(t.args[1], d - 1))
    if op == 'tup':
        return '(%s)' % ', '.join(show(a, d - 1) for a in t.args)
    if op == 'seq':
        return '[%s]' % ', '.join(show(a, d - 1) for a in t.args)
    if op == 'item':
        return show(t.args[0], d)
    if op == 'splice':
        return '*%s' % show(t.args[0], d - 1)
    if op == 'each':
        return 'each(%s: i%d: %s)' % (show(t.args[0], d - 1), t.args[1], ', '.join(show(a, d - 1) for a in t.args[2:]))
    if op == 'cond':
        return 'when(%s: %s)' % (show(t.args[0], d - 1), ', '.join(show(a, d - 1) for a in t.args[1:]))
    if op == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(a, d - 1), show(b, d - 1)) for a, b in zip(t.args[0::2], t.args[1::2]))
    if op == 'cls':
        return '<%s>' % t.args[0].split(':')[-1]
    if op == 'ext':
        return t.args[0]
    return '%s(%s)' % (op, ', '.join(show(a, d - 1) if isinstance(a, T) else str(a) for a in t.args))
