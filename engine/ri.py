"""Randomised term evaluation (random interpretation): an identity test for value terms that the
normal form does not unify.  Arithmetic is evaluated on random values of the opaque atoms; every other
operator is an uninterpreted hash of its operands' values.  Used only to withdraw a difference."""
import cmath
import hashlib
import math
from .terms import *
from . import terms as TM

FN = {
    'log': lambda x: cmath.log(x), 'np.exp': cmath.exp, 'np.log': cmath.log, 'np.sin': cmath.sin, 'np.cos': cmath.cos,
    'np.tan': cmath.tan, 'np.arctan': cmath.atan, 'np.tanh': cmath.tanh, 'np.sinh': cmath.sinh, 'np.cosh': cmath.cosh,
    'np.arccos': cmath.acos, 'np.arcsin': cmath.asin, 'np.arctanh': cmath.atanh, 'np.arcsinh': cmath.asinh,
    'exp': cmath.exp, 'sin': cmath.sin, 'cos': cmath.cos, 'arctan': cmath.atan, 'tan': cmath.tan, 'tanh': cmath.tanh, 'arcsin': cmath.asin, 'arccos': cmath.acos,
    'pow': None,
}


def _h(*parts):
    d = hashlib.sha256(repr(parts).encode()).digest()
    return 0.4 + 1.9 * int.from_bytes(d[:6], 'big') / 2.0 ** 48


def _rk(v):
    if isinstance(v, complex):
        if v != v:
            return 'nan'
        m = abs(v)
        if m == 0 or m == math.inf:
            return (m,)
        e = math.floor(math.log10(m))
        s = 10.0 ** (9 - e) if abs(9 - e) < 290 else 1.0
        return (round(v.real * s), round(v.imag * s), e)
    return v


def evaluate(t, seed, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    r = None
    try:
        if op == 'num':
            r = complex(float(t.args[0]))
        elif t is TM.PI:
            r = complex(math.pi)
        elif t is TM.EUL:
            r = complex(math.e)
        elif op == 'poly':
            r = sum((evaluate(m, seed, memo) for m in t.args), 0j)
        elif op == 'term':
            r = complex(float(t.args[0]))
            for i in range(1, len(t.args), 2):
                r *= _pow(evaluate(t.args[i], seed, memo), evaluate(t.args[i + 1], seed, memo))
        elif op == 'call' and t.args[0] in FN and len(t.args) > 1 and t.args[1].op == 'args' and t.args[1].args:
            a = [evaluate(x, seed, memo) for x in t.args[1].args]
            if t.args[0] == 'pow':
                r = _pow(a[0], a[1])
            elif len(a) == 1 and not (len(t.args) > 2 and t.args[2].args):
                r = FN[t.args[0]](a[0])
    except (OverflowError, ValueError, ZeroDivisionError):
        r = complex(math.nan)
    if r is None:
        parts = [op]
        for a in t.args:
            parts.append(_rk(evaluate(a, seed, memo)) if isinstance(a, T) else repr(a))
        r = complex(_h(seed, *parts))
    memo[t] = r
    return r


def _pow(b, e):
    if e == 1:
        return b
    if e.imag == 0 and e.real == int(e.real) and abs(e.real) < 64:
        return b ** int(e.real)
    if b == 0:
        return 0j
    return cmath.exp(e * cmath.log(b))


def equal(a, b, trials=3):
    for s in range(trials):
        m = {}
        x, y = evaluate(a, s, m), evaluate(b, s, m)
        if x != x or y != y:
            continue
        d = abs(x - y)
        if d <= 1e-9 * max(abs(x), abs(y)):
            return True
    return False
