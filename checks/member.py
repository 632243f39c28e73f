"""Membership of halo objects in result lists."""
from .common import *
from engine import arrays as AR


def entries(S, v):
    """[(guard, value)] of a list whose positions are known (conditional entries allowed), or None"""
    return AR.entries(S.I, v, S.st)


def membership(S, v, halos):
    """{halo: [guards, one per position that can hold it]}, other: [(guard, value)] ; None when the list is not literal"""
    es = entries(S, v)
    if es is None:
        return None, None
    m = {h: [] for h in halos}
    other = []
    for c, x in es:
        for y, g in gated(S, x, c):
            if g is FALSE:
                continue
            if y in m:
                m[y].append(g)
            else:
                other.append((g, y))
    return m, other


def anyof(gs):
    return bor(*gs) if gs else FALSE


def twice(gs):
    """condition under which more than one position holds the object"""
    out = FALSE
    for i in range(len(gs)):
        for j in range(i):
            out = bor(out, band(gs[i], gs[j]))
    return out


def reachable(ctx, g, pc=TRUE):
    """True/False/None: can the guard hold?"""
    st, info = decide.verdict(ite(band(pc, g), num(1), num(0)), num(0), None, ctx.budget)
    return {'equal': False, 'differ': True}.get(st)
