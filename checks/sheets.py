"""Symbolic rendering classes (shared by P08, P15, P16)."""
from .common import *
from .halos import as_list, as_dict

SUB = 'pyHalo.Rendering.subhalos:Subhalos'
LOS = 'pyHalo.Rendering.line_of_sight:LineOfSight'
NOS = 'pyHalo.Rendering.line_of_sight:LineOfSightNoSheet'
TWO = 'pyHalo.Rendering.two_halo:TwoHaloContribution'


def geom(S):
    return S.sym('geo', 'pyHalo.Cosmology.geometry:Geometry')


def lens(S):
    return S.sym('LCp', 'pyHalo.Halos.lens_cosmo:LensCosmo')


def limit(S, name, form='num'):
    """a logarithmic mass limit: a number, or a function of redshift"""
    if form == 'num':
        return mul(num(2), S.sym(name))
    return S.expr('lambda z: 2*q*z', dict(q=S.sym(name)))


def kw_sub(S, limits=('mlo', 'mhi'), norm='sigma_sub', form='num', **over):
    d = {'log_mlow': limit(S, limits[0], form), 'log_mhigh': limit(S, limits[1], form), 'power_law_index': S.sym('alpha'), 'delta_power_law_index': S.sym('dalpha'),
         'm_pivot': S.sym('m_pivot'), 'host_m200': S.sym('host_m200'), 'host_scaling_factor': S.sym('hsf'), 'redshift_scaling_factor': S.sym('rsf'),
         'draw_poisson': S.sym('poisson'), norm: S.sym(norm)}
    d.update(over)
    return S.py(d)


def kw_los(S, limits=('mlo', 'mhi'), form='num', **over):
    d = {'log_mlow': limit(S, limits[0], form), 'log_mhigh': limit(S, limits[1], form), 'LOS_normalization': S.sym('los_norm'), 'm_pivot': S.sym('m_pivot'),
         'delta_power_law_index': S.sym('dalpha'), 'draw_poisson': S.sym('poisson')}
    d.update(over)
    return S.py(d)


def sub_class(S, kw=None, sd=None):
    return S.new(SUB, S.sym('MF1'), kw if kw is not None else kw_sub(S), sd if sd is not None else S.sym('SD1'), geom(S), lens(S))


def los_class(S, kw=None, zs=None, dzs=None, cls=LOS, sd=None):
    return S.new(cls, S.sym('MF2'), kw if kw is not None else kw_los(S), sd if sd is not None else S.sym('SD2'), geom(S), lens(S),
                 zs if zs is not None else S.sym('zs'), dzs if dzs is not None else S.sym('dzs'))


def rclasses(S, kind):
    out = []
    for k in kind.split('+'):
        if k == 'sub':
            out.append(sub_class(S))
        elif k == 'los':
            out.append(los_class(S))
        elif k == 'nosheet':
            out.append(los_class(S, cls=NOS))
        elif k == 'two':
            out.append(los_class(S, kw=kw_los(S, host_m200=S.sym('host_m200')), cls=TWO))
        elif k == 'none':
            pass
    return out


def sheet_defaults(S, r):
    """documented default arguments of the sheet request for one population (scale, limits, redshift range, own limits)"""
    if is_inst(S, r, 'Subhalos'):
        return [1.0, 7.0, 10.0, False]
    return [1.0, 7.0, 10.0, None, None, False]


def shape(s):
    """list term with every element replaced by 1: its counting skeleton"""
    out = []
    for x in s.args:
        if x.op == 'item':
            out.append(item(ONE))
        elif x.op == 'cond':
            out.append(mk('cond', x.args[0], *shape(mk('seq', *x.args[1:])).args))
        elif x.op == 'each':
            b = shape(mk('seq', *x.args[2:])).args
            lv = 1 + max([TM.maxlevel(y) for y in b] + [0])
            out.append(mk('each', x.args[0], x.args[1], *b))
        else:
            n = TM.length(x.args[0])
            out += [item(ONE)] * int(n.args[0]) if n.op == 'num' else [mk('each', n, 1, item(ONE))]
    return mk('seq', *out)
