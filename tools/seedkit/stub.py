"""A stand-in for lenstronomy (not installed here): just enough to import pyHalo."""
import sys, types
import numpy as np


class _Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        c = type(n, (object,), {'__init__': lambda s, *a, **k: None, '_s': 0.001})
        setattr(self, n, c)
        return c


class NFWParam(object):
    rhoc = 2.77536627e11

    def __init__(self, cosmo=None):
        self.cosmo = cosmo

    def rhoc_z(self, z):
        return self.rhoc * (self.cosmo.efunc(z)) ** 2

    def rho0_c(self, c, z):
        return 200. / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1 + c) - c / (1 + c))

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1. / 3.)

    def rs(self, M, c, z):
        return self.r200_M(M, z) / c


class TNFW(object):
    _s = 0.001

    def mass_3d(self, r, Rs, rho0, r_trunc):
        x, t = r / Rs, r_trunc
        f = t ** 2 * (-2 * x * (1 + t ** 2) + 4 * (1 + x) * t * np.arctan(x / t) + 2 * (1 + x) * (t ** 2 - 1) * np.log(1 + x)
                      + 2 * (1 + x) * (t ** 2 - 1) * np.log(t) - (1 + x) * (t ** 2 - 1) * np.log(x ** 2 + t ** 2)) / (2. * (1 + x) * (1 + t ** 2) ** 2)
        return 4 * np.pi * Rs ** 3 * rho0 * f


class Finder(object):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ('lenstronomy', 'matplotlib', 'mpl_toolkits'):
            return None
        from importlib.machinery import ModuleSpec
        return ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return _Mod(spec.name)

    def exec_module(self, m):
        if m.__name__ == 'lenstronomy.Cosmo.nfw_param':
            m.NFWParam = NFWParam
        if m.__name__ == 'lenstronomy.Util.constants':
            m.arcsec = 2 * np.pi / 360 / 3600
        if m.__name__ == 'lenstronomy.LensModel.Profiles.tnfw':
            m.TNFW = TNFW
        if m.__name__ == 'matplotlib':
            m.rcParams = {}


sys.meta_path.insert(0, Finder())
