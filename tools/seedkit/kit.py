"""Small real objects for the demonstrations."""
import stub
import numpy as np
from pyHalo.Halos.lens_cosmo import LensCosmo
from pyHalo.single_realization import Realization
from pyHalo.Halos.concentration import ConcentrationConstant
from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo, NFWFieldHalo
from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo


class Trunc(object):
    """a fixed truncation radius"""
    name = "fixed"
    def __init__(self, r=1.5):
        self.r = r

    def truncation_radius_halo(self, halo):
        return self.r

LC = LensCosmo(0.5, 1.5)


def halo_model(c=12.0, rt=1.5):
    return dict(truncation_model_subhalos=Trunc(rt), truncation_model_field_halos=Trunc(2 * rt),
                concentration_model_subhalos=ConcentrationConstant(LC.cosmo, c),
                concentration_model_field_halos=ConcentrationConstant(LC.cosmo, c / 2), kwargs_density_profile={})


def real(n=4, mdef='TNFW', lc=None, z=None, sub=None, **kw):
    z = z or [0.5] * n
    sub = sub or [True] * n
    args = dict(rendering_classes=[])
    args.update(kw)
    return Realization([10 ** (7 + 0.2 * i) for i in range(n)], [0.1 * (i + 1) for i in range(n)], [-0.2 * (i + 1) for i in range(n)],
                       [10.0 + i for i in range(n)], [mdef] * n if isinstance(mdef, str) else mdef, z, sub, lc or LC,
                       kwargs_halo_model=halo_model(), **args)
