"""Published P-V equations of state, written from the literature (EosFit7
review, Angel et al. 2014), not from the code.  p = (K0, K', K'', V0)."""
import numpy as np
from quantas.eosfit.utils import pv_eos

NAMES = ('Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait')
ORDERS = {'Murnaghan': (3,), 'BirchMurnaghan': (2, 3, 4), 'NaturalStrain': (2, 3, 4), 'Vinet': (2, 3), 'Tait': (2, 3, 4)}
KP2 = {'BirchMurnaghan': 4., 'NaturalStrain': 2., 'Vinet': 1., 'Tait': 4.}


def implied(name, order, p, linear=False):
    """the full parameter set: values not fitted take the published ones"""
    k, kp, kpp, v0 = [float(x) for x in p]
    if order == 2:
        kp = KP2[name] * (3. if linear else 1.)
    if name == 'Murnaghan':
        kpp = 0.
    elif name == 'Vinet':
        kpp = -((kp / 2.) ** 2 + kp / 2. - 19. / 36.) / k
    elif order < 4:
        if name == 'BirchMurnaghan':
            kpp = -((3. - kp) * (4. - kp) + 35. / 9.) / k
        elif name == 'NaturalStrain':
            kpp = -(1. + (kp - 2.) + (kp - 2.) ** 2) / k
        else:
            kpp = -kp / k
    return k, kp, kpp, v0


def pressure(name, order, p, V, linear=False):
    k, kp, kpp, v0 = implied(name, order, p, linear)
    x = v0 / np.asarray(V, dtype=float)
    if name == 'Murnaghan':
        return k / kp * (x ** kp - 1.)
    if name == 'BirchMurnaghan':
        g = x ** (2. / 3.) - 1.                       # = 2 fE
        c1 = 0.75 * (kp - 4.)
        c2 = 0.375 * (k * kpp + (kp - 4.) * (kp - 3.) + 35. / 9.)
        return 1.5 * k * (x ** (7. / 3.) - x ** (5. / 3.)) * (1. + c1 * g + c2 * g * g)
    if name == 'NaturalStrain':
        l = np.log(x)                                 # = 3 fN
        c1 = 0.5 * (kp - 2.)
        c2 = (1. + k * kpp + (kp - 2.) + (kp - 2.) ** 2) / 6.
        return k * x * l * (1. + c1 * l + c2 * l * l)
    if name == 'Vinet':
        y = x ** (-1. / 3.)
        return 3. * k * (1. - y) / y ** 2 * np.exp(1.5 * (kp - 1.) * (1. - y))
    if name == 'Tait':
        m = k * kpp
        a = (1. + kp) / (1. + kp + m)
        b = kp / k - kpp / (1. + kp)
        c = (1. + kp + m) / (kp * kp + kp - m)
        return ((1. - (1. - 1. / x) / a) ** (-1. / c) - 1.) / b
    raise ValueError(name)


def strain(name, ratio):
    """(f, F/P factor) for V/V0"""
    if name == 'BirchMurnaghan':
        f = (ratio ** (-2. / 3.) - 1.) / 2.
        return f, 3. * f * (1. + 2. * f) ** 2.5
    if name == 'NaturalStrain':
        f = -np.log(ratio) / 3.
        return f, 3. * f / ratio
    f = 1. - ratio ** (1. / 3.)
    return f, 3. * f / (1. - f) ** 2


def make(name):
    return getattr(pv_eos, name)()
