"""Magnitude of the published analog filters."""
import numpy as np
from pydsm import audio_weightings as aw

S1K = 2j*np.pi*1000.


def mag(f, zpk):
    z, p, k = zpk
    s = 2j*np.pi*f
    r = np.abs(k)
    for zi in z:
        r = r*np.abs(s - zi)
    for pi in p:
        r = r/np.abs(s - pi)
    return r


def ratio(f, zpk):
    """Magnitude relative to 1 kHz (interleaved: the products overflow otherwise)."""
    z, p, k = zpk
    s = 2j*np.pi*f
    r = 1.
    for zi in z:
        r = r*(np.abs(s - zi)/np.abs(S1K - zi))
    for pi in p:
        r = r*(np.abs(S1K - pi)/np.abs(s - pi))
    return r


def curve(name):
    return getattr(aw, name + '_weighting')


def zpk(name):
    return getattr(aw, name + '_zpk')


def gain_of(name):
    return getattr(aw, name + '_weighting_gain')


# the quantities compared
def amp(name, f):
    return curve(name)(f, normal=False, power=False)


def amp_rel(name, f):
    c = curve(name)
    return c(f, normal=False, power=False)/c(1000., normal=False, power=False)


def amp_n(name, f):
    return curve(name)(f, normal=True, power=False)


def pow_n(name, f):
    return curve(name)(f, normal=True, power=True)


def pow_u(name, f):
    return curve(name)(f, normal=False, power=True)


def dflt(name, f):
    return curve(name)(f)


def at1k(name, f):
    return curve(name)(1000., normal=True, power=False)


def filt(name, f):
    return mag(f, zpk(name))


def filt_rel(name, f):
    return ratio(f, zpk(name))


def sq_amp_n(name, f):
    return amp_n(name, f)**2


def sq_amp_u(name, f):
    return amp(name, f)**2


def filt_n(name, f):
    return ratio(f, zpk(name))


def filt_rel_sq(name, f):
    return ratio(f, zpk(name))**2


def one(name, f):
    return 1.
