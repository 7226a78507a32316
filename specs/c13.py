"""Definitions of the level conversions (interpreted by the analysis, never executed)."""
import numpy as np
from pydsm import delsig, relab


def dbv(x):
    return 20*np.log10(np.abs(np.asarray(x)))


def dbp(x):
    return 10*np.log10(np.abs(np.asarray(x)))


def dbm(v, R=50.):
    return 10*np.log10(np.abs(np.asarray(v))**2/R) + 30


def undbv(x):
    return 10**(np.asarray(x)/20.)


def undbp(x):
    return 10**(np.asarray(x)/10.)


def undbm(x, R=50.):
    return np.sqrt(R*10**((np.asarray(x) - 30)/10.))


def db_voltage(x, R=1):
    return 10*np.log10(np.abs(np.asarray(x))**2/R)


def db_power(x, R=1):
    return 10*np.log10(np.asarray(x))


def rms(x, no_dc=False):
    x = np.asarray(x)
    if no_dc:
        x = x - np.mean(x)
    return np.sqrt(np.mean(np.abs(x)**2))


def rmsGain(H, f1, f2, N=100):
    f = f1 + (f2 - f1)*np.arange(N)/(N - 1.)
    z = np.exp(2j*np.pi*f)
    return np.sqrt(np.mean(np.abs(delsig.evalTF(H, z))**2))


def id_(x, R=None):
    return np.abs(np.asarray(x))


# compositions
def v_roundtrip(x):
    return delsig.undbv(delsig.dbv(x))


def p_roundtrip(x):
    return delsig.undbp(delsig.dbp(x))


def m_roundtrip(x, R=50.):
    return delsig.undbm(delsig.dbm(x, R), R)


def db_v_is_dbv(x):
    return relab.db(x)


def db_m_is_dbm(x, R):
    return relab.db(x, R=R) + 30


def db_p_is_dbp(x):
    return relab.db(x, 'power')
