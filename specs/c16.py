"""Noise gains and weighting coefficients by their integrals."""
import numpy as np
import scipy.integrate
import scipy.signal
from pydsm.ir import impulse_response


def quad(g, a, b):
    return scipy.integrate.quad(g, a, b)[0]


def rpoly(roots, x, k=1):
    r = k*np.ones_like(x)
    for z in roots:
        r = r*(x - z)
    return r


def poly(c, x):
    r = 0
    n = len(c)
    for i in range(n):
        r = r + c[i]*x**(n - 1 - i)
    return r


def tfv(h, f):
    x = np.exp(2j*np.pi*f)
    if len(h) == 3:
        return rpoly(h[0], x, h[2])/rpoly(h[1], x, 1)
    return poly(h[0], x)/poly(h[1], x)


def pw(h):
    return lambda f: np.abs(tfv(h, f))**2


def weight(w):
    if w is None:
        return lambda f: 1.
    if isinstance(w, tuple):
        return pw(w)
    return w


def qng(NTF, w=None, bounds=(0, 0.5), avg=False):
    W = weight(w)
    c = 1/(bounds[1] - bounds[0]) if avg else 2.
    return c*quad(lambda f: np.abs(tfv(NTF, f))**2*W(f), bounds[0], bounds[1])


def qng_w(NTF, w=None, bounds=(0, 0.5)):
    return qng(NTF, w, bounds)


def qng_filter(NTF, H, H_type='zpk'):
    if H_type == 'imp':
        return qng(NTF, lambda f: np.abs(sum([H[n]*np.exp(-2j*np.pi*f*n) for n in range(len(H))]))**2)
    if H_type == 'mag':
        return qng(NTF, lambda f: H(f)**2)
    return qng(NTF, H)


def q0(P, w):
    W = weight(w)
    return np.asarray([2*quad(lambda f: np.real(W(f))*np.cos(2*np.pi*f*k) - np.imag(W(f))*np.sin(2*np.pi*f*k), 0, 0.5) for k in range(P + 1)])


def q0_filter(P, H, H_type='zpk'):
    if H_type == 'imp':
        return q0_ir(P, H)
    if H_type == 'mag':
        return q0(P, lambda f: H(f)**2)
    return q0(P, H)


def q0_ir(P, ir):
    return np.asarray([sum([ir[n + k]*ir[n] for n in range(len(ir) - k)]) for k in range(P + 1)])


def by_conv(NTF, H, H_type='zpk', db=80):
    h1 = impulse_response(NTF, db=db)
    h2 = H if H_type == 'imp' else impulse_response(H, db=db)
    c = scipy.signal.convolve(h1, h2)
    return sum([x**2 for x in c])


def ir_zpk(h, m):
    b, a = scipy.signal.zpk2tf(h[0], h[1], h[2])
    return scipy.signal.lfilter(b.real, a.real, np.asarray([1. if i == 0 else 0. for i in range(m)]))


def ir_ba(h, m):
    return scipy.signal.lfilter(h[0], h[1], np.asarray([1. if i == 0 else 0. for i in range(m)]))
