"""The modulator: quantizer input C x + D1 u, quantizer, next state A x + B1 u + B2 v."""
import numpy as np
import scipy.signal
import scipy.linalg
from pydsm.delsig import simulateDSM
from pydsm.delsig import ds_quantize


# ---------------------------------------------------------------- calls of the simulators, one per back end and flags
def call(u, h, nlev, x0, backend, xn, xmax, y):
    return simulateDSM(u, h, nlev, x0, xn, xmax, y, backend=backend)


def i_v(u, h, nlev, x0, backend, xn, xmax, y):
    return np.squeeze(call(u, h, nlev, x0, backend, xn, xmax, y)[0])


def i_xn(u, h, nlev, x0, backend, xn, xmax, y):
    return np.squeeze(call(u, h, nlev, x0, backend, xn, xmax, y)[1])


def i_xmax(u, h, nlev, x0, backend, xn, xmax, y):
    return np.squeeze(call(u, h, nlev, x0, backend, xn, xmax, y)[2])


def i_y(u, h, nlev, x0, backend, xn, xmax, y):
    return np.squeeze(call(u, h, nlev, x0, backend, xn, xmax, y)[3])


def i_size_xmax(u, h, nlev, x0, backend, xn, xmax, y):
    return np.size(call(u, h, nlev, x0, backend, xn, xmax, y)[2])


def i_size_y(u, h, nlev, x0, backend, xn, xmax, y):
    return np.size(call(u, h, nlev, x0, backend, xn, xmax, y)[3])


def i_defaults(u, h, backend):
    return np.squeeze(simulateDSM(u, h, backend=backend)[0])


def i_kw(u, h, nlev, x0, backend):
    return np.squeeze(simulateDSM(u, h, nlev=nlev, x0=x0, store_y=True, backend=backend)[3])


# ---------------------------------------------------------------- documented behaviour
def level(y, n):
    """Nearest of the n equispaced levels -n+1, -n+3, ..., n-1."""
    if n % 2 == 0:
        r = 2*np.floor(y/2) + 1
    else:
        r = 2*np.floor((y + 1)/2)
    if r > n - 1:
        r = n - 1
    if r < -(n - 1):
        r = -(n - 1)
    return r


def quantize(y, nlev):
    v = np.zeros(len(y))
    for j in range(len(y)):
        v[j] = level(y[j], nlev[j])
    return v


def out_y(u, A, B1, B2, C, D1, nlev, x0):
    x = x0
    r = np.zeros((len(nlev), u.shape[1]))
    for k in range(u.shape[1]):
        y = C.dot(x) + D1.dot(u[:, k])
        v = quantize(y, nlev)
        x = A.dot(x) + B1.dot(u[:, k]) + B2.dot(v)
        r[:, k] = y
    return r


def out_v(u, A, B1, B2, C, D1, nlev, x0):
    x = x0
    r = np.zeros((len(nlev), u.shape[1]))
    for k in range(u.shape[1]):
        y = C.dot(x) + D1.dot(u[:, k])
        v = quantize(y, nlev)
        x = A.dot(x) + B1.dot(u[:, k]) + B2.dot(v)
        r[:, k] = v
    return r


def out_x(u, A, B1, B2, C, D1, nlev, x0):
    x = x0
    r = np.zeros((A.shape[0], u.shape[1]))
    for k in range(u.shape[1]):
        y = C.dot(x) + D1.dot(u[:, k])
        v = quantize(y, nlev)
        x = A.dot(x) + B1.dot(u[:, k]) + B2.dot(v)
        r[:, k] = x
    return r


def last_x(u, A, B1, B2, C, D1, nlev, x0):
    x = x0
    for k in range(u.shape[1]):
        y = C.dot(x) + D1.dot(u[:, k])
        v = quantize(y, nlev)
        x = A.dot(x) + B1.dot(u[:, k]) + B2.dot(v)
    return x


def max_x(u, A, B1, B2, C, D1, nlev, x0):
    x = x0
    m = np.abs(x0)
    for k in range(u.shape[1]):
        y = C.dot(x) + D1.dot(u[:, k])
        v = quantize(y, nlev)
        x = A.dot(x) + B1.dot(u[:, k]) + B2.dot(v)
        m = np.maximum(m, np.abs(x))
    return m


# ---- ABCD form
def normal(u, nlev, x0, n):
    if np.ndim(u) == 1:
        u = np.reshape(u, (1, -1))
    if np.ndim(x0) == 0:
        x0 = np.zeros(n)
    return u, np.reshape(nlev, (-1,)), np.reshape(x0, (-1,))


def abcd(f, u, h, nlev, x0):
    u, nlev, x0 = normal(u, nlev, x0, np.shape(h)[0] - np.size(nlev))
    nq = len(nlev)
    nu = u.shape[0]
    n = h.shape[0] - nq
    return np.squeeze(f(u, h[:n, :n], h[:n, n:n + nu], h[:n, n + nu:], h[n:, :n], h[n:, n:n + nu], nlev, x0))


def s_v(u, h, nlev, x0, backend, xn, xmax, y):
    return abcd(out_v, u, h, nlev, x0)


def s_y(u, h, nlev, x0, backend, xn, xmax, y):
    return abcd(out_y, u, h, nlev, x0)


def s_xn(u, h, nlev, x0, backend, xn, xmax, y):
    return abcd(out_x if xn else last_x, u, h, nlev, x0)


def s_xmax(u, h, nlev, x0, backend, xn, xmax, y):
    return abcd(max_x, u, h, nlev, x0)


def s_none(u, h, nlev, x0, backend, xn, xmax, y):
    return 0


# ---- NTF form
def canonical(z, p):
    """Realization of -1/H whose output is its first state, made from the one scipy gives by the documented change of basis."""
    A, B2, C, D2 = scipy.signal.zpk2ss(p, z, -1)
    n = len(z)
    Sinv = scipy.linalg.orth(np.hstack((np.transpose(C), np.eye(n))))/np.linalg.norm(C)
    S = np.linalg.inv(Sinv)
    c = np.dot(C, Sinv)
    if c[0, 0] < 0:
        S = -S
        Sinv = -Sinv
    return np.dot(np.dot(S, A), Sinv), np.dot(S, B2)


def ntf(f, u, h, nlev, x0):
    u, nlev, x0 = normal(u, nlev, x0, len(h[0]))
    A, B = canonical(h[0], h[1])
    n = len(h[0])
    C = np.zeros((1, n))
    C[0, 0] = 1
    return np.squeeze(f(u, A, -B, B, C, np.ones((1, 1)), nlev, x0))


def n_v(u, h, nlev, x0, backend, xn, xmax, y):
    return ntf(out_v, u, h, nlev, x0)


def n_y(u, h, nlev, x0, backend, xn, xmax, y):
    return ntf(out_y, u, h, nlev, x0)


def n_xn(u, h, nlev, x0, backend, xn, xmax, y):
    return ntf(out_x if xn else last_x, u, h, nlev, x0)


def n_xmax(u, h, nlev, x0, backend, xn, xmax, y):
    return ntf(max_x, u, h, nlev, x0)


def s_defaults(u, h, backend):
    return abcd(out_v, u, h, 2, 0)


def s_kw(u, h, nlev, x0, backend):
    return abcd(out_y, u, h, nlev, x0)


# ---- output of an NTF: the input plus the error filtered by the NTF
def filtered(num, den, e):
    r = np.zeros(len(e))
    for k in range(len(e)):
        s = 0.
        for j in range(len(num)):
            if j <= k:
                s = s + num[j]*e[k - j]
        for j in range(1, len(den)):
            if j <= k:
                s = s - den[j]*r[k - j]
        r[k] = s
    return r


def shaped(u, h, nlev, backend, xn, xmax):
    r = simulateDSM(u, h, nlev, 0, xn, xmax, True, backend=backend)
    e = np.reshape(r[0], (-1,)) - np.reshape(r[3], (-1,))
    return np.hstack(([1.], np.reshape(u, (-1,)) + filtered(np.real(np.poly(h[0])), np.real(np.poly(h[1])), e)))


def output(u, h, nlev, backend, xn, xmax):
    return np.hstack(([1.], np.reshape(simulateDSM(u, h, nlev, 0, xn, xmax, True, backend=backend)[0], (-1,))))


# ---- quantizer on its own
def q_col(y, n):
    r = np.zeros((len(n), 1))
    for j in range(len(n)):
        r[j, 0] = level(y[j, 0], n[j])
    return r


def q_vec(y, n):
    r = np.zeros(len(n))
    for j in range(len(n)):
        r[j] = level(y[j], n[j])
    return r


def q_one(y, n):
    return level(y, n)
