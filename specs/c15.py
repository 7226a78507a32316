"""Closed forms of transforms, transfer functions and correlations."""
import numpy as np
import scipy.integrate
from pydsm import ft, correlations, delsig
from pydsm.NTFdesign import weighting
from pydsm.delsig import ds_f1f2 as _f1f2


def quad(g, a, b):
    return scipy.integrate.quad(g, a, b)[0]


# ---- implementations applied to a point
def i_dtft(x, f):
    return ft.dtft(x)(f)


def i_dtft_fs(x, f, fs, t0):
    return ft.dtft(x, fs, t0)(f)


def i_dtft_kw(x, f, fs, t0):
    return ft.dtft(x, t0=t0, fs=fs)(f)


def i_dtfth(x, f):
    return ft.dtft_hermitian(x)(f)


def i_dtfth_fs(x, f, fs):
    return ft.dtft_hermitian(x, fs)(f)


def dtft(x, f):
    return dtft_fs(x, f, 1, 0)


def dtft_fs(x, f, fs, t0):
    return sum([x[n]*np.exp(-2j*np.pi*f/fs*(n + t0)) for n in range(len(x))])


def dtfth(x, f):
    return dtfth_fs(x, f, 1)


def dtfth_fs(x, f, fs):
    # two-sided sequence with x[-n] = conj(x[n])
    r = np.real(x[0])
    for n in range(1, len(x)):
        r = r + 2*np.real(x[n])*np.cos(2*np.pi*f/fs*n) + 2*np.imag(x[n])*np.sin(2*np.pi*f/fs*n)
    return r


def idtft1(F, t, fs=1):
    re = quad(lambda f: np.real(F(f*fs))*np.cos(2*np.pi*f*t) - np.imag(F(f*fs))*np.sin(2*np.pi*f*t), -0.5, 0.5)
    im = quad(lambda f: np.imag(F(f*fs))*np.cos(2*np.pi*f*t) + np.real(F(f*fs))*np.sin(2*np.pi*f*t), -0.5, 0.5)
    return re + 1j*im


def idtfth1(F, t, fs=1):
    return 2*quad(lambda f: np.real(F(f*fs))*np.cos(2*np.pi*f*t) - np.imag(F(f*fs))*np.sin(2*np.pi*f*t), 0, 0.5)


def idtft_vec(F, tt, fs=1):
    return np.asarray([idtft1(F, t, fs) for t in tt])


def idtfth_vec(F, tt, fs=1):
    return np.asarray([idtfth1(F, t, fs) for t in tt])


def fft_axis_i(x, fs):
    return ft.fft_centered(x, fs)[0]


def fft_val_i(x, fs):
    return ft.fft_centered(x, fs)[1]


def fft_axis_1(x):
    return ft.fft_centered(x)[0]


def fft_axis(x, fs=1):
    N = len(x)
    return np.asarray([(n - N//2)*fs/N for n in range(N)])


def fft_val(x, fs):
    """sample j of the centred spectrum is the DFT at frequency axis[j]"""
    N = len(x)
    return np.asarray([sum([x[n]*np.exp(-2j*np.pi*(j - N//2)*n/N) for n in range(N)]) for j in range(N)])


def acorr(x, N):
    return np.asarray([sum([x[n + k]*x[n] for n in range(len(x) - k)]) for k in range(N + 1)])


def xcorr(x, y, N):
    r = []
    for k in range(N + 1):
        r.append(sum([x[n]*y[n - k] for n in range(k, min(len(x), len(y) + k))]))
    return np.asarray(r)


# ---- transfer functions (finite roots)
def rpoly(roots, x, k=1):
    r = k*np.ones_like(x)
    for z in roots:
        r = r*(x - z)
    return r


def evalTF3(tf, x):
    z, p, k = tf
    return rpoly(z, x, k)/rpoly(p, x, 1)


def poly(c, x):
    r = 0
    n = len(c)
    for i in range(n):
        r = r + c[i]*x**(n - 1 - i)
    return r


def evalTF2(tf, x):
    b, a = tf
    return poly(b, x)/poly(a, x)


def rpoly_inf(roots, x, k):
    """roots: finite ones followed by one at infinity"""
    return rpoly(roots[:-1], x, k)


def with_inf(r, x, k):
    return delsig.evalRPoly(np.concatenate((r, [np.inf])), x, k)


def zpk_vs_ba_i(z, p, k, x):
    return delsig.evalTF((k*np.poly(z), np.poly(p)), x)


def zpk_vs_ba(z, p, k, x):
    return delsig.evalTF((z, p, k), x)


# ---- padding
def padl1(x, n, val=0):
    return np.asarray([val for i in range(n - len(x))] + [v for v in x])


def padr1(x, n, val=0):
    return np.asarray([v for v in x] + [val for i in range(n - len(x))])


def padl2(x, n, val=0):
    r, c = x.shape
    return np.asarray([[val if j < n - c else x[i, j - (n - c)] for j in range(n)] for i in range(r)])


def padr2(x, n, val=0):
    r, c = x.shape
    return np.asarray([[x[i, j] if j < c else val for j in range(n)] for i in range(r)])


def padt2(x, n, val=0):
    r, c = x.shape
    return np.asarray([[val if i < n - r else x[i - (n - r), j] for j in range(c)] for i in range(n)])


def padb2(x, n, val=0):
    r, c = x.shape
    return np.asarray([[x[i, j] if i < r else val for j in range(c)] for i in range(n)])


# ---- partition
def partition(M, n):
    r, c = M.shape
    return (np.asarray([[M[i, j] for j in range(n)] for i in range(n)]),
            np.asarray([[M[i, j] for j in range(n, c)] for i in range(n)]),
            np.asarray([[M[i, j] for j in range(n)] for i in range(n, r)]),
            np.asarray([[M[i, j] for j in range(n, c)] for i in range(n, r)]))


def part_m(M, m):
    return partition(M, M.shape[1] - m)


def part_g(M):
    return partition(M, min(M.shape[0], M.shape[1]) - 1)


# ---- band edges
def f1f2(osr=64, f0=0, complex_flag=False):
    if complex_flag:
        return f0 - 0.5/osr, f0 + 0.5/osr
    if f0 > 0.25/osr:
        return f0 - 0.25/osr, f0 + 0.25/osr
    return 0, 0.5/osr


# ---- weightings
def mult_i(f, *ww):
    return weighting.mult_weightings(*ww)(f)


def mult(f, *ww):
    r = 1.
    for w in ww:
        if isinstance(w, tuple):
            z = np.exp(2j*np.pi*f)
            h = evalTF3(w, z) if len(w) == 3 else evalTF2(w, z)
            r = r*np.abs(h)**2
        else:
            r = r*w(f)
    return r
