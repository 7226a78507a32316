"""ISO 226:2003 (tables and sections 4.1, 4.2)."""
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
from pydsm import iso226

F = [20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150,
     4000, 5000, 6300, 8000, 10000, 12500]
ALPHA = [0.532, 0.506, 0.480, 0.455, 0.432, 0.409, 0.387, 0.367, 0.349, 0.330, 0.315, 0.301, 0.288, 0.276, 0.267, 0.259,
         0.253, 0.250, 0.246, 0.244, 0.243, 0.243, 0.243, 0.242, 0.242, 0.245, 0.254, 0.271, 0.301]
LU = [-31.6, -27.2, -23.0, -19.1, -15.9, -13.0, -10.3, -8.1, -6.2, -4.5, -3.1, -2.0, -1.1, -0.4, 0.0, 0.3, 0.5, 0.0, -2.7,
      -4.1, -1.0, 1.7, 2.5, 1.2, -2.1, -7.1, -11.2, -10.7, -3.1]
TF = [78.5, 68.7, 59.5, 51.1, 44.0, 37.5, 31.5, 26.5, 22.1, 17.9, 14.4, 11.4, 8.6, 6.2, 4.4, 3.0, 2.2, 2.4, 3.5, 1.7, -1.3,
      -4.2, -6.0, -5.4, -1.5, 6.0, 12.6, 13.9, 12.3]


def ext(t, last, hfe):
    return np.asarray(t + [last]) if hfe else np.asarray(t)


def tabled_f(hfe=False):
    return ext(F, 20E3, hfe)


def tabled_alpha_f(hfe=False):
    return ext(ALPHA, ALPHA[0], hfe)


def tabled_L_U(hfe=False):
    return ext(LU, LU[0], hfe)


def tabled_T_f(hfe=False):
    return ext(TF, TF[0], hfe)


def lp(i, L_N):
    A = 4.47E-3*(10**(0.025*L_N) - 1.15) + (0.4*10**((TF[i] + LU[i])/10. - 9.))**ALPHA[i]
    return 10./ALPHA[i]*np.log10(A) - LU[i] + 94.


def ln(i, L_p):
    B = (0.4*10**((L_p + LU[i])/10. - 9.))**ALPHA[i] - (0.4*10**((TF[i] + LU[i])/10. - 9.))**ALPHA[i] + 0.005135
    return 40*np.log10(B) + 94.


def tabled_L_p(L_N, hfe=False):
    v = [lp(i, L_N) for i in range(len(F))]
    return ext(v, v[0], hfe)


def tabled_L_N(L_p, hfe=False):
    v = [ln(i, L_p) for i in range(len(F))]
    return ext(v, v[0], hfe)


def iso226_spl_contour(L_N=40, hfe=False):
    return tabled_f(hfe), tabled_L_p(L_N, hfe)


def iso226_spl_itpl(L_N=40, hfe=False, k=3):
    return InterpolatedUnivariateSpline(tabled_f(hfe), tabled_L_p(L_N, hfe), k=k)


def roundtrip(i, L_N):
    """Loudness of a tone at the level of its own contour, at frequency i."""
    return iso226.tabled_L_N(iso226.tabled_L_p(L_N)[i])[i]


def identity(i, L_N):
    return L_N
