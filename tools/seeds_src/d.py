SEEDS = [
 dict(id="c02-itpl-cache", property="C02",
  needs="the interpolated contour of one loudness level asked without and then with the high-frequency extension",
  breaks="interpolations are kept between calls under a key that misses one of the arguments",
  edits=[("iso226.py", "    ff, yy = iso226_spl_contour(L_N, hfe)\n    return InterpolatedUnivariateSpline(ff, yy, k=k)",
   "    key = (float(L_N), k)\n    if key not in _splines:\n        ff, yy = iso226_spl_contour(L_N, hfe)\n        _splines[key] = InterpolatedUnivariateSpline(ff, yy, k=k)\n    return _splines[key]\n\n_splines = {}")],
  demo="""
from pydsm.iso226 import iso226_spl_itpl, iso226_spl_contour
iso226_spl_itpl(50, False)
f, y = iso226_spl_contour(50, True)
assert np.allclose(iso226_spl_itpl(50, True)(f), y)
"""),
 dict(id="c09-pair-any", property="C09",
  needs="four complex numbers with one real part, only two of which are conjugate",
  breaks="numbers that cannot be paired are accepted when some of those sharing their real part can",
  edits=[("relab.py", "            if np.any(np.abs(np.imag(sub_x)+np.imag(sub_x[::-1])) >", "            if np.all(np.abs(np.imag(sub_x)+np.imag(sub_x[::-1])) >")],
  demo="""
from pydsm.relab import cplxpair
try:
    cplxpair([1+1j, 1-1j, 1+2j, 1-3j])
except ValueError:
    pass
else:
    raise AssertionError('accepted')
"""),
 dict(id="c09-x0-short", property="C09",
  needs="the compiled back end and an initial state with fewer entries than the order",
  breaks="too short an initial state is accepted by one back end",
  edits=[("delsig/_simulateDSM_cblas.pyx", "            if c_x0.shape[0]!=order:", "            if c_x0.shape[0]>order:")],
  demo="""
from pydsm.delsig import simulateDSM
H = (np.array([1., 1.]), np.array([.5, .4]), 1.)
try:
    simulateDSM(np.zeros(0), H, x0=np.array([.1]), backend='cblas')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
"""),
 dict(id="c11-clans-cmath", property="C11",
  needs="an odd order and a real pole of the starting NTF outside the circle of radius rmax",
  breaks="one branch uses a module that is not imported",
  edits=[("delsig/_clans.py", "            # NB. Test has been fixed wrt DELSIG, where it always fails.\n            z = z/np.abs(z)", "            # NB. Test has been fixed wrt DELSIG, where it always fails.\n            z = math.copysign(1, z)")],
  demo="""
from pydsm.delsig import clans
clans(1, 32, .2, .5, 0)
"""),
 dict(id="c19-legacy-conv", property="C19",
  needs="an exception raised by the convolution",
  breaks="the floating-point error handling stays changed when the convolution is refused",
  edits=[("NTFdesign/legacy/_quantization_noise_gain.py", "    conv = signal.convolve(h1_ir, h2_ir)\n    return np.sum(conv**2)",
   "    saved = np.seterr(under='ignore')\n    gain = np.sum(signal.convolve(h1_ir, h2_ir)**2)\n    np.seterr(**saved)\n    return gain")],
  demo="""
from pydsm.NTFdesign.legacy import quantization_noise_gain_by_conv
np.seterr(under='warn')
s = np.geterr()
try:
    quantization_noise_gain_by_conv(([1.], [.5], 1.), np.ones((2, 2)), 'imp')
except Exception:
    pass
assert np.geterr() == s, np.geterr()
"""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
