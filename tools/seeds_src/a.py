SEEDS = [
 dict(id="c12-f-unnormalised-gain", property="C12",
  needs="f_weighting called with power=False and normal=False",
  breaks="the unnormalised gain form of the F weighting is the root of the normalised power form",
  edits=[("audio_weightings.py", "return np.sqrt(f_weighting(f, normal, power=True))", "return np.sqrt(f_weighting(f, power=True))")],
  demo="""
from pydsm.audio_weightings import f_weighting
f = np.array([30., 1000., 12345.])
for normal in (True, False):
    assert np.allclose(f_weighting(f, normal, False)**2, f_weighting(f, normal, True)), normal
"""),
 dict(id="c13-dbm-tiny", property="C13",
  needs="a nonzero voltage below 1e-9",
  breaks="dbm reports minus infinity for small nonzero voltages",
  edits=[("delsig/_decibel.py", "    nonzero = np.asarray(v != 0)", "    nonzero = np.asarray(v > 1e-9)")],
  demo="""
from pydsm.delsig import dbm, undbm
assert np.isfinite(dbm(1e-11))
assert np.allclose(undbm(dbm([1e-11, 2.], 75.), 75.), [1e-11, 2.])
"""),
 dict(id="c14-hfe-level", property="C14",
  needs="loudness levels requested with the high-frequency extension",
  breaks="the 20 kHz point of the loudness table repeats the last point instead of the first",
  edits=[("iso226.py", "    return np.append(L_N, L_N[0]) if hfe else L_N", "    return np.append(L_N, L_N[-1]) if hfe else L_N")],
  demo="""
from pydsm.iso226 import tabled_L_N
t = tabled_L_N(60., hfe=True)
assert len(t) == 30 and t[-1] == t[0]
"""),
 dict(id="c15-f1f2-edge", property="C15",
  needs="a centre frequency between 0.25/OSR and 0.5/OSR",
  breaks="band edges of a narrow bandpass request are computed as if it were lowpass",
  edits=[("delsig/_ds.py", "if f0 > 0.25/osr:", "if f0 > 0.5/osr:")],
  demo="""
from pydsm.delsig._ds import ds_f1f2
assert np.allclose(ds_f1f2(64, 0.3/64), (0.05/64, 0.55/64))
"""),
 dict(id="c16-average-band", property="C16",
  needs="an average requested over a band that does not start at zero",
  breaks="the average noise gain is divided by the upper band edge instead of the bandwidth",
  edits=[("NTFdesign/merit_factors.py", "c = 1/(bounds[1]-bounds[0]) if avg else 2.", "c = 1/bounds[1] if avg else 2.")],
  demo="""
from pydsm.NTFdesign.merit_factors import quantization_noise_gain as g
ntf = ([], [], 1.)
assert abs(g(ntf, None, (0.2, 0.4), True) - 1) < 1e-6
assert abs(g(ntf, None, (0., 0.4), True) - 1) < 1e-6
"""),
 dict(id="c16-mag-weighting", property="C16",
  needs="a filter given by a magnitude callable that takes negative or complex values",
  breaks="q0_from_filter uses the magnitude itself, not its square, for the mag filter type",
  edits=[("NTFdesign/filter_based.py", "        w = lambda f: H(f)**2\n        q0 = q0_weighting", "        w = lambda f: abs(H(f))\n        q0 = q0_weighting")],
  demo="""
from pydsm.NTFdesign.filter_based import q0_from_filter
q = q0_from_filter(2, lambda f: 2*np.ones_like(f), 'mag')
assert np.allclose(q, [4, 0, 0], atol=1e-9), q
"""),
]
