SEEDS = [
 dict(id="c01-normalize-inplace", property="C01",
  needs="an ndarray q0 and a numeric normalisation factor",
  breaks="ntf_fir_from_q0 scales the coefficients of the caller in place",
  edits=[("NTFdesign/weighting/_fir_weighting.py", "        q0 = q0*normalize\n    order = q0.shape[0]-1", "        q0 *= normalize\n    order = q0.shape[0]-1")],
  demo="""
from pydsm.NTFdesign.weighting import ntf_fir_from_q0
q0 = np.array([1., .5, .25, .125])
ntf_fir_from_q0(q0, normalize=10., show_progress=False)
assert np.array_equal(q0, [1., .5, .25, .125]), q0
"""),
 dict(id="c05-normalize-dropped", property="C05",
  needs="the superseded name called with an explicit normalisation",
  breaks="synthesize_ntf_from_q0 ignores its normalize argument",
  edits=[("NTFdesign/weighting/_fir_weighting.py", "    return ntf_fir_from_q0(q0, H_inf, normalize, **options)\n", "    return ntf_fir_from_q0(q0, H_inf, **options)\n")],
  demo="""
import warnings
import pydsm.NTFdesign.weighting._fir_weighting as m
warnings.simplefilter('ignore')
seen = []
real = m.ntf_fir_from_q0
m.ntf_fir_from_q0 = lambda q0, H_inf=1.5, normalize='auto', **o: seen.append((H_inf, normalize)) or (np.zeros(1), np.zeros(1), 1.)
m.synthesize_ntf_from_q0(np.array([1., .5]), 1.7, 3.)
assert seen == [(1.7, 3.)], seen
"""),
 dict(id="c19-print-options", property="C19",
  needs="the complex pairing helper called with explicit dim",
  breaks="numpy's print options are changed when the pairing reports unpaired values",
  edits=[],
  demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
