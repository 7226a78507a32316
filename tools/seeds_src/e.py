SEEDS = [
 dict(id="c10-opt4-pad", property="C10",
  needs="a bandpass design with opt=4 (zeros optimised, those at the centre kept) and order 6 or more",
  breaks="the optimised zeros are completed to the wrong number: the NTF has fewer zeros than poles",
  edits=[("delsig/_synthesizeNTF1.py", "z = padl(z, len(p)//2, np.exp(2j*np.pi*f0))", "z = padl(z, len(x0), np.exp(2j*np.pi*f0))")],
  demo="""
from pydsm.delsig import synthesizeNTF
for o in (4, 6, 8):
    z, p, k = synthesizeNTF(o, 32, 4, 1.5, .2)
    assert len(z) == len(p) == o
"""),
 dict(id="c10-table-swap", property="C10",
  needs="order 14 with the zeros at the centre kept (opt=2)",
  breaks="two digits of a tabulated zero are exchanged, the in-band noise is not at its minimum",
  edits=[("delsig/_ds.py", "0.30524384, 0.50836649, 0.6836066", "0.30524384, 0.50386649, 0.6836066")],
  demo="""
from pydsm.delsig._ds import ds_optzeros
from numpy.polynomial import Polynomial
z = np.sort(ds_optzeros(14, 2))
assert len(z) == 14
def noise(z):
    p = Polynomial.fromroots(z)**2
    i = p.integ()
    return i(1)-i(-1)
ref = noise(z)
free = np.nonzero(np.abs(z) > 1e-9)[0]
for j in free:
    for d in (1e-4, -1e-4):
        w = z.copy()
        w[j] += d
        w[13-j] -= d
        assert noise(w) > ref
"""),
 dict(id="c10-hybrid-poles", property="C10",
  needs="a hybrid design given fewer poles than its order",
  breaks="the poles returned are not completed with those at the origin",
  edits=[("NTFdesign/weighting/_fir_weighting.py", "    poles = padr(poles, order, 0)\n    # Get denominator coefficients from a_1 to a_order (a_0 is 1)\n    ar = np.poly(poles)[1:].real",
          "    # Get denominator coefficients from a_1 to a_order (a_0 is 1)\n    ar = padr(np.poly(poles)[1:].real, order, 0)")],
  demo="""
from pydsm.NTFdesign import ntf_hybrid_weighting
z, p, k = ntf_hybrid_weighting(4, lambda f: 1.+0*f, poles=[.4+.2j, .4-.2j], show_progress=False)
assert len(z) == len(p) == 4, (z, p)
"""),
 dict(id="c06-bands-osr", property="C06",
  needs="the default modeler and two bands with different oversampling ratios",
  breaks="the width of the first band is used for all of them",
  edits=[("NTFdesign/minmax/_fir_minmax_cvxpy.py", "        osr = osrs[idx]\n", "        osr = osrs[0]\n")],
  demo="""
from pydsm.NTFdesign import ntf_fir_minmax
def coeffs(m):
    return np.poly(ntf_fir_minmax(6, [32, 6], 1.5, [.1, .3], show_progress=False, modeler=m)[0])
assert np.allclose(coeffs('cvxpy'), coeffs('cvxpy_old'), atol=1e-2)
"""),
 dict(id="c06-zf-range", property="C06",
  needs="the picos modeler and a lowpass design with a zero forced at the centre",
  breaks="one coefficient is left out of the constraint that places the zero",
  edits=[("NTFdesign/minmax/_fir_minmax_picos.py", "picos.sum(c[i] for i in range(order)) == -1", "picos.sum(c[i] for i in range(1, order)) == -1")],
  demo="""
from pydsm.NTFdesign import ntf_fir_minmax
from pydsm.delsig import evalTF
ntf = ntf_fir_minmax(5, 32, 1.5, 0., True, show_progress=False, modeler='picos')
assert np.abs(evalTF(ntf, np.array([1.]))) < 1e-5
"""),
 dict(id="c06-lee-picos", property="C06",
  needs="the picos modeler and a hybrid design with a peak gain other than the default and poles given",
  breaks="the gain bound enters one modeler's matrix inequality without being squared",
  edits=[("NTFdesign/weighting/_fir_weighting_picos.py", "-H_inf**2", "-H_inf*1.5")],
  demo="""
from pydsm.NTFdesign import ntf_fir_weighting
from pydsm.delsig import evalTF
w = lambda f: np.where(np.asarray(f) < .05, 1., 0.)
r = []
for m in ('cvxpy', 'picos'):
    ntf = ntf_fir_weighting(6, w, 2.5, show_progress=False, modeler=m)
    r.append(np.max(np.abs(evalTF(ntf, np.exp(1j*np.linspace(0, np.pi, 301))))))
assert abs(r[0]/r[1]-1) < .02, r
"""),
]
