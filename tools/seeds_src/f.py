SIM = """
from pydsm.delsig import simulateDSM
import warnings
warnings.simplefilter('ignore')
rng = np.random.default_rng(1)
def ref(u, H, nlev, x0):
    u = np.atleast_2d(u); nu, N = u.shape; nq = len(nlev); o = H.shape[0]-nq
    A, B, C, D = H[:o, :o], H[:o, o:], H[o:, :o], H[o:, o:o+nu]
    x = np.array(x0, float).reshape(-1, 1); xm = np.abs(x)
    V, X, Y = np.zeros((nq, N)), np.zeros((o, N)), np.zeros((nq, N))
    n = np.asarray(nlev).reshape(-1, 1)
    for i in range(N):
        y = C@x+D@u[:, i:i+1]
        v = np.where(n % 2 == 0, 2*np.floor(.5*y)+1, 2*np.floor(.5*(y+1)))
        v = np.clip(v, -(n-1), n-1)
        x = A@x+B@np.vstack((u[:, i:i+1], v))
        xm = np.maximum(xm, np.abs(x))
        V[:, i:i+1], X[:, i:i+1], Y[:, i:i+1] = v, x, y
    return V, X, xm, Y
def model(o, nu, nq):
    A = .5*rng.normal(size=(o, o))/o
    return np.vstack((np.hstack((A, rng.normal(size=(o, nu+nq)))), np.hstack((rng.normal(size=(nq, o+nu)), np.zeros((nq, nq))))))
def same(back, u, H, nlev, x0):
    r = simulateDSM(u, H, nlev, x0, store_xn=True, store_xmax=True, store_y=True, backend=back)
    for a, b in zip(r, ref(u, H, nlev, x0)):
        assert np.allclose(np.squeeze(a), np.squeeze(b), 1e-9, 1e-9), back
"""
SUB = """
import subprocess, sys
CODE = '''%s'''
for _ in range(3):
    r = subprocess.run([sys.executable, "-c", CODE], capture_output=True, text=True)
    assert r.returncode == 0, (r.returncode, r.stderr[-300:])
"""
SEEDS = [
 dict(id="c07-level-stride", property="C07",
  needs="a compiled back end and several quantizers with different level counts",
  breaks="every quantizer saturates at the level of the first one",
  edits=[("delsig/_simulateDSM_helper.pxi", "L = n[qi*n_stride]-1", "L = n[0]-1")],
  demo=SIM + """
for b in ('cblas', 'scipy_blas'):
    same(b, 4*rng.normal(size=(2, 40)), model(3, 2, 2), [3, 9], [0, 0, 0])
"""),
 dict(id="c07-xmax-start", property="C07",
  needs="the scipy_blas back end, store_xmax and an initial state larger than every later state",
  breaks="the initial state is not counted in the state maxima",
  edits=[("delsig/_simulateDSM_scipy_blas.pyx", "xmax = np.abs(c_x0)", "xmax = np.zeros_like(c_x0)")],
  demo=SIM + """
for b in ('cblas', 'scipy_blas', 'scipy'):
    H = model(3, 1, 1)
    same(b, .1*rng.normal(size=(1, 20)), H, [5], [90, -80, 70])
"""),
 dict(id="c07-input-step", property="C07",
  needs="the cblas back end and two or more inputs",
  breaks="the state update takes consecutive samples of the first input instead of one sample of each input",
  edits=[("delsig/_simulateDSM_cblas.pyx", "            1.0, dbldata(B1), nu, \\\n            dbldata(c_u)+i, N, \\\n", "            1.0, dbldata(B1), nu, \\\n            dbldata(c_u)+i, 1, \\\n")],
  demo=SIM + """
for b in ('cblas', 'scipy_blas', 'scipy'):
    same(b, rng.normal(size=(3, 30)), model(2, 3, 1), [5], [0, 0])
"""),
 dict(id="c08-y0-size", property="C08",
  needs="a compiled back end and more quantizers than inputs",
  breaks="the quantizer inputs are written past the end of their buffer",
  edits=[("delsig/_simulateDSM_cblas.pyx", "cdef np.ndarray y0 = np.empty(nq, dtype=np.float64)", "cdef np.ndarray y0 = np.empty(nu, dtype=np.float64)")],
  demo=SUB % """
import numpy as np
from pydsm.delsig import simulateDSM
nq, o = 600, 2
H = np.zeros((o+nq, o+1+nq)); H[:o, :o] = .5*np.eye(o); H[:, o] = 1.
u = np.ones(50)
for k in range(40):
    v, xn, xmax, y = simulateDSM(u, H, [3]*nq, store_y=True, backend="cblas")
    assert (y == 1).all() and (v == 2).all()
    keep = [np.ones(n) for n in range(1, 200)]
    del keep
"""),
 dict(id="c08-c-layout", property="C08",
  needs="the cblas back end and two or more quantizers",
  breaks="the output matrix is a strided view read as if it were contiguous",
  edits=[("delsig/_simulateDSM_cblas.pyx", "        C = np.asarray(ABCD[order:order+nq, 0:order],\\\n            dtype=np.float64, order='C')", "        C = ABCD[order:order+nq, 0:order]")],
  demo=SIM + """
for b in ('cblas', 'scipy_blas', 'scipy'):
    same(b, rng.normal(size=(1, 30)), model(3, 1, 2), [5, 4], [0, 0, 0])
"""),
 dict(id="c08-xmax-rows", property="C08",
  needs="a compiled back end, store_xmax and an order above the number of quantizers",
  breaks="the state maxima are written past the end of their array",
  edits=[("delsig/_simulateDSM_scipy_blas.pyx", "xmax = np.abs(c_x0)", "xmax = np.abs(c_x0[0:nq])")],
  demo=SIM + """
for b in ('cblas', 'scipy_blas', 'scipy'):
    same(b, rng.normal(size=(1, 30)), model(4, 1, 1), [5], [0, 0, 0, 0])
"""),
]
