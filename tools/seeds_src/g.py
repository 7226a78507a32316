"""Planted bugs in the bundled modelling package."""
DER = '''
import numpy as np
from pydsm.cvxpy_tdr import *
from pydsm.cvxpy_tdr.sets.exp_cone import exp_cone
from pydsm.cvxpy_tdr.sets.kl_div_epi import kl_div_epi
from pydsm.cvxpy_tdr.sets.log_norm_cdf_hypo import log_norm_cdf_hypo
from pydsm.cvxpy_tdr.sets.power_pos_epi import power_pos_epi
import cvxopt as opt


def agree(S, entries):
    vs = []
    for e in entries:
        if not np.isscalar(e) and e not in vs:
            vs.append(e)
    n = len(vs)
    f, g, h, ind = S._construct(vstack(entries), dict((v, i) for i, v in enumerate(vs)), n)
    x = opt.matrix([.7 + .31*i for i in range(n)], (n, 1))
    G, H = opt.matrix(g(x)), opt.matrix(h(x))
    e = 1e-5
    for i in range(n):
        a, b = +x, +x
        a[i] += e
        b[i] -= e
        assert abs((f(a)-f(b))/(2*e) - G[i]) < 1e-6, (S.name, i)
        d = (opt.matrix(g(a)) - opt.matrix(g(b)))/(2*e)
        for j in range(n):
            assert abs(d[j] - H[j, i]) < 1e-6, (S.name, i, j)


v = [variable() for i in range(7)]
'''
SEEDS = [
 dict(id="c18-kl-second", property="C18",
  needs="a point where the two entries of a pair differ",
  breaks="the second derivative of the divergence with respect to the second entry is only right where the two entries are equal",
  edits=[("cvxpy_tdr/sets/kl_div_epi.py", "u_i*1./(v_i**2.)", "1./v_i")],
  demo=DER + """
agree(kl_div_epi, [v[0], v[1], v[2]])
agree(kl_div_epi, [v[0], v[1], v[2], v[3], 2.])
"""),
 dict(id="c18-kl-pairs", property="C18",
  needs="a divergence over two or more pairs of variables",
  breaks="the mixed second derivatives of every pair but the first are missing",
  edits=[("cvxpy_tdr/sets/kl_div_epi.py", "h[mp[v[i,0]],mp[u[i,0]]] += w", "h[mp[v[i,0]],mp[u[0,0]]] += w")],
  demo=DER + """
agree(kl_div_epi, [v[0], v[1], v[2]])
agree(kl_div_epi, [v[0], v[1], v[2], v[3], v[4]])
"""),
 dict(id="c18-ncdf-repeated", property="C18",
  needs="the same variable in both entries of the normal distribution set",
  breaks="the gradient forgets the contribution of the first entry",
  edits=[("cvxpy_tdr/sets/log_norm_cdf_hypo.py", "g[mp[el[1,0]]] += 1.", "g[mp[el[1,0]]] = 1.")],
  demo=DER + """
agree(log_norm_cdf_hypo, [v[0], v[1]])
agree(log_norm_cdf_hypo, [v[0], v[0]])
"""),
 dict(id="c20-unbounded-max", property="C20",
  needs="a maximisation whose objective is unbounded",
  breaks="the unbounded maximum is reported as minus infinity",
  edits=[("cvxpy_tdr/procedures/solve_prog.py", "obj = np.inf*(-sign)", "obj = -np.inf")],
  demo="""
from pydsm.cvxpy_tdr import *
x = variable()
assert program(minimize(x), [less_equals(x, 3)]).solve(True) == -float('inf')
assert program(maximize(x), [greater_equals(x, 3)]).solve(True) == float('inf')
"""),
 dict(id="c20-cone-order", property="C20",
  needs="two second order cones of different sizes in one program",
  breaks="the sizes of the cones are given to the solver in the reverse of the order of their rows",
  edits=[("cvxpy_tdr/procedures/call_solver.py", "dim_q = dim_q + [r]", "dim_q = [r] + dim_q")],
  demo="""
from pydsm.cvxpy_tdr import *
x, s, t = variable(), variable(), variable()
v = program(minimize(s + t), [belongs(vstack((3, 4, s)), second_order_cone), belongs(vstack((x, t)), second_order_cone),
                              greater_equals(x, 2)]).solve(True)
assert abs(v - 7) < 1e-4, v
"""),
 dict(id="c17-negative-product", property="C17",
  needs="a product of two parameters declared nonpositive scaling a function",
  breaks="the product of two nonpositive constants is taken for a nonpositive constant, so that a concave minimisation is accepted as convex",
  edits=[("cvxpy_tdr/scalars.py", "return (p1[0] and p2[1]) or (p1[1] and p2[0])", "return (p1[0] and p2[1]) or (p1[1] and (p2[0] or p2[1]))")],
  demo="""
from pydsm.cvxpy_tdr import *
m = parameter(attribute='nonpositive')
x = variable()
assert ((m + 0)*(2*m)*square(x)).is_convex()
assert not ((m + 0)*(2*m)*sqrt(x)).is_convex()
"""),
 dict(id="c17-maximise-convex", property="C17",
  needs="a maximisation of a convex objective",
  breaks="maximising a convex function is accepted and given to the solver",
  edits=[("cvxpy_tdr/programs.py", "not self.objective.is_concave()):", "not self.objective.is_dcp()):")],
  demo="""
from pydsm.cvxpy_tdr import *
x = variable()
assert program(maximize(sqrt(x)), [less_equals(x, 4)]).is_dcp()
assert not program(maximize(square(x)), [less_equals(x, 4), greater_equals(x, -3)]).is_dcp()
"""),
 dict(id="c17-last-sides", property="C17",
  needs="a lower bound given by a concave function",
  breaks="a constraint bounding an expression from below by a concave function, whose solutions form no convex set, is accepted",
  edits=[("cvxpy_tdr/constraints.py", "self.right.is_convex()):", "self.right.is_dcp()):")],
  demo="""
from pydsm.cvxpy_tdr import *
x, y = variable(), variable()
assert greater_equals(x, square(y)).is_dcp()
assert not greater_equals(x, sqrt(y)).is_dcp()
"""),
]
