"""Programs with one membership in a smooth set, built through the package's own interface."""
from pydsm.cvxpy_tdr import *
from pydsm.cvxpy_tdr.sets.exp_cone import exp_cone
from pydsm.cvxpy_tdr.sets.kl_div_epi import kl_div_epi
from pydsm.cvxpy_tdr.sets.log_norm_cdf_hypo import log_norm_cdf_hypo
from pydsm.cvxpy_tdr.sets.power_pos_epi import power_pos_epi
from pydsm.cvxpy_tdr.sets.geo_mean_cone import geo_mean_cone


def entries(kinds, values):
    """kinds[i]: 'k' number, 'p' parameter, or the index of a variable (repeated when the index is)."""
    vs = {}
    out = []
    for i in range(len(kinds)):
        k = kinds[i]
        if k == 'k':
            out.append(values[i])
        elif k == 'p':
            a = parameter()
            a.value = values[i]
            out.append(a)
        else:
            if k not in vs:
                vs[k] = variable()
            out.append(vs[k])
    return out, vs


def member(name, kinds, values, p):
    S = {'exp': exp_cone, 'kl': kl_div_epi, 'ncdf': log_norm_cdf_hypo, 'geo': geo_mean_cone, 'pow': power_pos_epi(p)}[name]
    el, vs = entries(kinds, values)
    program(minimize(vs[0]), [belongs(vstack(el), S)]).solve(True)
    return [vs[k].value for k in range(len(vs))]


def several(a, b, p):
    x = variable()
    y = variable()
    z = variable()
    w = variable()
    cs = [belongs(vstack((x, y, a)), exp_cone), less_equals(x, 3), belongs(vstack((y, z)), power_pos_epi(p)),
          equals(x + 2 * y, w), belongs(vstack((x, b)), log_norm_cdf_hypo), belongs(vstack((x, y, w)), kl_div_epi)]
    program(minimize(z), cs).solve(True)
    return [x.value, y.value, z.value, w.value]


def direct(S, kinds, values, n, x):
    import cvxopt as opt
    el, vs = entries(kinds, values)
    f, g, h, i = S._construct(vstack(el), {vs[k]: k for k in vs}, n)
    return f(x), g(x), h(x), i(x)
