"""Programs written once: run with the package's objects, and with plain numbers for their meaning."""
from pydsm.cvxpy_tdr import *
from pydsm.cvxpy_tdr.sets.exp_cone import exp_cone
from pydsm.cvxpy_tdr.sets.kl_div_epi import kl_div_epi
from pydsm.cvxpy_tdr.sets.log_norm_cdf_hypo import log_norm_cdf_hypo
from pydsm.cvxpy_tdr.sets.power_pos_epi import power_pos_epi

# scalar expressions in variables x, y, z, numbers k and parameters p
EXPR = [
    lambda x, y, z, k, p: k[0],
    lambda x, y, z, k, p: x,
    lambda x, y, z, k, p: p[0],
    lambda x, y, z, k, p: x + y,
    lambda x, y, z, k, p: x - y,
    lambda x, y, z, k, p: -x,
    lambda x, y, z, k, p: k[0]*x,
    lambda x, y, z, k, p: x*k[0],
    lambda x, y, z, k, p: p[0]*x,
    lambda x, y, z, k, p: k[0] - x,
    lambda x, y, z, k, p: x + k[0],
    lambda x, y, z, k, p: x - p[0],
    lambda x, y, z, k, p: x + x,
    lambda x, y, z, k, p: k[0]*x + k[1]*y + k[2],
    lambda x, y, z, k, p: k[0]*x + k[1]*x - p[0]*y,
    lambda x, y, z, k, p: k[0]*(x + y),
    lambda x, y, z, k, p: (x - y)*k[0] + k[1]*(z + k[2]),
    lambda x, y, z, k, p: k[0]*(k[1]*x + y) - p[0]*(x - k[2]*z),
    lambda x, y, z, k, p: p[0]*k[0]*x + p[1]*(p[0]*y - z),
    lambda x, y, z, k, p: x + y + z + k[0] + p[0] + x,
    lambda x, y, z, k, p: -(x - (y - (z - k[0]))),
    lambda x, y, z, k, p: p[0]*p[1] + k[0]*p[0],
    lambda x, y, z, k, p: (p[0] + k[0])*x,
    lambda x, y, z, k, p: -(k[0]*x),
    lambda x, y, z, k, p: k[0]*(p[0]*(k[1]*(p[1]*x))),
]
OTHER = [
    lambda x, y, z, k, p: k[3],
    lambda x, y, z, k, p: z,
    lambda x, y, z, k, p: p[2],
    lambda x, y, z, k, p: k[3]*z - k[4],
    lambda x, y, z, k, p: x,
    lambda x, y, z, k, p: k[3]*x,
]


def le(l, r):
    return ('l', r - l)


def ge(l, r):
    return ('l', l - r)


def eq(l, r):
    return ('e', l - r)


MEAN = [le, ge, eq]
REAL = [less_equals, greater_equals, equals]


def relation(R, i, j, r, swap, x, y, z, k, p):
    """One relation between an expression and another, and a second one that must not disturb it."""
    a = EXPR[i](x, y, z, k, p)
    b = OTHER[j](x, y, z, k, p)
    if swap:
        a, b = b, a
    return y, [R[r](a, b), R[1](y, 2.5)]


def objective(R, i, j, r, swap, x, y, z, k, p):
    """One expression as objective."""
    return EXPR[i](x, y, z, k, p), [R[0](x, k[3]), R[1](y, z), R[2](z, 0.5*x)]


def mixed(R, i, j, r, swap, x, y, z, k, p):
    """Several relations of several kinds."""
    return z, [R[2](EXPR[i](x, y, z, k, p), k[4]), R[0](x, y), R[1](z, EXPR[j](x, y, z, k, p)), R[2](x, p[2]), R[0](k[4], z), R[1](-x, y)]


def repeated(R, i, j, r, swap, x, y, z, k, p):
    """An equality said twice, one that is trivial, and others over the same variables."""
    return z, [R[2](x, y), R[2](y, x), R[2](2*x, 2*y), R[2](x, x), R[2](x, z), R[0](x, 1.), R[0](x, 1.), R[2](x, k[3])]


FORMS = [relation, objective, mixed, repeated]


def meaning(form, i, j, r, swap, x, y, z, k, p):
    o, cs = FORMS[form](MEAN, i, j, r, swap, x, y, z, k, p)
    return o, [c[0] for c in cs], [c[1] for c in cs]


def solved(form, i, j, r, swap, mx, k, pv):
    x, y, z = variable(), variable(), variable()
    p = [parameter(), parameter(), parameter()]
    for n in range(3):
        p[n].value = pv[n]
    o, cs = FORMS[form](REAL, i, j, r, swap, x, y, z, k, p)
    q = program(maximize(o) if mx else minimize(o), cs)
    v, ok = q.solve(True, True)
    return v, ok, [x.value, y.value, z.value]


# ---------------------------------------------------------------- arrays
def arrays(which, k, pv):
    """Relations between arrays, element by element.  The second result is the meaning, as (kind, row, rhs)."""
    X = variable(2, 2)
    x = variable()
    A = matrix([[1., 2.], [3., 4.]])
    v = variable(2, 1)
    if which == 0:
        cs = less_equals(X, A)
    elif which == 1:
        cs = greater_equals(X, k[0])
    elif which == 2:
        cs = equals(x, X)
    elif which == 3:
        cs = less_equals(A*v, v)
    elif which == 4:
        cs = equals(X.T + A, k[0]*X)
    elif which == 5:
        cs = greater_equals(v.T*A, k[0])
    elif which == 6:
        cs = less_equals(X[0:1, 0:2], k[0]*v.T)
    elif which == 7:
        cs = less_equals(vstack((v, x)), 1.)
    elif which == 8:
        cs = less_equals(hstack((x, v.T)), k[0])
    elif which == 9:
        cs = greater_equals(A - X, x)
    elif which == 10:
        Y = variable(2, 2, 'symmetric')
        cs = less_equals(X, Y)
        q = program(minimize(x), cs + [greater_equals(x, -8.)])
        q.solve(True)
        return elements(X) + elements(Y)
    elif which == 11:
        Y = variable(2, 2, 'lower_triangular')
        cs = equals(X, Y)
        q = program(minimize(x), cs + [greater_equals(x, -8.)])
        q.solve(True)
        return elements(X) + [Y[0, 0].value, Y[1, 0].value, Y[1, 1].value]
    elif which == 12:
        Y = parameter(2, 2)
        for i in range(2):
            for j in range(2):
                Y[i, j].value = pv[0]*(i + 1) + j
        cs = less_equals(X + Y, x)
    elif which == 13:
        cs = equals(diag(v), X)
    elif which == 14:
        cs = [less_equals(sum(X), x)]
    q = program(minimize(x), [cs, greater_equals(x, -8.)] if which != 14 else cs + [greater_equals(x, -8.)])
    q.solve(True)
    return elements(X) + [x.value] + elements(v)


def elements(a):
    r = []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            r.append(a[i, j].value)
    return r


# ---------------------------------------------------------------- cones
def entry(c, i, vs, k, p):
    if c == 'k':
        return k[i]
    if c == 'p':
        return p[i]
    if c == 't':
        return k[i]*vs[0] - vs[i] + p[i]
    return vs[c]


def entries(kinds, vs, k, p):
    return [entry(kinds[i], i, vs, k, p) for i in range(len(kinds))]


def cone(name, rows, kinds, k, pv):
    vs = [variable() for i in range(len(kinds))]
    p = [parameter() for i in range(len(kinds))]
    for i in range(len(kinds)):
        p[i].value = pv[i]
    e = entries(kinds, vs, k, p)
    S = {'soc': second_order_cone, 'sdc': semidefinite_cone, 'exp': exp_cone, 'kl': kl_div_epi, 'ncdf': log_norm_cdf_hypo, 'pow': power_pos_epi(k[-1])}[name]
    n = len(kinds)//rows
    a = vstack([hstack(e[i*n:(i + 1)*n]) for i in range(rows)])
    cs = [less_equals(vs[0], k[0])]
    program(minimize(vs[0]), cs + [belongs(a, S), greater_equals(vs[0], k[1])]).solve(True)
    return [v.value for v in vs]


def blocks(k):
    v = [variable() for i in range(6)]
    cs = [belongs(vstack((hstack((v[0], v[1])), hstack((v[1], v[2])))), semidefinite_cone),
          belongs(vstack((v[0], v[1], v[2], v[3])), second_order_cone),
          less_equals(v[0], k[0]),
          belongs(vstack((hstack((v[3], k[2], v[5])), hstack((k[2], v[4], v[0])), hstack((v[5], v[0], v[1])))), semidefinite_cone),
          belongs(vstack((v[0] + v[5], v[4])), second_order_cone),
          greater_equals(v[1], k[1])]
    program(minimize(v[0]), cs).solve(True)
    return [x.value for x in v]


# ---------------------------------------------------------------- programs used as functions
def function(which, mx):
    x, y, w = variable(), variable(), variable()
    t, s, z, u = variable(), variable(), variable(), variable()
    f = program(minimize(t), [less_equals(z, t), less_equals(-z, t)], [z])
    g = program(maximize(s), [less_equals(s, z), less_equals(s, 2*u + 1)], [z, u])
    h = program(minimize(t + s), [less_equals(z, t), less_equals(0, t), less_equals(s, 5), greater_equals(s, -z)], [z])
    V = variable(2, 1)
    m = program(minimize(t), [less_equals(V[0, 0], t), less_equals(V[1, 0], t)], [V])
    if which == 0:
        o, cs = w, [less_equals(f(x), w)]
    elif which == 1:
        o, cs = w, [less_equals(f(x) + f(y), w)]
    elif which == 2:
        o, cs = w, [less_equals(f(x) + 2*f(y), w), less_equals(f(w), 4)]
    elif which == 3:
        o, cs = w, [greater_equals(g(x, y), w)]
    elif which == 4:
        o, cs = w, [greater_equals(g(x, y) + g(y, x), w)]
    elif which == 5:
        o, cs = w, [less_equals(h(x) + h(y - 1), w)]
    elif which == 6:
        o, cs = w, [less_equals(m(vstack((x, y))), w)]
    elif which == 7:
        o, cs = w, [less_equals(m(vstack((f(x) + y, x))), w)]
    elif which == 8:
        o, cs = w, [less_equals(f(x) - g(y, x), w)]
    elif which == 9:
        o, cs = w, [less_equals(m(vstack((x, 2.))) + m(vstack((y, -x))), w)]
    elif which == 10:
        o, cs = w, [less_equals(abs(x) + max(vstack((x, y, 1.))), w)]
    elif which == 11:
        o, cs = w, [less_equals(norm1(vstack((x, y - 1))), w), greater_equals(min(vstack((x, y))), -9)]
    elif which == 12:
        o, cs = w, [less_equals(norm_inf(vstack((x, y - 1))) - min(vstack((x, 2*y, 1.))), w)]
    elif which == 13:
        o, cs = w, [less_equals(f(x), w), less_equals(f(x) + y, 3)]
    elif which == 14:
        o, cs = w, [less_equals(f(t) + f(z), w), equals(t, x), equals(z, y)]
    elif which == 15:
        o, cs = w, [less_equals(m(vstack((V[1, 0], 3*V[0, 0]))), w), equals(V[0, 0], x), equals(V[1, 0], y)]
    elif which == 16:
        o, cs = w, [less_equals(abs(x - 2*y) + f(y), w)]
    if which in (3, 4):
        program(maximize(o) if not mx else minimize(-o), cs).solve(True)
    else:
        program(maximize(-o) if mx else minimize(o), cs).solve(True)
    return [x.value, y.value, w.value]


# ---------------------------------------------------------------- refused
def refused(which):
    x, y = variable(), variable()
    X = variable(2, 2)
    v = variable(3, 1)
    if which == 0:
        cs = [less_equals(X, v)]
    elif which == 1:
        cs = [belongs(v, semidefinite_cone)]
    elif which == 2:
        cs = [belongs(X, second_order_cone)]
    elif which == 3:
        cs = [belongs(x, semidefinite_cone)]
    elif which == 4:
        cs = [belongs('a', exp_cone)]
    elif which == 5:
        p = parameter()
        cs = [less_equals(p + x, 1)]
    elif which == 6:
        cs = [less_equals(x*y, 1)]
    elif which == 7:
        cs = [belongs(X, exp_cone)]
    elif which == 8:
        program(minimize(X), [less_equals(x, 1)]).solve(True)
        return
    elif which == 9:
        cs = [belongs(vstack((x, y)), exp_cone)]
    elif which == 10:
        cs = [belongs(v, power_pos_epi(2))]
    elif which == 11:
        f = program(minimize(x), [less_equals(y, x)], [y])
        cs = [less_equals(f(X), 1)]
    elif which == 12:
        f = program(minimize(x), [less_equals(y, x)], [y])
        cs = [less_equals(f(x, y), 1)]
    elif which == 13:
        q = parameter()
        f = program(minimize(x), [less_equals(q*y, x)], [y, q])
        cs = [less_equals(f(y, x), 1)]
    program(minimize(x), cs + [greater_equals(x, -8.)]).solve(True)
