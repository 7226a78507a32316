"""Programs written once: built with the package's objects, and judged with the convexity rules themselves."""
from pydsm.cvxpy_tdr import *
from pydsm.cvxpy_tdr.scalars import cvxpy_obj


# ---------------------------------------------------------------- expressions over e: variables x, y, z; parameters p, q; n >= 0; m <= 0
class Names:
    def __init__(self):
        self.x, self.y, self.z = variable(), variable(), variable()
        self.p, self.q = parameter(), parameter()
        self.n = parameter(attribute='nonnegative')
        self.m = parameter(attribute='nonpositive')
        self.p.value, self.q.value, self.n.value, self.m.value = 1.5, -2.5, 0.75, -1.25


# TWICE
LEAF = [
    ("x", lambda e: e.x),
    ("p", lambda e: e.p),
    ("n", lambda e: e.n),
    ("m", lambda e: e.m),
    ("square(x)", lambda e: square(e.x)),
    ("sqrt(y)", lambda e: sqrt(e.y)),
    ("2x-py", lambda e: 2*e.x - e.p*e.y),
    ("sqrt(square(x))", lambda e: sqrt(square(e.x))),
    ("square(x)+sqrt(y)", lambda e: square(e.x) + sqrt(e.y)),
    ("exp(square(x)+y)", lambda e: exp(square(e.x) + e.y)),
    ("m*square(x)", lambda e: e.m*square(e.x)),
    ("p*square(x)", lambda e: e.p*square(e.x)),
    ("square(p)", lambda e: square(e.p)),
    ("n*m", lambda e: e.n*e.m),
    ("m*m", lambda e: (e.m + 0)*(2*e.m)),
    ("n+3", lambda e: e.n + 3),
    ("n-3", lambda e: e.n - 3),
    ("m-1", lambda e: e.m - 1),
    ("1-m", lambda e: 1 - e.m),
    ("n+m", lambda e: e.n + e.m),
    ("-2*n", lambda e: -2*e.n),
    ("-n", lambda e: -e.n),
    ("p-q", lambda e: e.p - e.q),
    ("-sqrt(y)", lambda e: -sqrt(e.y)),
    ("x-square(y)", lambda e: e.x - square(e.y)),
    ("-3*(square(x)-y)", lambda e: -3*(square(e.x) - e.y)),
    ("n*(m*square(x))", lambda e: e.n*(e.m*square(e.x))),
    ("m*(m*square(x)+y)", lambda e: e.m*(e.m*square(e.x) + e.y)),
    ("(n-3)*square(x)", lambda e: (e.n - 3)*square(e.x)),
    ("(n+1)*square(x)", lambda e: (e.n + 1)*square(e.x)),
    ("square(p)*square(x)", lambda e: square(e.p)*square(e.x)),
    ("log(p)*square(x)", lambda e: log(e.p)*square(e.x)),
    ("log(p)*sqrt(y)", lambda e: log(e.p)*sqrt(e.y)),
    ("log(p)", lambda e: log(e.p)),
    ("-2*(n*sqrt(y))", lambda e: -2*(e.n*sqrt(e.y))),
    ("2*(-3*square(x))", lambda e: 2*(-3*square(e.x))),
    ("-1*(-1*square(x))", lambda e: -1*(-1*square(e.x))),
    ("p*(x-sqrt(y))", lambda e: e.p*(e.x - sqrt(e.y))),
    ("square(sqrt(y))", lambda e: square(sqrt(e.y))),
    ("exp(m)*sqrt(y)", lambda e: exp(e.m)*sqrt(e.y)),
]
OP = [
    ("a", lambda a, b: a),
    ("a+b", lambda a, b: a + b),
    ("a-b", lambda a, b: a - b),
    ("a*b", lambda a, b: a*b),
    ("-1.5*a+b", lambda a, b: -1.5*a + b),
    ("2+a-3*b", lambda a, b: 2 + a - 3*b),
    ("(a+b)*a", lambda a, b: (a + b)*a),
    ("-(a-b)+1", lambda a, b: -(a - b) + 1),
    ("exp(a)-sqrt(b)", lambda a, b: exp(a) - sqrt(b)),
    ("max(a,b)", lambda a, b: max(vstack((a, b)))),
    ("min(a,b)", lambda a, b: min(vstack((a, b)))),
]
ATOM = [
    ("abs", lambda a, b: abs(a)),
    ("exp", lambda a, b: exp(a)),
    ("geo_mean", lambda a, b: geo_mean(vstack((a, b)))),
    ("geo_mean of one", lambda a, b: geo_mean(a)),
    ("huber", lambda a, b: huber(a, 2)),
    ("kl_div", lambda a, b: kl_div(a, b)),
    ("lambda_max", lambda a, b: lambda_max(vstack((hstack((a, b)), hstack((b, a)))))),
    ("lambda_min", lambda a, b: lambda_min(vstack((hstack((a, b)), hstack((b, a)))))),
    ("log", lambda a, b: log(a)),
    ("log_norm_cdf", lambda a, b: log_norm_cdf(a)),
    ("log_sum_exp", lambda a, b: log_sum_exp(vstack((a, b)))),
    ("max", lambda a, b: max(vstack((a, b)))),
    ("min", lambda a, b: min(vstack((a, b)))),
    ("norm1", lambda a, b: norm1(vstack((a, b)))),
    ("norm2", lambda a, b: norm2(vstack((a, b)))),
    ("norm2 of a matrix", lambda a, b: norm2(vstack((hstack((a, b)), hstack((b, a)))))),
    ("norm_inf", lambda a, b: norm_inf(vstack((a, b)))),
    ("nuclear_norm", lambda a, b: nuclear_norm(vstack((hstack((a, b)), hstack((b, a)))))),
    ("power_abs 3", lambda a, b: power_abs(a, 3)),
    ("power_abs 1", lambda a, b: power_abs(a, 1)),
    ("power_p 1.5", lambda a, b: power_p(a, 1.5)),
    ("power_p 1", lambda a, b: power_p(a, 1)),
    ("power_pos 2", lambda a, b: power_pos(a, 2)),
    ("power_pos 1", lambda a, b: power_pos(a, 1)),
    ("quad_over_lin", lambda a, b: quad_over_lin(a, b)),
    ("sqrt", lambda a, b: sqrt(a)),
    ("square", lambda a, b: square(a)),
    ("det_rootn", lambda a, b: det_rootn(vstack((hstack((a, b)), hstack((b, a)))))),
]


# programs used as functions: internal names s, t; formals
def use(which, a, b):
    s, t, u, v = variable(), variable(), variable(), variable()
    r = parameter()
    w = parameter(attribute='nonnegative')
    if which == 0:
        f = program(minimize(t), [less_equals(u, t), less_equals(-v, t)], [u, v])
    elif which == 1:
        f = program(maximize(t), [less_equals(t, u), less_equals(v, t)], [u, v])
    elif which == 2:
        f = program(minimize(square(u) - sqrt(t)), [less_equals(t, v), greater_equals(u, t)], [u, v])
    elif which == 3:
        f = program(maximize(sqrt(u) - square(v)), [], [u, v])
    elif which == 4:
        f = program(minimize(t), [equals(t, u + v)], [u, v])
    elif which == 5:
        f = program(minimize(sqrt(u)), [less_equals(v, t)], [u, v])
    elif which == 6:
        f = program(minimize(w*exp(u)), [less_equals(u, v)], [u, w, v])
        return f(a, b, b)
    elif which == 7:
        f = program(minimize(w*u), [], [u, w])
        return f(a, b)
    elif which == 8:
        f = program(maximize(r*square(u) + s), [less_equals(s, u)], [u, r])
        return f(a, b)
    elif which == 9:
        f = program(minimize(t), [less_equals(u, t), less_equals(v, sqrt(t)), less_equals(t, square(s))], [u, v])
    elif which == 10:
        g = program(maximize(s), [less_equals(s, v), less_equals(s, 1)], [v])
        f = program(minimize(u - g(t)), [less_equals(t, v)], [u, v])
    elif which == 11:
        g = program(minimize(s), [greater_equals(s, v), greater_equals(s, -1)], [v])
        f = program(minimize(g(u + t) + t), [greater_equals(g(t), v)], [u, v])
    elif which == 12:
        f = program(minimize(t), [belongs(vstack((u, v, t)), second_order_cone)], [u, v])
    elif which == 13:
        f = program(maximize(t), [greater_equals(u, exp(t)), less_equals(t, v), less_equals(v, square(t))], [u, v])
    return f(a, b)


NUSE = 14


def constrained(which, a, b, s, t):
    """Constraints with a and b on either side, alone, among others and in arrays."""
    if which == 0:
        return [less_equals(a, b)]
    elif which == 1:
        return [greater_equals(a, b)]
    elif which == 2:
        return [equals(a, b)]
    elif which == 3:
        return [less_equals(s, 1), less_equals(a, t), greater_equals(b, -2), less_equals(t, 5)]
    elif which == 4:
        return [less_equals(s, 1), less_equals(t, 5), equals(t, a - b)]
    elif which == 5:
        return [less_equals(vstack((s, a)), vstack((b, t)))]
    elif which == 6:
        return [greater_equals(vstack((a, s, b)), t), equals(s, 1)]
    elif which == 7:
        return [belongs(vstack((a, b, t)), second_order_cone)]
    elif which == 8:
        return [less_equals(s, 1), belongs(vstack((hstack((t, a)), hstack((a, 1)))), semidefinite_cone)]
    elif which == 9:
        return [equals(vstack((s, t)), vstack((1, a))), less_equals(s, b)]
    elif which == 10:
        return [less_equals(3, a), greater_equals(b, 3), greater_equals(1, s)]
    elif which == 11:
        return [less_equals(a + s, b - t)]


NCON = 12
# END


def flags(v):
    if type(v) is float or type(v) is int:
        return None
    return [v.is_convex(), v.is_concave(), v.is_affine(), v.is_nonnegative_constant(), v.is_nonpositive_constant()]


def build(op, i, j):
    e = Names()
    a, b = LEAF[i][1](e), LEAF[j][1](e)
    if op < 100:
        return e, OP[op][1](a, b)
    if op < 200:
        return e, ATOM[op - 100][1](a, b)
    return e, use(op - 200, a, b)


def classified(op, i, j):
    return flags(build(op, i, j)[1])


def optimised(op, i, j, mx):
    e, v = build(op, i, j)
    r = program(maximize(v) if mx else minimize(v), [less_equals(e.x, 2), greater_equals(e.y, 1)]).solve(True)
    return 1


def restricted(which, i, j, mx):
    e = Names()
    a, b = LEAF[i][1](e), LEAF[j][1](e)
    s, t = variable(), variable()
    cs = constrained(which, a, b, s, t)
    program(maximize(-t) if mx else minimize(t), cs).solve(True)
    return 1


def signed(which, v, w):
    """The sign a parameter declares: value first, attribute first, changed, in arrays."""
    if which == 0:
        p = parameter(attribute='nonnegative')
        p.value = v
    elif which == 1:
        p = parameter()
        p.value = v
        p.attribute = 'nonnegative'
    elif which == 2:
        p = parameter(attribute='nonpositive')
        p.value = v
    elif which == 3:
        p = parameter()
        p.value = v
        p.attribute = 'nonpositive'
    elif which == 4:
        p = parameter(attribute='nonnegative')
        p.value = w
        p.attribute = 'nonpositive'
        p.value = v
    elif which == 5:
        P = parameter(2, 1, attribute='nonnegative')
        P[1, 0].value = v
        p = P[1, 0]
    elif which == 6:
        P = parameter(2, 1)
        P.value = matrix([[w], [v]])
        p = P[1, 0]
    elif which == 7:
        P = parameter(2, 1, attribute='nonpositive')
        P.value = matrix([[-1.], [v]])
        p = P[1, 0]
    elif which == 8:
        p = cvxpy_obj('constant', v, 'c')
    elif which == 9:
        p = parameter(attribute='nonnegative')
        p.value = v
        p.attribute = None
    return p.value, p.is_nonnegative_constant(), p.is_nonpositive_constant()
