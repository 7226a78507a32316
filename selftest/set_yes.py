"""Functions that leave a process-wide setting changed on some exit."""
import numpy as np
import warnings
import os
import random
import sys
import cvxopt
import cvxopt.solvers
from cvxopt import solvers
from numpy import seterr
def a_seterr(x): np.seterr(all='ignore'); return np.log(x)
def a_norestore_exc(x):
    old = np.seterr(divide='ignore')
    y = np.linalg.inv(x)
    np.seterr(**old)
    return y
def a_restore_one_path(x):
    old = np.seterr(divide='ignore')
    if x[0] > 1:
        return 3
    np.seterr(**old)
    return 2
def a_restore_wrong(x):
    old = np.seterr(divide='ignore', invalid='ignore')
    try:
        y = np.linalg.inv(x)
    finally:
        np.seterr(divide=old['divide'])
    return y
def a_restore_default(x):
    np.seterr(divide='ignore')
    try:
        y = np.linalg.inv(x)
    finally:
        np.seterr(divide='warn')
    return y
def a_callback(x, f):
    old = np.geterr()
    np.seterr(divide='ignore')
    y = f(x)
    np.seterr(**old)
    return y
def a_except_only(x):
    old = np.seterr(divide='ignore')
    try:
        y = np.linalg.inv(x)
    except ValueError:
        np.seterr(**old)
        raise
    np.seterr(**old)
    return y
def b_simple(x): warnings.simplefilter('ignore'); return x
def b_filter(x): warnings.filterwarnings('ignore'); return x
def c_print(x): np.set_printoptions(precision=3); print(x)
def c_print2(x):
    np.set_printoptions(precision=3)
    print(x)
    np.set_printoptions(precision=8)
def d_seed(x): np.random.seed(0); return x
def d_rand(x): return np.random.rand(3)
def d_rseed(x): random.seed(1)
def e_chdir(x): os.chdir('/tmp')
def e_env(x): os.environ['A'] = '1'
def e_env2(x): os.environ.update(A='1')
def f_opts(x): solvers.options['show_progress'] = False
def f_opts2(x): cvxopt.solvers.options['abstol'] = 1e-3
def f_opts3(x):
    o = solvers.options
    o.update({'abstol': 1e-3})
def f_opts4(x):
    old = dict(solvers.options)
    solvers.options['abstol'] = x
    r = solvers.conelp(x)
    solvers.options.clear()
    solvers.options.update(old)
    return r
def f_clear(x): solvers.options.clear()
def g_stdout(x):
    old = sys.stdout
    sys.stdout = open('/dev/null')
    y = np.linalg.inv(x)
    sys.stdout = old
    return y
def g_rec(x): sys.setrecursionlimit(10000)
def g_attr(x): cvxopt.matrix_str = None
def g_cwd(x):
    d = os.getcwd()
    os.chdir('/')
    y = np.linalg.inv(x)
    os.chdir(d)
    return y
