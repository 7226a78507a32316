"""Functions without memory of earlier calls."""
import functools
import numpy as np
TBL = np.array([1., 2., 3.])
LST = [1, 2, 3]
DCT = {'a': 1, 'n': {'b': 2}}
TUP = (1, 2, 3)
NUM = 4.5


def r_copy(x): return TBL.copy()
def r_array(x): return np.array(TBL)
def r_fancy(x): return TBL[[0, 1]]
def r_arith(x): return TBL * 1.
def r_hstack(x): return np.hstack((TBL, TBL[0]))
def r_elem(x): return TBL[0]
def r_lelem(x): return LST[0]
def r_list(x): return list(LST)
def r_lslice(x): return LST[:]
def r_dict(x): return {k: (dict(v) if isinstance(v, dict) else v) for k, v in DCT.items()}
def r_val(x): return DCT['n']['b']
def r_tup(x): return TUP
def r_num(x): return NUM
def r_default(x, acc=(1, 2)): return acc
def r_default2(x, acc=None):
    acc = [] if acc is None else acc
    acc.append(1)
    return acc
def w_local(x):
    t = TBL.copy()
    t += 1
    return t
def w_local2(x):
    o = dict(DCT)
    o['n'] = dict(o['n'])
    o['n'].update(q=1)
    return o
@functools.lru_cache(maxsize=None)
def c_cached(n): return 3.5 * n
def r_cached(x): return c_cached(3)
@functools.lru_cache(maxsize=None)
def c_cached2(n): return np.zeros(3)
def r_cached2(x): return c_cached2(3) + x
@functools.lru_cache(maxsize=None)
def c_cached3(n): return (1, 2)
def r_cached3(x): return c_cached3(3)
def _wrap(f):
    @functools.wraps(f)
    def g(*a): return f(*a)
    return g
@_wrap
def r_wrapped(x): return x + 1
