"""Functions that leave something behind or hand out internal data."""
import functools
import time
import os
import random
import numpy as np
TBL = np.array([1., 2., 3.])
LST = [1, 2, 3]
DCT = {'a': 1, 'n': {'b': 2}}
_cache = {}
CNT = 0
_state = {'last': None}
def _deco(f):
    memo = {}
    @functools.wraps(f)
    def g(x):
        if 'k' not in memo:
            memo['k'] = f(x)
        return memo['k']
    return g


def r_table(x): return TBL
def r_view(x): return TBL[1:]
def r_rev(x): return TBL[::-1]
def r_asarray(x): return np.asarray(TBL)
def r_tuple(x): return (TBL, 1)
def r_list(x): return LST
def r_dict(x): return DCT
def r_nested(x): return dict(DCT)
def r_nested2(x): return DCT['n']
def r_cond(x): return TBL if x.size > 3 else TBL.copy()
def r_indict(x): return {'v': TBL}
def r_flip(x): return np.flip(TBL)
def r_reshape(x): return TBL.reshape(3, 1)
def r_atleast(x): return np.atleast_1d(TBL)
def w_table(x): TBL[0] = 5
def w_memo(x):
    _cache['k'] = x + 1
    return x
def w_global(x):
    global CNT
    CNT += 1
    return x
def w_default(x, acc=[]):
    acc.append(1)
    return x
def w_default2(x, acc={}):
    acc['k'] = 1
    return x
def w_fattr(x):
    w_fattr.count = 1
    return x
def w_state(x):
    _state['last'] = 1
    return x
def w_iadd(x):
    t = TBL
    t += 1
    return x
def w_sort(x):
    return LST.sort()
def w_update(x):
    o = dict(DCT)
    o['n'].update(q=1)
    return x
def w_pop(x): DCT.pop('a')
@functools.lru_cache(maxsize=None)
def c_cached(n): return np.zeros(3)
def r_cached(x): return c_cached(3)
@functools.lru_cache
def c_cached2(n): return [1, 2]
def r_cached2(x):
    y = c_cached2(3)
    y.append(1)
    return len(y)
@functools.cache
def r_cached3(x): return {'a': 1}
@_deco
def r_deco(x): return x + 1
def i_time(x): return x * time.time()
def i_rand(x): return x + np.random.rand()
def i_rand2(x): return x + random.random()
def i_env(x): return os.environ.get('A')
def i_env2(x): return os.getenv('A', 1)
def i_file(x):
    with open('/tmp/x') as f:
        return f.read()
def i_rng(x): return x + np.random.default_rng().normal()
def i_seeded(x): return x + np.random.randn(3)
def i_exists(x): return 1 if os.path.exists('/tmp/q') else 2
def m_attr(x):
    np.my_attr = 1
    return x
def w_globals(x):
    globals()['CNT'] = 4
    return x
