"""Functions that leave what they are given alone: none may produce a write event with caller origin."""
import numpy as np
import copy
import functools


def a_copy(x, l, d):
    y = x.copy()
    y[0] = 1
def a_nparray(x, l, d):
    y = np.array(x)
    y[0] = 1
def a_nparray_dtype(x, l, d):
    y = np.array(x, dtype=np.float64, order='C')
    y[0] = 1
def a_rebind(x, l, d):
    x = x + 1
    x += 1
    x[0] = 2
def a_sorted(x, l, d):
    y = np.sort(x)
    y[0] = 1
def a_astype(x, l, d):
    y = x.astype(float)
    y[0] = 1
def a_fancy(x, l, d):
    y = x[[0, 1]]
    y[0] = 1
def a_maskread(x, l, d):
    y = x[x > 0]
    y[0] = 1
def a_flatten(x, l, d):
    y = x.flatten()
    y[0] = 1
def a_concat(x, l, d):
    y = np.concatenate((x, x))
    y[0] = 1
def a_hstack(x, l, d):
    y = np.hstack((x, 1))
    y.sort()
def a_where(x, l, d):
    y = np.where(x > 0, x, 0)
    y[0] = 1
def a_abs(x, l, d):
    y = np.abs(x)
    y *= 2
def a_scalar(x, l, d):
    s = x[0]
    s += 1
def a_zeros_like(x, l, d):
    y = np.zeros_like(x)
    y[:] = x
def a_out_new(x, l, d):
    y = np.empty_like(x)
    np.multiply(x, 2, out=y)
def a_copyto(x, l, d):
    y = np.empty_like(x)
    np.copyto(y, x)
def a_deepcopy(x, l, d):
    y = copy.deepcopy(x)
    y[0] = 1
def a_unary(x, l, d):
    y = -x
    y[0] = 1
def a_real_copy(x, l, d):
    y = np.real(x).copy()
    y[0] = 1
def a_roll(x, l, d):
    y = np.roll(x, 1)
    y[0] = 1
def a_tile(x, l, d):
    y = np.repeat(x, 2)
    y[0] = 1
def a_loop(x, l, d):
    t = 0
    for v in x:
        v = v + 1
        t += v
    return t
def a_cond(x, l, d):
    y = x.copy() if len(x) > 3 else np.array(x)
    y[0] = 1
def l_list(x, l, d):
    m = list(l)
    m.append(1)
def l_slice(x, l, d):
    m = l[:]
    m.append(1)
def l_copy(x, l, d):
    m = l.copy()
    m.sort()
def l_sorted(x, l, d):
    m = sorted(l)
    m.append(1)
def l_add(x, l, d):
    m = l + [1]
    m.append(1)
def l_comp(x, l, d):
    m = [v for v in l]
    m[0] = 3
def l_asarray(x, l, d):
    m = np.asarray(l)
    m[0] = 1
def l_asarray2(x, l, d):
    m = np.atleast_1d(l)
    m += 1
def d_dict(x, l, d):
    e = dict(d)
    e['z'] = 1
def d_copy(x, l, d):
    e = d.copy()
    e.update(a=1)
def d_deepcopy(x, l, d):
    e = copy.deepcopy(d)
    e['n']['z'] = 1
def d_unpack(x, l, d):
    e = {**d, 'z': 1}
    e['y'] = 1
def d_kwargs(x, l, d): _kw(**d)
def _kw(**o):
    o.pop('k')
    o['u'] = 1
def d_nestedcopy(x, l, d):
    e = {k: (dict(v) if isinstance(v, dict) else v) for k, v in d.items()}
    e['n']['z'] = 1
def d_nestedcopy2(x, l, d):
    e = dict(d)
    e['n'] = dict(e['n'])
    e['n'].update(b=2)
def d_get(x, l, d):
    v = d.get('n', {}).copy()
    v['a'] = 1
