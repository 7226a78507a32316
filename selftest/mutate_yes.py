"""Functions that modify what they are given: each must produce a write event with caller origin."""
import numpy as np
import copy
import operator
import functools
import itertools
import heapq
import bisect
import random
import scipy.linalg
from numpy import asarray


def a_setitem(x, l, d): x[0] = 1
def a_slice(x, l, d): x[:] = 0
def a_iadd(x, l, d): x += 1
def a_imul(x, l, d):
    y = x
    y *= 2
def a_asarray(x, l, d):
    y = np.asarray(x)
    y[0] = 3
def a_asarray_dtype(x, l, d):
    y = np.asarray(x, dtype=np.float64, order='C')
    y[0] = 3
def a_array_copy_false(x, l, d):
    y = np.array(x, copy=False)
    y[0] = 1
def a_array_copy_none(x, l, d):
    y = np.array(x, copy=None)
    y[0] = 1
def a_astype(x, l, d):
    y = x.astype(float, copy=False)
    y[0] = 1
def a_reshape(x, l, d): x.reshape(-1, 1)[0] = 1
def a_npreshape(x, l, d): np.reshape(x, (-1, 1))[0] = 1
def a_ravel(x, l, d): x.ravel()[0] = 1
def a_npravel(x, l, d): np.ravel(x)[0] = 1
def a_T(x, l, d): x.T[0] = 1
def a_transpose(x, l, d): np.transpose(x)[0] = 1
def a_flat(x, l, d): x.flat[0] = 1
def a_atleast1(x, l, d):
    y = np.atleast_1d(x)
    y[0] = 2
def a_atleast2(x, l, d):
    y = np.atleast_2d(x)
    y[0, 0] = 2
def a_squeeze(x, l, d):
    y = np.squeeze(x)
    y[0] = 2
def a_real(x, l, d): x.real[0] = 1
def a_slice_view(x, l, d):
    y = x[1:]
    y[0] = 1
def a_rev_view(x, l, d):
    y = x[::-1]
    y += 1
def a_sort(x, l, d): x.sort()
def a_fill(x, l, d): x.fill(0)
def a_resize(x, l, d): x.resize((3,))
def a_partition(x, l, d): x.partition(1)
def a_put(x, l, d): np.put(x, [0], [1])
def a_mput(x, l, d): x.put([0], [1])
def a_place(x, l, d): np.place(x, x > 0, [1])
def a_putmask(x, l, d): np.putmask(x, x > 0, 1)
def a_copyto(x, l, d): np.copyto(x, 0)
def a_out(x, l, d): np.multiply(x, 2, out=x)
def a_outpos(x, l, d): np.multiply(x, 2, x)
def a_abs_out(x, l, d): np.abs(x, out=x)
def a_cumsum_out(x, l, d): np.cumsum(x, out=x)
def a_clip_out(x, l, d): np.clip(x, 0, 1, out=x)
def a_clip_m(x, l, d): x.clip(0, 1, out=x)
def a_nan(x, l, d): np.nan_to_num(x, copy=False)
def a_addat(x, l, d): np.add.at(x, [0], 1)
def a_shuffle(x, l, d): np.random.shuffle(x)
def a_shape(x, l, d): x.shape = (1, -1)
def a_mask(x, l, d): x[x < 0] = 0
def a_where_idx(x, l, d): x[np.where(x < 0)] = 0
def a_for(x, l, d):
    for i in range(len(x)):
        x[i] = -x[i]
def a_while(x, l, d):
    i = 0
    while i < len(x):
        x[i] = 0
        i += 1
def a_setitem_m(x, l, d): x.__setitem__(0, 1)
def a_operator(x, l, d): operator.setitem(x, 0, 1)
def a_iopfn(x, l, d): operator.iadd(x, 1)
def a_inv_overwrite(x, l, d): scipy.linalg.inv(x, overwrite_a=True)
def a_np_sort_method(x, l, d): np.ndarray.sort(x)
def a_helper(x, l, d): _h(x)
def _h(z): z[0] = 1
def a_lambda(x, l, d): (lambda z: z.sort())(x)
def a_nested(x, l, d):
    def g():
        x[0] = 1
    g()
def a_try(x, l, d):
    try:
        y = np.asarray(x, dtype=float)
        y[0] = 1
    except ValueError:
        pass
def a_raise(x, l, d):
    x[0] = 1
    raise ValueError
def a_cond(x, l, d):
    y = x if len(x) > 3 else x.copy()
    y[0] = 1
def a_ifalias(x, l, d):
    if len(x) > 5:
        y = x
    else:
        y = np.zeros(5)
    y[0] = 1
def a_tuple(x, l, d):
    a, b = (x, 1)
    a[0] = b
def a_starred(x, l, d):
    a = [x, l]
    a[0][0] = 1
def a_zip(x, l, d):
    for y in (x, x):
        y[0] = 1
def a_fromlist(x, l, d):
    q = {'v': x}
    q['v'][0] = 1
def a_default(x, l, d):
    y = d.get('nokey', x)
    y[0] = 1
def a_partial(x, l, d): functools.partial(_h, x)()
def a_map(x, l, d): list(map(_h, [x]))
def a_comp(x, l, d): [_h(y) for y in (x,)]
def a_vs(x, l, d):
    y = np.real_if_close(x)
    y[0] = 1
def a_ascont(x, l, d):
    y = np.ascontiguousarray(x)
    y[0] = 1
def a_asfarray(x, l, d):
    y = np.asanyarray(x)
    y[0] = 1
def a_require(x, l, d):
    y = np.require(x, float)
    y[0] = 1
def a_rollaxis(x, l, d):
    y = np.rollaxis(x, 0)
    y[0] = 1
def a_swap(x, l, d):
    y = np.swapaxes(x, 0, 0)
    y[0] = 1
def a_view(x, l, d):
    y = x.view()
    y[0] = 1
def a_flip(x, l, d): np.flipud(x)[0] = 1
def a_flip2(x, l, d): np.flip(x)[0] = 1
def a_split(x, l, d): np.split(x, 2)[0][0] = 1
def a_broadcast(x, l, d): np.broadcast_arrays(x, 1)[0][0] = 1
def a_nditer(x, l, d):
    for v in np.nditer(x, op_flags=['readwrite']):
        v[...] = 1
def a_expand(x, l, d): np.expand_dims(x, 0)[0] = 1
def a_newaxis(x, l, d): x[:, np.newaxis][0] = 1
def a_diag(x, l, d): np.fill_diagonal(x, 0)
def l_append(x, l, d): l.append(1)
def l_iadd(x, l, d): l += [1]
def l_imul(x, l, d): l *= 2
def l_sort(x, l, d): l.sort()
def l_sortu(x, l, d): list.sort(l)
def l_reverse(x, l, d): l.reverse()
def l_del(x, l, d): del l[0]
def l_pop(x, l, d): l.pop()
def l_insert(x, l, d): l.insert(0, 1)
def l_extend(x, l, d): l.extend([1])
def l_slice(x, l, d): l[:] = []
def l_set(x, l, d): l[0] = 1
def l_remove(x, l, d): l.remove(1)
def l_clear(x, l, d): l.clear()
def l_heap(x, l, d): heapq.heapify(l)
def l_insort(x, l, d): bisect.insort(l, 1)
def l_shuffle(x, l, d): random.shuffle(l)
def l_alias(x, l, d):
    m = l
    m.append(2)
def d_set(x, l, d): d['a'] = 1
def d_del(x, l, d): del d['k']
def d_pop(x, l, d): d.pop('k')
def d_popd(x, l, d): d.pop('zz', None)
def d_popitem(x, l, d): d.popitem()
def d_update(x, l, d): d.update(a=1)
def d_update2(x, l, d): d.update({'a': 1})
def d_setdefault(x, l, d): d.setdefault('q', 1)
def d_clear(x, l, d): d.clear()
def d_ior(x, l, d): d |= {'a': 1}
def d_nested(x, l, d): d['n']['z'] = 1
def d_nested_pop(x, l, d): d['n'].pop('e')
def d_nested_get(x, l, d): d.get('n').update(a=1)
def d_shallow(x, l, d):
    e = dict(d)
    e['n']['z'] = 1
def d_shallow2(x, l, d):
    e = d.copy()
    e['n']['z'] = 1
def d_shallow3(x, l, d):
    e = copy.copy(d)
    e['n'].clear()
def d_shallow4(x, l, d):
    e = {**d}
    e['n']['z'] = 1
def d_values(x, l, d):
    for k, v in d.items():
        if k == 'n':
            v['a'] = 1
def d_values2(x, l, d):
    for v in d.values():
        if isinstance(v, dict):
            v.clear()
def d_kw(x, l, d): _kw(**d)
def _kw(**o): o['n']['z'] = 1
def d_merge(x, l, d):
    m = {}
    m.update(d)
    m['n']['z'] = 2
def d_opts(x, l, d):
    m = {k: d[k] for k in d}
    m['n']['z'] = 2
def d_delsub(x, l, d):
    del d['n']['e']
def a_asarray_cplx(x, l, d):
    y = np.asarray(x, dtype=complex)
    y[0] = 1
