"""Functions that leave the settings as they were."""
import numpy as np
import warnings
import os
import sys
from cvxopt import solvers
import contextlib
def a_errstate(x):
    with np.errstate(divide='ignore'):
        return np.linalg.inv(x)
def a_errstate2(x):
    with np.errstate(all='ignore'):
        y = np.linalg.inv(x)
    return y
def a_finally(x):
    old = np.seterr(divide='ignore')
    try:
        return np.linalg.inv(x)
    finally:
        np.seterr(**old)
def a_finally2(x):
    old = np.geterr()
    try:
        np.seterr(all='ignore')
        y = np.linalg.inv(x)
    finally:
        np.seterr(**old)
    return y
def a_finally3(x):
    old = np.seterr(divide='ignore', invalid='ignore')
    try:
        y = np.linalg.inv(x)
    finally:
        np.seterr(divide=old['divide'], invalid=old['invalid'])
    return y
def a_except(x):
    old = np.seterr(divide='ignore')
    try:
        y = np.linalg.inv(x)
    except Exception:
        y = x
    np.seterr(**old)
    return y
def a_baseexc(x):
    old = np.seterr(divide='ignore')
    try:
        y = np.linalg.inv(x)
    except:
        np.seterr(**old)
        raise
    np.seterr(**old)
    return y
@np.errstate(divide='ignore')
def a_deco(x): return np.linalg.inv(x)
def a_loop(x):
    for i in range(3):
        with np.errstate(divide='ignore'):
            if x[i] > 0:
                continue
            if x[i] < -3:
                break
            y = np.linalg.inv(x)
    return 1
def b_catch(x):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.linalg.inv(x)
def c_print(x):
    with np.printoptions(precision=3):
        print(x)
def c_print2(x):
    o = np.get_printoptions()
    try:
        np.set_printoptions(precision=3)
        print(x)
    finally:
        np.set_printoptions(**o)
def d_rng(x): return np.random.default_rng(3).normal()
def d_rs(x): return np.random.RandomState(3).rand()
def e_cwd(x):
    d = os.getcwd()
    os.chdir('/')
    try:
        y = np.linalg.inv(x)
    finally:
        os.chdir(d)
    return y
def f_copy(x):
    o = dict(solvers.options)
    o['abstol'] = 2
    return solvers.conelp(x, options=o)
def f_save(x):
    old = dict(solvers.options)
    try:
        solvers.options['abstol'] = x
        r = solvers.conelp(x)
    finally:
        solvers.options.clear()
        solvers.options.update(old)
    return r
def f_save2(x):
    old = solvers.options.copy()
    solvers.options['abstol'] = x
    try:
        r = solvers.conelp(x)
    finally:
        solvers.options.clear()
        solvers.options.update(old)
    return r
def g_stdout(x):
    old = sys.stdout
    try:
        sys.stdout = x
        return np.linalg.inv(x)
    finally:
        sys.stdout = old
def h_nothing(x): return solvers.options['abstol']
