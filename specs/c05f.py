"""Documented behaviour of the superseded filter-based functions."""
import numpy as np
from pydsm.NTFdesign.merit_factors import quantization_noise_gain
from pydsm.NTFdesign.weighting import q0_weighting, ntf_fir_from_q0
from pydsm.NTFdesign.legacy import q0_from_filter_ir


def weighting(H, H_type):
    if H_type == 'imp':
        return (H, [1])
    if H_type == 'mag':
        return lambda f: H(f) ** 2
    if H_type == 'zpk' or H_type == 'ba':
        return H
    raise ValueError()


def noise_gain(NTF, H, H_type='zpk', **options):
    return quantization_noise_gain(NTF, weighting(H, H_type), **options)


def q0(P, H, H_type='zpk', **options):
    if H_type == 'imp':
        return q0_from_filter_ir(P, H)
    return q0_weighting(P, weighting(H, H_type), **options)


def synthesize(order, H, H_type='zpk', H_inf=1.5, normalize='auto', **options):
    quad = {}
    if 'quad_opts' in options:
        quad['quad_opts'] = options.pop('quad_opts')
    return ntf_fir_from_q0(q0(order, H, H_type, **quad), H_inf, normalize, **options)


def merged(options, defaults):
    """The options a function works with: its own table, overridden entry by entry."""
    out = {}
    for k in defaults:
        v = defaults[k]
        if isinstance(v, dict):
            d = dict(v)
            if k in options:
                d.update(options[k])
            out[k] = d
        else:
            out[k] = options[k] if k in options else v
    for k in options:
        if k not in defaults:
            out[k] = options[k]
    return out
