"""Symbolic instances of the validity circuits, built by the tree's own initialisers."""
from sa.harness import *


def fld(h):
    """Any field of the tree with roots of unity."""
    F = sym('field', ('cls', 'NttField'))
    field_facts(h, F)
    return F


def bounded(h, name):
    """A maximum of at least one, with the meaning of its bit length."""
    m = h.int(name, 1)
    b = bitlen(m)
    lo, hi = pow2(psub(b, ONE)), pow2(b)
    for f in (psub(hi, pmul(pconst(2), lo)), psub(pmul(pconst(2), lo), hi), psub(lo, m), psub(padd(m, ONE), hi), psub(ONE, b)):
        h.fact(f)
    return m


def parameters(h, name):
    if name == 'Count':
        return []
    if name == 'Sum':
        return [bounded(h, 'max_measurement')]
    if name == 'Histogram':
        return [h.int('length', 1), h.int('chunk_length', 1)]
    if name == 'SumVec':
        return [h.int('length', 1), bounded(h, 'max_measurement'), h.int('chunk_length', 1)]
    return [h.int('length', 1), bounded(h, 'max_weight'), h.int('chunk_length', 1)]


def circuit(r, name, cfg=None):
    """(flow, field, instance, *parameters) for parameters in their documented range."""
    h = r.flow(cfg)
    F = fld(h)
    par = parameters(h, name)
    v = h.bare(name)
    h.call(name + '.__init__', v, F, *par)
    return (h, F, v) + tuple(par)
