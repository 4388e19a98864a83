"""P16: circuits and truncation are affine on shares."""
from sa.check import *
from sa.circuits import *

LEVEL = 'proof'
R = Registry('P16', 'with gadget outputs as free values, the sum over any number of shares of the circuit output and of every gadget input reduces to what '
             'the sums of the shares give unshared; the same for truncation')
CIRCUITS = [(c, (c,)) for c in ('Count', 'Sum', 'Histogram', 'SumVec', 'MultihotCountVec')]


def shares_of(h, name, n, length, F):
    s = sym(name, ('list', ('list', 'felt')))
    LEN[s] = n
    TM.ELEM_LEN[s] = length
    FIELD[s] = F
    return wrap(s)


@R.ob(['Count.eval', 'Sum.eval', 'Histogram.eval', 'SumVec.eval', 'MultihotCountVec.eval'], cases=CIRCUITS)
def affine(r, name):
    h, F, v, *par = circuit(r, name)
    n = h.int('num_shares', 2, 255)
    h.fact(psub(padd(n, ONE), TM.attr_int(F, 'MODULUS')))
    calls = index(h.deep(h.attr(v, 'GADGET_CALLS')), ZERO)
    meas = shares_of(h, 'meas', n, h.attr(v, 'MEAS_LEN'), F)
    outs = shares_of(h, 'outs', n, calls, F)
    joint = h.symlist('joint_rand', 'felt', length=h.attr(v, 'JOINT_RAND_LEN'), field=F)
    got = h.outcome('gadgets:combined', F, v, meas, joint, outs, n).term
    want = h.outcome('gadgets:whole', F, v, meas, joint, outs).term
    r.expect(h, got, want, 'sum over the shares')


@R.ob(['Count.truncate', 'Sum.truncate', 'Histogram.truncate', 'SumVec.truncate', 'MultihotCountVec.truncate'], cases=CIRCUITS)
def truncation(r, name):
    h, F, v, *par = circuit(r, name)
    meas = shares_of(h, 'meas', h.int('num_shares', 2, 255), h.attr(v, 'MEAS_LEN'), F)
    got = h.outcome('gadgets:combined_truncation', F, v, meas).term
    r.expect(h, got, h.outcome('gadgets:whole_truncation', F, v, meas).term, 'sum over the shares')
