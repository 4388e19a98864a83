"""P17: what the circuits check."""
from sa.check import *
from sa.circuits import *

LEVEL = 'proof'
R = Registry('P17', 'the circuit output reduces to one weighted bit check per element plus the sum or weight check, for all parameters')
CIRCUITS = [(c, (c,)) for c in ('Count', 'Sum', 'Histogram', 'SumVec', 'MultihotCountVec')]


@R.ob(['Count.eval', 'Sum.eval', 'Histogram.eval', 'SumVec.eval', 'MultihotCountVec.eval'], cases=CIRCUITS)
def constraints(r, name):
    h, F, v, *par = circuit(r, name)
    meas = h.symlist('meas', 'felt', length=h.attr(v, 'MEAS_LEN'), field=F)
    joint = h.symlist('joint_rand', 'felt', length=h.attr(v, 'JOINT_RAND_LEN'), field=F)
    shares = h.int('num_shares', 1, 256)
    got = h.outcome((v, 'eval'), meas, joint, shares).term
    r.expect(h, got, h.outcome('circuits:%s_eval' % name.lower(), F, meas, joint, shares, *par).term, 'circuit output')
