"""P18: encoding of measurements."""
from sa.check import *
from sa.harness import *
from sa.circuits import *

LEVEL = 'proof'
R = Registry('P18', 'encode, truncate and decode of every circuit equal their specification for all parameters, and their composition reduces to the contribution of '
             'the measurement')


@R.ob(['Count.encode'])
def count_encode(r):
    h, F, v = circuit(r, 'Count')
    m = h.int('m')
    r.expect(h, h.outcome((v, 'encode'), m).term, h.outcome('circuits:count_encode', F, m).term, 'encoding')


@R.ob(['Sum.encode'])
def sum_encode(r):
    h, F, v, mx = circuit(r, 'Sum')
    m = h.int('m')
    r.expect(h, h.outcome((v, 'encode'), m).term, h.outcome('circuits:encode_int', F, m, mx).term, 'encoding')


@R.ob(['Histogram.encode'])
def histogram_encode(r):
    h, F, v, n, chunk = circuit(r, 'Histogram')
    m = h.int('m')
    r.expect(h, h.outcome((v, 'encode'), m).term, h.outcome('circuits:histogram_encode', F, n, m).term, 'encoding')


@R.ob(['SumVec.encode'])
def sumvec_encode(r):
    h, F, v, n, mx, chunk = circuit(r, 'SumVec')
    m = h.symlist('m', 'int')
    r.expect(h, h.outcome((v, 'encode'), m).term, h.outcome('circuits:sum_vec_encode', F, n, mx, m).term, 'encoding')


@R.ob(['MultihotCountVec.encode'])
def multihot_encode(r):
    h, F, v, n, mx, chunk = circuit(r, 'MultihotCountVec')
    m = h.symlist('m', 'bool')
    r.expect(h, h.outcome((v, 'encode'), m).term, h.outcome('circuits:multihot_encode', F, n, mx, m).term, 'encoding')


@R.ob(['MultihotCountVec.encode'])
def multihot_encode_refuses_other_integers(r):
    h, F, v, n, mx, chunk = circuit(r, 'MultihotCountVec')
    m = h.symlist('m', 'int')
    o = h.outcome((v, 'encode'), m)
    r.expect(h, ite(h.call('circuits:other_integer', m), o.term, RAISE), RAISE, 'an entry other than zero and one is refused')


CIRCUITS = [(c, (c,)) for c in ('Count', 'Sum', 'Histogram', 'SumVec', 'MultihotCountVec')]


@R.ob(['Count.truncate', 'Sum.truncate', 'Histogram.truncate', 'SumVec.truncate', 'MultihotCountVec.truncate'], cases=CIRCUITS)
def truncation(r, name):
    h, F, v, *par = circuit(r, name)
    meas = h.symlist('meas', 'felt', length=h.attr(v, 'MEAS_LEN'), field=F)
    r.expect(h, h.outcome((v, 'truncate'), meas).term, h.outcome('circuits:%s_truncate' % name.lower(), F, meas, *par).term, 'truncation')


@R.ob(['Count.decode', 'Sum.decode', 'Histogram.decode', 'SumVec.decode', 'MultihotCountVec.decode'], cases=CIRCUITS)
def decoding(r, name):
    h, F, v, *par = circuit(r, name)
    out = h.symlist('output', 'felt', length=h.attr(v, 'OUTPUT_LEN'), field=F)
    want = h.outcome('circuits:' + ('first' if name in ('Count', 'Sum') else 'counts'), out).term
    r.expect(h, h.outcome((v, 'decode'), out, h.int('num_measurements', 1)).term, want, 'decoded aggregate')


@R.ob(['Sum.encode', 'Sum.truncate', 'Sum.decode'])
def sum_contribution(r):
    h, F, v, mx = circuit(r, 'Sum')
    m = h.int('m', 0)
    h.fact(psub(m, mx))
    r.expect(h, h.outcome('circuits:contribution', v, m).term, mk('ret', m), 'encode, truncate and decode give the measurement back')


@R.ob(['Count.encode', 'Count.truncate', 'Count.decode'])
def count_contribution(r):
    h, F, v = circuit(r, 'Count')
    m = h.int('m', 0, 2)
    r.expect(h, h.outcome('circuits:contribution', v, m).term, mk('ret', m), 'encode, truncate and decode give the measurement back')


@R.ob(['Histogram.encode', 'Histogram.truncate', 'Histogram.decode'])
def histogram_contribution(r):
    h, F, v, n, chunk = circuit(r, 'Histogram')
    m = h.int('m', 0)
    h.fact(padd(psub(m, n), ONE))
    r.expect(h, h.outcome('circuits:contribution', v, m).term, h.outcome('circuits:one_hot', n, m).term, 'one in the bucket of the measurement')


@R.ob(['SumVec.encode', 'SumVec.truncate', 'SumVec.decode'])
def sumvec_contribution(r):
    h, F, v, n, mx, chunk = circuit(r, 'SumVec')
    m = h.symlist('m', 'int', length=n)
    r.expect(h, h.outcome('circuits:contribution', v, m).term, h.outcome('circuits:sum_vec_contribution', m, mx).term, 'the vector itself')


@R.ob(['MultihotCountVec.encode', 'MultihotCountVec.truncate', 'MultihotCountVec.decode'])
def multihot_contribution(r):
    h, F, v, n, mx, chunk = circuit(r, 'MultihotCountVec')
    m = h.symlist('m', 'bool', length=n)
    r.expect(h, h.outcome('circuits:contribution', v, m).term, h.outcome('circuits:multihot_contribution', m, mx).term, 'one for every true entry')
