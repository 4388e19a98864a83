"""P23: refusal of invalid parameters and mis-sized inputs."""
from sa.check import *
from sa.circuits import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P23', 'for unconstrained integer parameters the outcome of each initialiser (refused, or the announced sizes) equals its specification; '
             'sharding with a nonce or random input of any other size has no returning path')

CIRCUITS = [('Count', ('count', ())), ('Sum', ('sum_', ('max_measurement',))), ('Histogram', ('histogram', ('length', 'chunk_length'))),
            ('SumVec', ('sumvec', ('length', 'max_measurement', 'chunk_length'))),
            ('MultihotCountVec', ('multihotcountvec', ('length', 'max_weight', 'chunk_length')))]


@R.ob(['Count.__init__', 'Sum.__init__', 'Histogram.__init__', 'SumVec.__init__', 'MultihotCountVec.__init__'], cases=CIRCUITS)
def circuits(r, name, params):
    h = r.flow()
    F = fld(h)
    par = [h.int(p) for p in params]
    r.expect(h, h.outcome('params:' + name, F, *par).term, h.outcome('params:%s_sizes' % name.strip('_'), F, *par).term, 'admissible parameters')


@R.ob(['Prio3.__init__'], cases=JOINT)
def prio3(r, joint):
    h = r.flow()
    flp = flp_obj(h, joint)
    v = h.obj('Prio3', 'prio3')
    shares, proofs = h.int('shares'), h.int('proofs')
    got = h.outcome('params:prio3_built', v, shares, flp, proofs).term
    want = h.outcome('params:prio3', shares, proofs, h.attr(h.attr(v, 'xof'), 'SEED_SIZE'), h.attr(flp, 'JOINT_RAND_LEN')).term
    r.expect(h, got, want, 'admissible parameters')


INSTANCES = [('Prio3Count', ('prio3_count', ())), ('Prio3Sum', ('prio3_sum', ('max_measurement',))),
             ('Prio3Histogram', ('prio3_histogram', ('length', 'chunk_length'))),
             ('Prio3SumVec', ('prio3_sumvec', ('length', 'max_measurement', 'chunk_length'))),
             ('Prio3MultihotCountVec', ('prio3_multihotcountvec', ('length', 'max_weight', 'chunk_length')))]


@R.ob(['Prio3Count.__init__', 'Prio3Sum.__init__', 'Prio3Histogram.__init__', 'Prio3SumVec.__init__', 'Prio3MultihotCountVec.__init__', 'Prio3.__init__'],
      cases=INSTANCES)
def instances(r, name, params):
    h = r.flow()
    concrete_fields(h.p)
    par = [h.int('shares')] + [h.int(p) for p in params]
    r.expect(h, h.outcome('params:' + name, *par).term, h.outcome('params:%s_sizes' % name, *par).term, 'admissible parameters')


@R.ob(['Prio3SumVecWithMultiproof.__init__'])
def multiproof(r):
    h = r.flow()
    F = fld(h)
    par = [h.int('shares'), F] + [h.int(p) for p in ('proofs', 'length', 'max_measurement', 'chunk_length')]
    r.expect(h, h.outcome('params:prio3_multiproof', *par).term, h.outcome('params:prio3_multiproof_sizes', *par).term, 'admissible parameters')


@R.ob(['Poplar1.__init__', 'IdpfBBCGGI21.__init__'])
def poplar1(r):
    h = r.flow()
    bits = h.int('bits')
    r.expect(h, h.outcome('params:poplar1', bits).term, h.outcome('params:poplar1_sizes', bits).term, 'admissible parameters')


@R.ob(['IdpfBBCGGI21.__init__'])
def idpf(r):
    h = r.flow()
    par = h.int('value_len'), h.int('bits')
    r.expect(h, h.outcome('params:idpf', *par).term, h.outcome('params:idpf_sizes', *par).term, 'admissible parameters')


@R.ob(['Prio3.shard'], cases=[('%s, %s' % (w, j), (w,) + a) for j, a in JOINT for w in ('nonce', 'random input')])
def prio3_inputs(r, which, joint):
    p = P3(r, joint)
    h = p.h
    ctx, m, nonce, rand = p.report()
    x = h.bytes('other')
    size = h.attr(p.v, 'NONCE_SIZE' if which == 'nonce' else 'RAND_SIZE')
    h.assume(bnot(eq0(psub(seqlen(x), size))))
    args = (ctx, m, x, rand) if which == 'nonce' else (ctx, m, nonce, x)
    r.expect(h, h.outcome((p.v, 'shard'), *args).term, RAISE, 'a %s of another size is refused' % which)


@R.ob(['Poplar1.shard'], cases=[(w, (w,)) for w in ('nonce', 'random input')])
def poplar1_inputs(r, which):
    h = r.flow()
    v, bits = poplar1_obj(h, 'ProbeIdpf')
    m = sym('measurement', ('tuple', 'bool'))
    LEN[m] = bits
    x = h.bytes('other')
    nonce, rand = h.bytes('nonce', h.attr(v, 'NONCE_SIZE')), h.bytes('rand', h.attr(v, 'RAND_SIZE'))
    h.assume(bnot(eq0(psub(seqlen(x), h.attr(v, 'NONCE_SIZE' if which == 'nonce' else 'RAND_SIZE')))))
    args = (x, rand) if which == 'nonce' else (nonce, x)
    r.expect(h, h.outcome((v, 'shard'), h.bytes('ctx'), wrap(m), *args).term, RAISE, 'a %s of another size is refused' % which)
