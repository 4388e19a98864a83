"""P01: Prio3 codecs."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P01', 'decode after encode and encode after decode of every Prio3 message reduce to the identity in the value-flow normal form, '
             'for any proof system, field, XOF, number of shares and number of proofs')

JOINT = [('joint randomness', (1,)), ('no joint randomness', (0,))]


def setup(r, joint):
    h = r.flow()
    v, flp = prio3_obj(h, joint)
    b = sym('flp' if joint else 'flp0', ('obj', 'Flp'))
    F = flp_field(b)
    proofs = h.attr(v, 'PROOFS')
    seed = h.attr(h.attr(v, 'xof'), 'SEED_SIZE')
    return h, v, b, F, proofs, seed


def messages(h, v, b, F, proofs, seed, joint):
    """name -> (well-formed value, extra decoder arguments)."""
    vec = lambda n, l: h.symlist(n, 'felt', length=l, field=F)
    sd = lambda n: h.bytes(n, seed) if joint else NONE
    A = lambda n: TM.attr_int(b, n)
    state = tup(vec('st_out', A('OUTPUT_LEN')), sd('st_seed'))
    if joint:
        parts = sym('parts', ('list', 'bytes'))
        LEN[parts] = h.attr(v, 'SHARES')
        TM.ITEM_LEN[parts] = seed
        ELEM_LEN[parts] = seed
        pub = h.list(wrap(parts))
    else:
        pub = NONE
    return {
        'agg_param': (NONE, (), ()),
        'public_share': (pub, (), ()),
        'leader input_share': (tup(vec('meas', A('MEAS_LEN')), vec('proofs', pmul(A('PROOF_LEN'), proofs)), sd('blind')), (ZERO,), ()),
        'helper input_share': (tup(h.bytes('share', seed), sd('blind')), (h.int('agg_id', 1, h.attr(v, 'SHARES')),), ()),
        'verifier_share': (tup(vec('verifiers', pmul(A('VERIFIER_LEN'), proofs)), sd('part')), (state,), ()),
        'verifier_message': (sd('seed'), (state,), ()),
        'out_share': (vec('out', A('OUTPUT_LEN')), (NONE,), ()),
        'agg_share': (vec('agg', A('OUTPUT_LEN')), (NONE,), ()),
    }


NAMES = ['agg_param', 'public_share', 'leader input_share', 'helper input_share', 'verifier_share', 'verifier_message', 'out_share', 'agg_share']


def reg():
    for nm in NAMES:
        m = nm.split()[-1]
        for label, (joint,) in JOINT:
            R.ob(['Prio3.encode_' + m, 'Prio3.decode_' + m], name='%s: decoding inverts encoding' % nm, cases=[(label, (nm, m, joint))])(forward)
            R.ob(['Prio3.encode_' + m, 'Prio3.decode_' + m], name='%s: accepted bytes are the encoding' % nm, cases=[(label, (nm, m, joint))])(backward)


def forward(r, nm, m, joint):
    h, v, b, F, proofs, seed = setup(r, joint)
    val, dargs, _ = messages(h, v, b, F, proofs, seed, joint)[nm]
    got = h.outcome('codecs:there_and_back', h.attr(v, 'encode_' + m), h.attr(v, 'decode_' + m), val, *dargs)
    r.expect(h, got.term, mk('ret', h.deep(val)), 'decode_%s(encode_%s(x)) is x' % (m, m))


def backward(r, nm, m, joint):
    h, v, b, F, proofs, seed = setup(r, joint)
    val, dargs, _ = messages(h, v, b, F, proofs, seed, joint)[nm]
    enc = h.bytes('enc')
    x = h.call((v, 'decode_' + m), *dargs, enc)
    r.expect(h, h.outcome((v, 'encode_' + m), x).term, mk('ret', enc), 'encode_%s(decode_%s(b)) is b for every accepted b' % (m, m))


reg()
