"""P20: XOF streams."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P20', 'Reads of symbolic lengths from an XOF instance are normalised down to the sponge and block-cipher calls and compared with slices of one output stream '
             'over the length-prefixed input; sampling is compared with masking and rejection on scripted streams')
R.bounds = 'up to three reads per XOF, each of any length; sampling on scripts of up to four pieces'

XOFS = {'XofTurboShake128': 'turbo', 'XofFixedKeyAes128': 'fixed'}


def inputs(h, seed_len=None):
    h_seed = h.bytes('seed', seed_len)
    return h_seed, h.bytes('dst'), h.bytes('binder')


def raw(r, **kw):
    return r.flow(Config(raw_xof=True, **kw))


@R.ob(['Xof', 'Xof.next'], cases=[('%s, %d reads' % (x, k), (x, k)) for x in XOFS for k in (1, 2, 3)])
def consecutive_reads_are_consecutive_pieces(r, x, k):
    h = raw(r)
    C = mk('cls', x)
    args = inputs(h, h.attr(C, 'SEED_SIZE')) + tuple(h.int('n%d' % i, 1, 1 << 64) for i in range(k))
    r.expect(h, h.outcome('xofs:reads%d' % k, C, *args).term, h.outcome('xofs:%s%d' % (XOFS[x], k), *args).term,
             '%d reads from %s are consecutive pieces of its stream' % (k, x))


@R.ob(['Xof', 'Xof.next'], cases=[(x, (x,)) for x in XOFS])
def other_seed_sizes_are_refused_or_absorbed(r, x):
    h = raw(r)
    C = mk('cls', x)
    args = inputs(h) + (h.int('n1', 1, 1 << 64),)
    got = h.outcome('xofs:reads1', C, *args)
    want = h.outcome('xofs:%s1' % XOFS[x], *args)
    r.expect(h, got.term, ite(got.ok, want.term, RAISE), '%s refuses a seed or tag whose size it cannot absorb' % x)


def refused(r, h, x, args, what):
    got = h.outcome('xofs:reads1', mk('cls', x), *args)
    r.expect(h, ite(got.ok, mk('ret', ONE), RAISE), RAISE, what)


@R.ob(['Xof'], cases=[('short', (0, 16)), ('long', (17, None))])
def fixed_key_seed_size(r, lo, hi):
    h = raw(r)
    n = h.int('seed_len', lo, hi)
    args = inputs(h, n) + (pconst(5),)
    refused(r, h, 'XofFixedKeyAes128', args, 'XofFixedKeyAes128 refuses a seed that is not one block')


@R.ob(['Xof'])
def sponge_seed_size(r):
    h = raw(r)
    args = inputs(h, h.int('seed_len', 256)) + (pconst(5),)
    refused(r, h, 'XofTurboShake128', args, 'XofTurboShake128 refuses a seed whose length does not fit its prefix')


@R.ob(['Xof'], cases=[(x, (x,)) for x in XOFS])
def tag_size(r, x):
    h = raw(r)
    args = (h.bytes('seed', h.attr(mk('cls', x), 'SEED_SIZE')), h.bytes('dst', h.int('dst_len', 65536)), h.bytes('binder'), pconst(5))
    refused(r, h, x, args, '%s refuses a tag whose length does not fit its prefix' % x)


@R.ob(['Xof.derive_seed'], cases=[(x, (x,)) for x in XOFS])
def derived_seed(r, x):
    h = raw(r)
    C = mk('cls', x)
    args = inputs(h, h.attr(C, 'SEED_SIZE'))
    r.expect(h, h.outcome('xofs:seed_derived', C, *args).term, h.outcome('xofs:seed_derived_spec', C, *args).term,
             'derive_seed is the first SEED_SIZE bytes of the stream')


@R.ob(['Xof.expand_into_vec'], cases=[(x, (x,)) for x in XOFS])
def expanded_vector(r, x):
    h = r.flow(Config(raw_xof=True, opaque=('Xof.next_vec',)))
    C = mk('cls', x)
    F = sym('field', ('cls', 'Field'))
    args = inputs(h, h.attr(C, 'SEED_SIZE')) + (h.int('n', 1),)
    r.expect(h, h.outcome('xofs:expanded', C, F, *args).term, h.outcome('xofs:expanded_spec', C, F, *args).term,
             'expand_into_vec is the first elements sampled from the stream')


def fields(p):
    return [('any field', (None,))] + [(n, (n,)) for n in concrete_fields(p) if p.classes[n].module.name.endswith('.field')]


def field(h, name):
    if name is None:
        F = sym('field', ('cls', 'Field'))
        field_facts(h, F)
        return F
    concrete_fields(h.p)
    return mk('cls', name)


def pieces(h, F, n):
    size = h.attr(F, 'ENCODED_SIZE')
    return h.list(seq('list', [U(h.bytes('piece%d' % i, size)) for i in range(n)]))


@R.ob(['Xof.next_vec'], cases=lambda p: [('%s, %d of %d pieces' % (c, n, k), a + (n, k)) for c, a in fields(p) for n, k in ((1, 1), (1, 3), (2, 3), (3, 4))])
def sampling_masks_and_rejects(r, name, n, k):
    h = raw(r, while_bound=k + 1)
    F = field(h, name)
    args = (F, pieces(h, F, k), pconst(n))
    r.expect(h, h.outcome('xofs:sampled', *args).term, h.outcome('xofs:sampled_spec', *args).term,
             'next_vec(%d) takes the first masked pieces below the modulus and reads no further' % n)


@R.ob(['Xof.next_vec'])
def sampling_resumes(r):
    h = raw(r, while_bound=5)
    F = field(h, None)
    ps = pieces(h, F, 4)
    r.expect(h, h.outcome('xofs:sampled_twice', F, ps, pconst(1), pconst(2)).term, h.outcome('xofs:sampled_spec', F, ps, pconst(3)).term,
             'next_vec(1) and next_vec(2) return consecutive elements')


@R.ob(['Xof.next_vec'], cases=fields)
def sampling_of_any_length(r, name):
    h = raw(r)
    F = field(h, name)
    n = h.int('n', 1)
    vec = h.symlist('vec', 'felt', field=F)
    h.fact(psub(n, seqlen(h.deep(vec))))
    r.expect(h, h.outcome('xofs:passed', F, vec, n).term, h.outcome('xofs:passed_spec', F, vec, n).term,
             'next_vec(n) takes every piece that encodes a field element')
