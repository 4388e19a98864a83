"""P21: IDPF correctness."""
from sa.check import *
from sa.harness import *
from sa.interp import Config
from contextlib import contextmanager

LEVEL = 'proof'
R = Registry('P21', 'the sum of both parties\' evaluations of an honestly generated key reduces to the programmed vector exactly when the prefix lies on the path')
R.bounds = 'free control bits at depth up to 3; along one path and with one consistent choice of control bits at depth up to 256'


def setup(r, depth, cfg=None):
    h = r.flow(cfg)
    concrete_fields(h.p)
    n = h.int('value_len', 1)
    i = h.bare('IdpfBBCGGI21')
    h.call('IdpfBBCGGI21.__init__', i, n, pconst(depth))
    fi, fl = h.attr(i, 'field_inner'), h.attr(i, 'field_leaf')
    inner = h.list(seq('list', [U(h.symlist('inner%d' % k, 'felt', length=n, field=fi)) for k in range(depth - 1)]))
    leaf = h.symlist('leaf', 'felt', length=n, field=fl)
    nonce, rand = h.bytes('nonce', h.attr(i, 'NONCE_SIZE')), h.bytes('rand', h.attr(i, 'RAND_SIZE'))
    return h, i, inner, leaf, h.bytes('ctx'), nonce, rand


def bits(n, k):
    """The n bits of k, most significant first."""
    return seq('tuple', [U(TRUE if k >> (n - 1 - j) & 1 else FALSE) for j in range(n)])


def shown(n, k):
    return format(k, '0%db' % n)


CASES = [('path %s, prefix %s' % (shown(d, a), shown(l, p)), (d, a, l, p)) for d in (1, 2) for a in range(2 ** d) for l in range(1, d + 1) for p in range(2 ** l)]
CASES += [('path 010, prefix %s' % shown(l, p), (3, 2, l, p)) for l, p in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3))]


@R.ob(['IdpfBBCGGI21.gen', 'IdpfBBCGGI21.eval'], cases=CASES)
def shares_add_up(r, depth, a, n, p):
    h, i, inner, leaf, ctx, nonce, rand = setup(r, depth)
    alpha, pre = bits(depth, a), tup(bits(n, p))
    got = h.outcome('idpf:combined', i, alpha, inner, leaf, ctx, nonce, rand, pconst(n - 1), pre)
    want = h.outcome('idpf:programmed', i, alpha, inner, leaf, pconst(n - 1), pre)
    r.expect(h, got.term, want.term, 'sum of the shares is the programmed value')


@R.ob(['IdpfBBCGGI21.eval'])
def party_and_level(r):
    h = r.flow()
    concrete_fields(h.p)
    i = h.bare('IdpfBBCGGI21')
    h.call('IdpfBBCGGI21.__init__', i, h.int('value_len', 1), h.int('bits', 1))
    agg, level = h.int('agg_id'), h.int('level')
    pre = tup()
    got = h.outcome('idpf:eval_accepts', i, agg, sym('public_share', ('list', 'any')), h.bytes('key', pconst(16)), level, pre, h.bytes('ctx'), h.bytes('nonce', pconst(16)))
    r.expect(h, got.term, h.outcome('idpf:eval_accepted', i, agg, level, pre).term, 'exactly the known parties and levels are accepted')


def word(h, i, n, k, field):
    return tup(h.bytes('seed_cw%d' % k, h.attr(i, 'KEY_SIZE')), tup(wrap(sym('left%d' % k, 'bool')), wrap(sym('right%d' % k, 'bool'))),
               h.symlist('payload%d' % k, 'felt', length=n, field=field))


@R.ob(['IdpfBBCGGI21.eval'], cases=[('level %d, party %d, %d prefixes' % (l, a, k), (l, a, k)) for l in (0, 1) for a in (0, 1) for k in (2, 3)])
def prefixes_accepted(r, level, party, k):
    h, i, inner, leaf, ctx, nonce, rand = setup(r, 2)
    n = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(word(h, i, n, 0, h.attr(i, 'field_inner'))), U(word(h, i, n, 1, h.attr(i, 'field_leaf')))]))
    pre = tup(*[wrap(sym('prefix%d' % j, ('tuple', 'bool'))) for j in range(k)])
    got = h.outcome('idpf:eval_accepts', i, pconst(party), pub, h.bytes('key', pconst(16)), pconst(level), pre, ctx, nonce)
    r.expect(h, got.term, h.outcome('idpf:eval_accepted', i, pconst(party), pconst(level), pre).term, 'exactly distinct prefixes of the right length are accepted')


@R.ob(['IdpfBBCGGI21.gen'], cases=[('depth 1', (1,)), ('depth 2', (2,))])
def generation_inputs(r, depth):
    h = r.flow()
    concrete_fields(h.p)
    n = h.int('value_len', 1)
    i = h.bare('IdpfBBCGGI21')
    h.call('IdpfBBCGGI21.__init__', i, n, pconst(depth))
    fi, fl = h.attr(i, 'field_inner'), h.attr(i, 'field_leaf')
    inner = h.list(seq('list', [U(h.symlist('inner%d' % k, 'felt', field=fi)) for k in range(depth - 1)]))
    args = [wrap(sym('alpha', ('tuple', 'bool'))), inner, h.symlist('leaf', 'felt', field=fl), h.bytes('ctx'), h.bytes('nonce'), h.bytes('rand')]
    r.expect(h, h.outcome('idpf:gen_accepts', i, *args).term, h.outcome('idpf:gen_accepted', i, *args).term, 'exactly well-sized inputs are accepted')


@R.ob(['IdpfBBCGGI21.gen'], cases=[('too few', (1,)), ('too many', (3,))])
def number_of_inner_values(r, k):
    h, i, inner, leaf, ctx, nonce, rand = setup(r, 2)
    inner = h.list(seq('list', [U(h.symlist('inner%d' % k, 'felt', length=h.attr(i, 'VALUE_LEN'), field=h.attr(i, 'field_inner'))) for k in range(k - 1)]))
    args = [bits(2, 1), inner, leaf, ctx, nonce, rand]
    r.expect(h, h.outcome('idpf:gen_accepts', i, *args).term, h.outcome('idpf:gen_accepted', i, *args).term, 'refused')


@R.ob(['IdpfBBCGGI21.eval'], cases=[('depth %d, prefix %s, party %d' % (d, shown(l + 1, p), a), (d, l, p, a)) for d in (1, 2, 3) for l in range(d) for p in range(2 ** (l + 1))
                                    for a in (0, 1) if l < 2 or p in (2, 5)])
def one_party(r, depth, level, p, party):
    """Arbitrary public share and key."""
    h, i, inner, leaf, ctx, nonce, rand = setup(r, depth)
    n = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(word(h, i, n, k, h.attr(i, 'field_inner' if k < depth - 1 else 'field_leaf'))) for k in range(depth)]))
    key, pre = h.bytes('key', pconst(16)), bits(level + 1, p)
    got = h.outcome((i, 'eval'), pconst(party), pub, key, pconst(level), tup(pre), ctx, nonce).term
    r.expect(h, got, h.outcome('idpf:walk', i, pconst(party), pub, key, pconst(level), pre, ctx, nonce).term, 'walk along the prefix')


LISTS = [(2, 1, (0, 1)), (2, 1, (1, 0)), (2, 2, (0, 1, 2, 3)), (2, 2, (3, 1, 2, 0)), (2, 2, (2, 1)), (3, 1, (0, 1)), (3, 2, (1, 3, 2)), (3, 3, (1, 6)), (3, 3, (2, 3, 7))]
AGAIN = [(2, 2, (1, 1)), (2, 2, (1, 2, 1)), (2, 2, (0, 1, 2, 0)), (2, 2, (3, 1, 2, 3)), (3, 3, (5, 0, 1, 2, 3, 5)), (3, 2, (0, 1, 2, 3, 1))]


def listed(n, ps):
    return ' '.join(shown(n, p) for p in ps)


@R.ob(['IdpfBBCGGI21.eval'], cases=[('depth %d, prefixes %s, party %d' % (d, listed(l, ps), a), (d, l, ps, a)) for d, l, ps in LISTS + AGAIN for a in ((0, 1) if d < 3 or len(set(ps)) < len(ps) else (0,))])
def several_prefixes(r, depth, n, ps, party):
    """Arbitrary public share and key: each prefix is evaluated on its own, repeated ones are refused."""
    h, i, inner, leaf, ctx, nonce, rand = setup(r, depth)
    k = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(word(h, i, k, j, h.attr(i, 'field_inner' if j < depth - 1 else 'field_leaf'))) for j in range(depth)]))
    key, pre = h.bytes('key', pconst(16)), tup(*[bits(n, p) for p in ps])
    got = h.outcome((i, 'eval'), pconst(party), pub, key, pconst(n - 1), pre, ctx, nonce).term
    r.expect(h, got, h.outcome('idpf:walks', i, pconst(party), pub, key, pconst(n - 1), pre, ctx, nonce).term, 'walk along each prefix')


@R.ob(['IdpfBBCGGI21.eval'], cases=[('depth %d, level %d, party %d' % (d, l, a), (d, l, a)) for d, l, parties in ((1, 0, (0, 1)), (2, 0, (0, 1)), (2, 1, (0,))) for a in parties])
def any_number_of_prefixes(r, depth, level, party):
    """Arbitrary public share, key and number of (distinct) prefixes."""
    h, i, inner, leaf, ctx, nonce, rand = setup(r, depth)
    k = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(word(h, i, k, j, h.attr(i, 'field_inner' if j < depth - 1 else 'field_leaf'))) for j in range(depth)]))
    count = h.int('count')
    pre = h.call('idpf:prefixes', *[h.symlist('bit%d' % j, 'bool', length=count) for j in range(level + 1)])
    args = (pconst(party), pub, h.bytes('key', pconst(16)), pconst(level), pre, ctx, nonce)
    r.expect(h, h.deep(h.call((i, 'eval'), *args)), h.deep(h.call('idpf:each_walk', i, *args)), 'walk along each prefix')


@contextmanager
def fixed_control_bits():
    """The lowest bit of each XOF output byte is one consistently chosen constant, so that long paths stay free of case distinctions."""
    TM.PARITY.append('xbytes')
    try:
        yield
    finally:
        TM.PARITY.clear()


PATH = 0xb38fe5174d20c6a95e3b7f18d6429c05a7e81f3c6b9d2048f5137ace960b4d82


def path(depth):
    return PATH >> 256 - depth


@R.ob(['IdpfBBCGGI21.gen'], cases=[('depth %d' % d, (d,)) for d in (2, 3, 8, 17, 33, 64, 128)])
def generated_share(r, depth):
    with fixed_control_bits():
        h, i, inner, leaf, ctx, nonce, rand = setup(r, depth, Config(unroll=300))
        args = (bits(depth, path(depth)), inner, leaf, ctx, nonce, rand)
        r.expect(h, h.outcome((i, 'gen'), *args).term, h.outcome('idpf:generate', i, *args).term, 'correction words of every level and keys')


LONG = [(d, l, k) for d, ls in ((5, (3, 4)), (9, (5, 8)), (17, (9, 15, 16)), (40, (20, 39)), (72, (40, 70, 71)), (128, (127,)), (256, (255,))) for l in ls
        for k in ('on the path', 'off at the end', 'off at the start', 'off in the middle') if k == 'on the path' or d < 60 or l == 71 and k == 'off in the middle']


@R.ob(['IdpfBBCGGI21.gen', 'IdpfBBCGGI21.eval'], cases=[('depth %d, level %d, %s' % c, c) for c in LONG])
def long_paths(r, depth, level, kind):
    with fixed_control_bits():
        h, i, inner, leaf, ctx, nonce, rand = setup(r, depth, Config(unroll=300))
        a = path(depth)
        p = a >> depth - level - 1
        p ^= {'on the path': 0, 'off at the end': 1, 'off at the start': 1 << level, 'off in the middle': 1 << level // 2}[kind]
        alpha, pre = bits(depth, a), tup(bits(level + 1, p))
        got = h.outcome('idpf:combined', i, alpha, inner, leaf, ctx, nonce, rand, pconst(level), pre)
        want = h.outcome('idpf:programmed', i, alpha, inner, leaf, pconst(level), pre)
        r.expect(h, got.term, want.term, 'sum of the shares is the programmed value')


@R.ob(['IdpfBBCGGI21.gen', 'IdpfBBCGGI21.eval'], cases=[('depth %d, level %d' % c, c) for c in ((5, 4), (9, 8), (17, 12), (40, 39))])
def long_lists(r, depth, level):
    """A list of many prefixes, one of them on the path."""
    with fixed_control_bits():
        h, i, inner, leaf, ctx, nonce, rand = setup(r, depth, Config(unroll=300))
        p = path(depth) >> depth - level - 1
        ps = [p ^ x for x in (3, 2, 1 << level, 0, 1, 5 << level - 2, 7, 1 << level // 2)]
        alpha, pre = bits(depth, path(depth)), tup(*[bits(level + 1, q) for q in ps])
        got = h.outcome('idpf:combined', i, alpha, inner, leaf, ctx, nonce, rand, pconst(level), pre)
        want = h.outcome('idpf:programmed', i, alpha, inner, leaf, pconst(level), pre)
        r.expect(h, got.term, want.term, 'sums of the shares are the programmed values')
