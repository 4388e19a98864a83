"""P11: the Poplar1 sketch."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P11', 'verify_init, verifier_shares_to_message and verify_next equal their specification, and the composition of both rounds for two aggregators '
             'reduces to the sketch polynomial in the programmed data, for any level and any number of prefixes')
LEVELS = [('inner level', ('inner',)), ('leaf level', ('leaf',))]


def flow(r, which, idpf=None, cfg=None):
    h = r.flow(cfg)
    v, bits = poplar1_obj(h, idpf)
    level, prefixes = poplar1_param(h, bits, which)
    F = h.attr(h.attr(v, 'idpf'), 'field_inner' if which == 'inner' else 'field_leaf')
    h.fact(psub(level, pconst(65535)))
    return h, v, bits, level, prefixes, F


def share(h, v, bits):
    inner, leaf = h.attr(h.attr(v, 'idpf'), 'field_inner'), h.attr(h.attr(v, 'idpf'), 'field_leaf')
    return tup(h.bytes('idpf_key', pconst(16)), h.bytes('corr_seed', h.attr(h.attr(v, 'xof'), 'SEED_SIZE')),
               h.symlist('corr_inner', 'felt', length=pmul(pconst(2), psub(bits, ONE)), field=inner),
               h.symlist('corr_leaf', 'felt', length=pconst(2), field=leaf))


@R.ob(['Poplar1.verify_init'], cases=[('%s, aggregator %d' % (l, j), (w, j)) for l, (w,) in LEVELS for j in (0, 1)])
def sketch_share(r, which, agg_id):
    h, got, want = sketch_flow(r, which, agg_id)
    r.expect(h, got, want, 'state and sketch share')


def sketch_flow(r, which, agg_id):
    h, v, bits, level, prefixes, F = flow(r, which, 'OpaqueIdpf')
    vals = sym('idpf_output%d' % agg_id, ('list', ('list', 'felt')))
    LEN[vals] = seqlen(prefixes)
    TM.ITEM_LEN[vals] = pconst(2)
    ELEM_LEN[vals] = pconst(2)
    TM.ITEM_FIELD[vals] = F
    h.setattr(h.attr(v, 'idpf'), 'value', h.list(wrap(vals)))
    key, ctx, nonce = h.bytes('key'), h.bytes('ctx'), h.bytes('nonce', pconst(16))
    pub = h.symlist('public', 'any', length=bits)
    sh = share(h, v, bits)
    for n, x in (('agg_id', pconst(agg_id)), ('level', level), ('public', pub), ('key', h.bytes('idpf_key', pconst(16))), ('prefixes', prefixes),
                 ('ctx', ctx), ('nonce', nonce)):
        h.setattr(h.attr(v, 'idpf'), 'want_' + n, x)
    got = h.outcome((v, 'verify_init'), key, ctx, pconst(agg_id), tup(level, prefixes), nonce, pub, sh).term
    want = h.outcome('poplar1:verify_init', v, key, ctx, pconst(agg_id), level, prefixes, nonce, pub, sh).term
    return h, got, want


@R.ob(['Poplar1.verifier_shares_to_message'], cases=LEVELS)
def message_of_a_round(r, which):
    h, v, bits, level, prefixes, F = flow(r, which)
    s = sym('shares', ('list', ('list', 'felt')))
    TM.ITEM_FIELD[s] = F
    ref = h.list(wrap(s))
    got = h.outcome((v, 'verifier_shares_to_message'), h.bytes('ctx'), tup(level, prefixes), ref).term
    r.expect(h, got, h.outcome('poplar1:combine', F, ref).term, 'combined message')


@R.ob(['Poplar1.verify_next'], cases=LEVELS)
def step_from_first_to_second_round(r, which):
    h, v, bits, level, prefixes, F = flow(r, which)
    mem = h.symlist('mem', 'felt', field=F, length=padd(pconst(3), seqlen(prefixes)))
    for msg in (NONE, h.symlist('message', 'felt', field=F)):
        got = h.outcome((v, 'verify_next'), h.bytes('ctx'), tup(seq('bytes', [U(pconst(x)) for x in b'evaluate sketch']), level, mem), msg).term
        r.expect(h, got, h.outcome('poplar1:next_evaluate', level, mem, msg).term, 'second-round share')


@R.ob(['Poplar1.verify_next'], cases=LEVELS)
def release_after_second_round(r, which):
    h, v, bits, level, prefixes, F = flow(r, which)
    mem = h.symlist('mem', 'felt', field=F, length=seqlen(prefixes))
    for msg in (NONE, h.symlist('message', 'felt', field=F)):
        got = h.outcome((v, 'verify_next'), h.bytes('ctx'), tup(seq('bytes', [U(pconst(x)) for x in b'reveal sketch']), level, mem), msg).term
        r.expect(h, got, h.outcome('poplar1:next_reveal', mem, msg).term, 'released output share')


@R.ob(['Poplar1.verify_next'], cases=LEVELS)
def every_other_step_is_refused(r, which):
    h, v, bits, level, prefixes, F = flow(r, which)
    mem = h.symlist('mem', 'felt', field=F, length=padd(pconst(3), seqlen(prefixes)))
    step = h.bytes('step')
    for msg in (NONE, h.symlist('message', 'felt', field=F)):
        got = h.outcome((v, 'verify_next'), h.bytes('ctx'), tup(step, level, mem), msg).term
        r.expect(h, got, h.outcome('poplar1:next_any', step, level, mem, msg).term, 'any step')


def honest(r, which):
    h, v, bits, level, prefixes, F = flow(r, which, 'ShareIdpf')
    n = seqlen(prefixes)
    idpf = h.attr(v, 'idpf')
    mask = sym('mask', ('list', ('list', 'felt')))
    LEN[mask] = n
    TM.ITEM_LEN[mask] = pconst(2)
    ELEM_LEN[mask] = pconst(2)
    TM.ITEM_FIELD[mask] = F
    h.setattr(idpf, 'mask', h.list(wrap(mask)))
    h.setattr(idpf, 'data', h.symlist('data', 'felt', field=F, length=n))
    args = (h.bytes('key'), h.bytes('ctx'))
    rest = (h.bytes('nonce', pconst(16)), h.bytes('rand', h.attr(v, 'RAND_SIZE')))
    m = wrap(sym('measurement', ('tuple', 'bool')))
    return h, v, args + (m,) + rest + (level, prefixes), args + rest[:1] + (level, prefixes)


@R.ob(['Poplar1.shard', 'Poplar1.verify_init', 'Poplar1.verify_next', 'Poplar1.verifier_shares_to_message'], cases=LEVELS)
def second_round_is_the_sketch_equation(r, which):
    h, v, full, short = honest(r, which)
    r.expect(h, h.outcome('poplar1:second_round_sum', v, *full).term, h.outcome('poplar1:sketch_equation', v, *short).term,
             'sum of the second-round shares is the sketch polynomial of the data')


@R.ob(['Poplar1.shard', 'Poplar1.verify_init', 'Poplar1.verify_next', 'Poplar1.verifier_shares_to_message'], cases=LEVELS)
def data_released_exactly_when_the_sketch_is_zero(r, which):
    h, v, full, short = honest(r, which)
    r.expect(h, h.outcome('poplar1:released_sum', v, *full).term, h.outcome('poplar1:expected_release', v, *short).term,
             'the data is released exactly when the sketch polynomial is zero')
