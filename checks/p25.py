"""P25: drivers."""
from sa.check import *
from sa.harness import *
from sa.interp import Config

LEVEL = 'proof'
R = Registry('P25', 'for an arbitrary (V)DAF whose methods may fail on any call, the value of the driver reduces to the specified composition of its operations; '
             'every draw of randomness is a distinct value')
R.bounds = 'up to five aggregators, three rounds and eight measurements; with few aggregators any number of measurements'


def batch(h, n):
    return h.list(seq('list', [U(sym('m%d' % k, 'any')) for k in range(n)]))


def flow(r, cls, names, attrs):
    h = r.flow(Config(may_raise=['%s.%s' % (cls, m) for m in names]))
    return h, h.obj(cls, cls.lower(), {k: pconst(v) for k, v in attrs.items()})


def shown(shares, rounds, n):
    return '%d aggregators, %d rounds, %d measurements' % (shares, rounds, n)


@R.ob(['run_daf'], cases=[('%d aggregators, %d measurements' % (s, n), (s, n)) for s in (2, 3, 5) for n in (0, 1, 2, 3, 8)])
def daf(r, shares, n):
    h, v = flow(r, 'Daf', ['shard', 'prep', 'agg_init', 'agg_update', 'unshard'], {'SHARES': shares})
    args = [v, h.bytes('ctx'), sym('agg_param', 'any'), batch(h, n)]
    r.expect(h, h.outcome('run_daf', *args).term, h.outcome('drivers:run_daf', *args).term, 'result of the batch')


CASES = [(2, 1, 0), (2, 1, 1), (2, 1, 2), (3, 1, 3), (2, 2, 1), (2, 2, 2), (3, 2, 1), (3, 2, 2), (2, 3, 1), (3, 3, 2), (4, 1, 1), (2, 4, 1), (8, 1, 1), (2, 1, 8), (2, 2, 5), (2, 8, 1)]


@R.ob(['run_vdaf'], cases=[(shown(*c), c) for c in CASES])
def vdaf(r, shares, rounds, n):
    h, v = flow(r, 'Vdaf', ['shard', 'verify_init', 'verify_next', 'verifier_shares_to_message', 'agg_init', 'agg_update', 'unshard'],
                {'SHARES': shares, 'ROUNDS': rounds})
    args = [v, h.bytes('verify_key'), sym('agg_param', 'any'), h.bytes('ctx'), batch(h, n)]
    r.expect(h, h.outcome('run_vdaf', *args).term, h.outcome('drivers:run_vdaf', *args).term, 'result of the batch')


@R.ob(['run_daf'], cases=[('%d aggregators, any number of measurements' % s, (s,)) for s in (2, 3)])
def daf_any(r, shares):
    h, v = flow(r, 'Daf', [], {'SHARES': shares})
    args = [v, h.bytes('ctx'), sym('agg_param', 'any'), h.symlist('measurements', 'any')]
    r.expect(h, h.outcome('run_daf', *args).term, h.outcome('drivers:run_daf', *args).term, 'result of the batch if no operation fails')


@R.ob(['run_vdaf'], cases=[('%d aggregators, %d rounds, any number of measurements' % c, c) for c in ((2, 1), (2, 2), (3, 1))])
def vdaf_any(r, shares, rounds):
    h, v = flow(r, 'Vdaf', [], {'SHARES': shares, 'ROUNDS': rounds})
    args = [v, h.bytes('verify_key'), sym('agg_param', 'any'), h.bytes('ctx'), h.symlist('measurements', 'any')]
    r.expect(h, h.outcome('run_vdaf', *args).term, h.outcome('drivers:run_vdaf', *args).term, 'result of the batch if no operation fails')
