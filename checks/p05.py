"""P05: ping-pong state machine."""
from sa.check import *
from sa.harness import *
from sa.interp import Config

LEVEL = 'proof'
R = Registry('P05', 'each ping-pong step, over an arbitrary VDAF whose methods may fail on any call, reduces to the specified transition for every '
             'inbound byte string, round and number of rounds; no exception leaves the step')
METHODS = ['verify_init', 'verify_next', 'verifier_shares_to_message', 'decode_agg_param', 'decode_public_share', 'decode_input_share',
           'encode_verifier_share', 'decode_verifier_share', 'encode_verifier_message', 'decode_verifier_message']


def party(r):
    # methods may fail with any exception: handlers of some kinds only let others escape
    C.WEAK.discard('excis')
    h = r.flow(Config(may_raise=['Vdaf.' + m for m in METHODS]))
    return h, h.obj('PingPong', 'vdaf', {'ROUNDS': h.int('rounds', 1)})


def step(r, h, name, args):
    got, want = h.outcome('pingpong:%ss' % name, *args), h.outcome('pingpong:' + name, *args)
    r.expect(h, got.term, want.term, name.replace('_', ' '))


@R.ob(['PingPong.ping_pong_leader_init'])
def leader_start(r):
    h, v = party(r)
    step(r, h, 'leader_start', [v] + [h.bytes(x) for x in ('key', 'ctx', 'agg_param', 'nonce', 'public_share', 'input_share')])


@R.ob(['PingPong.ping_pong_helper_init'])
def helper_start(r):
    h, v = party(r)
    step(r, h, 'helper_start', [v] + [h.bytes(x) for x in ('key', 'ctx', 'agg_param', 'nonce', 'public_share', 'input_share', 'inbound')])


@R.ob(['PingPong.ping_pong_leader_continued', 'PingPong.ping_pong_helper_continued'], cases=[('leader', ('leader',)), ('helper', ('helper',))])
def continuation(r, who):
    h, v = party(r)
    args = [v, h.bytes('ctx'), h.bytes('agg_param'), sym('verify_state', 'any'), h.int('verify_round', 0), h.bytes('outbound'), h.bytes('inbound')]
    step(r, h, who + '_continue', args)
