"""P04: ping-pong framing."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P04', 'decode after encode and encode after decode of ping-pong messages reduce to the identity for parts of any length; '
             'both are compared with the frame specification on every input')
TYPES = [('initialize', (0, 1)), ('continue', (1, 2)), ('finish', (2, 1))]


def parts(h, n):
    out = [h.bytes('part%d' % j) for j in range(n)]
    for p in out:
        h.fact(padd(psub(seqlen(p), pow2(pconst(32))), ONE))
    return out


@R.ob(['vdaf_ping_pong:encode', 'vdaf_ping_pong:decode'], cases=TYPES)
def parsing_inverts_serialization(r, t, n):
    h = r.flow()
    ps = parts(h, n)
    enc = h.call('vdaf_ping_pong:encode', pconst(t), *ps)
    r.expect(h, h.outcome('vdaf_ping_pong:decode', enc).term, mk('ret', tup(pconst(t), seq('list', [U(x) for x in ps]))), 'decode(encode(type, parts)) is (type, parts)')


@R.ob(['vdaf_ping_pong:encode'], cases=TYPES)
def frame_layout(r, t, n):
    h = r.flow()
    ps = [h.bytes('part%d' % j) for j in range(n)]
    r.expect(h, h.outcome('vdaf_ping_pong:encode', pconst(t), *ps).term, h.outcome('pingpong:frame', pconst(t), *ps).term, 'frame layout')


@R.ob(['vdaf_ping_pong:decode'])
def accepted_frames(r):
    h = r.flow()
    e = h.bytes('encoded')
    r.expect(h, h.outcome('vdaf_ping_pong:decode', e).term, h.outcome('pingpong:parse', e).term, 'exactly the well-formed frames are accepted')
