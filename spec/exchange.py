"""A ping-pong exchange between two honest parties."""
from spec.whole import prio3_expected, verified
from vdaf_poc.vdaf_ping_pong import Continued, Finished, FinishedWithOutbound, PingPong, Rejected
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.vdaf_prio3 import Prio3Count, Prio3Histogram, Prio3Sum, Prio3SumVecWithMultiproof


class PongCount(Prio3Count, PingPong):
    pass


class PongSum(Prio3Sum, PingPong):
    pass


class PongHistogram(Prio3Histogram, PingPong):
    pass


class PongSumVec(Prio3SumVecWithMultiproof, PingPong):
    pass


class PongPoplar1(Poplar1, PingPong):
    pass


def exchange(vdaf, key, agg_param, ctx, m, nonce, rand):
    """Output shares of leader and helper and the number of messages, or None if the leader rejects its own share."""
    public_share, input_shares = vdaf.shard(ctx, m, nonce, rand)
    param = vdaf.encode_agg_param(agg_param)
    public = vdaf.encode_public_share(public_share)
    leader = vdaf.ping_pong_leader_init(key, ctx, param, nonce, public, vdaf.encode_input_share(input_shares[0]))
    if isinstance(leader, Rejected):
        return None
    helper = vdaf.ping_pong_helper_init(key, ctx, param, nonce, public, vdaf.encode_input_share(input_shares[1]), leader.outbound)
    sent = 2
    for i in range(vdaf.ROUNDS):
        if i % 2 == 0:
            leader = vdaf.ping_pong_leader_continued(ctx, param, leader, helper.outbound)
            if i < vdaf.ROUNDS - 1:
                assert isinstance(leader, (Continued, FinishedWithOutbound))
                sent += 1
            else:
                assert isinstance(leader, Finished)
        else:
            helper = vdaf.ping_pong_helper_continued(ctx, param, helper, leader.outbound)
            if i < vdaf.ROUNDS - 1:
                assert isinstance(helper, (Continued, FinishedWithOutbound))
                sent += 1
            else:
                assert isinstance(helper, Finished)
    return sent, leader.out_share, helper.out_share


def expected(vdaf, key, agg_param, ctx, m, nonce, rand):
    outs = verified(vdaf, key, agg_param, ctx, m, nonce, rand)
    return vdaf.ROUNDS + 1, outs[0], outs[1]


def prio3_expected_exchange(vdaf, key, agg_param, ctx, m, nonce, rand):
    try:
        prio3_expected(vdaf, key, ctx, [nonce], None)
    except ValueError:
        return None
    return expected(vdaf, key, agg_param, ctx, m, nonce, rand)
