"""Ping-pong frames and state machine."""
from vdaf_poc.vdaf_ping_pong import Continued, Finished, FinishedWithOutbound, Rejected


def frame(kind, *parts):
    out = kind.to_bytes(1, 'big')
    for part in parts:
        if len(part) >= 2 ** 32:
            raise ValueError()
        out = out + len(part).to_bytes(4, 'big') + part
    return out


def parse(encoded):
    if len(encoded) < 1:
        raise ValueError()
    kind = encoded[0]
    if kind > 2:
        raise ValueError()
    if len(encoded) < 5:
        raise ValueError()
    first = int.from_bytes(encoded[1:5], 'big')
    if len(encoded) < 5 + first:
        raise ValueError()
    if kind == 1:
        if len(encoded) < 9 + first:
            raise ValueError()
        second = int.from_bytes(encoded[5 + first:9 + first], 'big')
        if len(encoded) != 9 + first + second:
            raise ValueError()
        return (1, [encoded[5:5 + first], encoded[9 + first:9 + first + second]])
    if len(encoded) != 5 + first:
        raise ValueError()
    return (kind, [encoded[5:5 + first]])


def view(state):
    """What a party's state shows to its caller."""
    if isinstance(state, Continued):
        return ('continued', state.verify_state, state.verify_round, state.outbound)
    if isinstance(state, Finished):
        return ('finished', state.out_share)
    if isinstance(state, FinishedWithOutbound):
        return ('finished with outbound', state.out_share, state.outbound)
    if isinstance(state, Rejected):
        return ('rejected',)
    return ('other',)


def leader_starts(vdaf, key, ctx, agg_param, nonce, public_share, input_share):
    return view(vdaf.ping_pong_leader_init(key, ctx, agg_param, nonce, public_share, input_share))


def helper_starts(vdaf, key, ctx, agg_param, nonce, public_share, input_share, inbound):
    return view(vdaf.ping_pong_helper_init(key, ctx, agg_param, nonce, public_share, input_share, inbound))


def leader_continues(vdaf, ctx, agg_param, verify_state, verify_round, outbound, inbound):
    return view(vdaf.ping_pong_leader_continued(ctx, agg_param, Continued(verify_state, verify_round, outbound), inbound))


def helper_continues(vdaf, ctx, agg_param, verify_state, verify_round, outbound, inbound):
    return view(vdaf.ping_pong_helper_continued(ctx, agg_param, Continued(verify_state, verify_round, outbound), inbound))


def leader_start(vdaf, key, ctx, agg_param, nonce, public_share, input_share):
    try:
        (state, share) = vdaf.verify_init(key, ctx, 0, vdaf.decode_agg_param(agg_param), nonce,
                                          vdaf.decode_public_share(public_share), vdaf.decode_input_share(0, input_share))
        return ('continued', state, 0, frame(0, vdaf.encode_verifier_share(share)))
    except Exception:
        return ('rejected',)


def helper_start(vdaf, key, ctx, agg_param, nonce, public_share, input_share, inbound):
    try:
        (state, share) = vdaf.verify_init(key, ctx, 1, vdaf.decode_agg_param(agg_param), nonce,
                                          vdaf.decode_public_share(public_share), vdaf.decode_input_share(1, input_share))
        (kind, parts) = parse(inbound)
        if kind != 0:
            raise ValueError()
        leader = vdaf.decode_verifier_share(state, parts[0])
        return combine(vdaf, ctx, agg_param, leader, share, state, 0)
    except Exception:
        return ('rejected',)


def combine(vdaf, ctx, agg_param, leader_share, helper_share, state, round):
    """Combine the shares of a round and process the result."""
    message = vdaf.verifier_shares_to_message(ctx, vdaf.decode_agg_param(agg_param), [leader_share, helper_share])
    encoded = vdaf.encode_verifier_message(message)
    out = vdaf.verify_next(ctx, state, message)
    if round + 1 == vdaf.ROUNDS:
        return ('finished with outbound', out, frame(2, encoded))
    (state, share) = out
    return ('continued', state, round + 1, frame(1, encoded, vdaf.encode_verifier_share(share)))


def continuation(vdaf, leader, ctx, agg_param, state, round, inbound):
    try:
        (kind, parts) = parse(inbound)
        if kind == 1 and round + 1 < vdaf.ROUNDS:
            out = vdaf.verify_next(ctx, state, vdaf.decode_verifier_message(state, parts[0]))
            (state, mine) = out
            theirs = vdaf.decode_verifier_share(state, parts[1])
            if leader:
                return combine(vdaf, ctx, agg_param, mine, theirs, state, round + 1)
            return combine(vdaf, ctx, agg_param, theirs, mine, state, round + 1)
        if kind == 2 and round + 1 == vdaf.ROUNDS:
            out = vdaf.verify_next(ctx, state, vdaf.decode_verifier_message(state, parts[0]))
            return ('finished', out)
        return ('rejected',)
    except Exception:
        return ('rejected',)


def leader_continue(vdaf, ctx, agg_param, verify_state, verify_round, outbound, inbound):
    return continuation(vdaf, True, ctx, agg_param, verify_state, verify_round, inbound)


def helper_continue(vdaf, ctx, agg_param, verify_state, verify_round, outbound, inbound):
    return continuation(vdaf, False, ctx, agg_param, verify_state, verify_round, inbound)
