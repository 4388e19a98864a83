"""The whole protocol from measurements to the aggregate result."""
from spec.prio3 import query_rand
from spec.proofs import power


def verified(vdaf, key, agg_param, ctx, m, nonce, rand):
    """Output shares of all aggregators for one honest report."""
    public_share, input_shares = vdaf.shard(ctx, m, nonce, rand)
    now = [vdaf.verify_init(key, ctx, j, agg_param, nonce, public_share, input_shares[j]) for j in range(vdaf.SHARES)]
    for i in range(vdaf.ROUNDS):
        message = vdaf.verifier_shares_to_message(ctx, agg_param, [share for state, share in now])
        now = [vdaf.verify_next(ctx, state, message) for state, share in now]
    return now


def wired(vdaf, key, agg_param, ctx, m, nonce, rand):
    """The same with every message encoded and decoded on its way."""
    public_share, input_shares = vdaf.shard(ctx, m, nonce, rand)
    public = vdaf.encode_public_share(public_share)
    inputs = [vdaf.encode_input_share(x) for x in input_shares]
    now = [vdaf.verify_init(key, ctx, j, agg_param, nonce, vdaf.decode_public_share(public), vdaf.decode_input_share(j, inputs[j])) for j in range(vdaf.SHARES)]
    for i in range(vdaf.ROUNDS):
        sent = [(state, vdaf.encode_verifier_share(share)) for state, share in now]
        message = vdaf.encode_verifier_message(vdaf.verifier_shares_to_message(ctx, agg_param, [vdaf.decode_verifier_share(state, share) for state, share in sent]))
        now = [vdaf.verify_next(ctx, state, vdaf.decode_verifier_message(state, message)) for state, share in sent]
    return [vdaf.decode_out_share(agg_param, vdaf.encode_out_share(x)) for x in now]


def result(vdaf, key, agg_param, ctx, measurements, nonces, rands):
    """The aggregate result of a batch of honest reports."""
    shares = [vdaf.agg_init(agg_param) for j in range(vdaf.SHARES)]
    for i in range(len(measurements)):
        outs = verified(vdaf, key, agg_param, ctx, measurements[i], nonces[i], rands[i])
        shares = [vdaf.agg_update(agg_param, shares[j], outs[j]) for j in range(vdaf.SHARES)]
    return vdaf.unshard(agg_param, shares, len(measurements))


def wired_result(vdaf, key, agg_param, ctx, measurements, nonces, rands):
    shares = [vdaf.agg_init(agg_param) for j in range(vdaf.SHARES)]
    for i in range(len(measurements)):
        outs = wired(vdaf, key, agg_param, ctx, measurements[i], nonces[i], rands[i])
        shares = [vdaf.agg_update(agg_param, shares[j], outs[j]) for j in range(vdaf.SHARES)]
    return vdaf.unshard(agg_param, [vdaf.decode_agg_share(agg_param, vdaf.encode_agg_share(x)) for x in shares], len(measurements))


def merged(vdaf, key, agg_param, ctx, measurements, nonces, rands):
    """The same with every report aggregated on its own and the aggregates merged."""
    parts = [[] for j in range(vdaf.SHARES)]
    for i in range(len(measurements)):
        outs = verified(vdaf, key, agg_param, ctx, measurements[i], nonces[i], rands[i])
        for j in range(vdaf.SHARES):
            parts[j].append(vdaf.agg_update(agg_param, vdaf.agg_init(agg_param), outs[j]))
    return vdaf.unshard(agg_param, [vdaf.merge(agg_param, parts[j]) for j in range(vdaf.SHARES)], len(measurements))


def prio3_expected(vdaf, key, ctx, nonces, expected):
    """The expected result, unless a query point falls in an interpolation domain."""
    valid = vdaf.flp.valid
    n = len(valid.GADGETS)
    size = vdaf.flp.QUERY_RAND_LEN
    for nonce in nonces:
        points = query_rand(vdaf, key, ctx, nonce)
        for k in range(vdaf.PROOFS):
            for i in range(n):
                if points[(k + 1) * size - n + i] ** power(1 + valid.GADGET_CALLS[i]) == vdaf.flp.field(1):
                    raise ValueError()
    return expected


def known(x):
    return x
