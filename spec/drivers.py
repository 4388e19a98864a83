"""Running a batch of measurements through all parties."""
import os


def run_daf(daf, ctx, agg_param, measurements):
    agg_shares = [daf.agg_init(agg_param) for _ in range(daf.SHARES)]
    for m in measurements:
        nonce = os.urandom(daf.NONCE_SIZE)
        public_share, input_shares = daf.shard(ctx, m, nonce, os.urandom(daf.RAND_SIZE))
        for j in range(daf.SHARES):
            agg_shares[j] = daf.agg_update(agg_param, agg_shares[j], daf.prep(ctx, j, agg_param, nonce, public_share, input_shares[j]))
    return daf.unshard(agg_param, agg_shares, len(measurements))


def verified(vdaf, verify_key, agg_param, ctx, m):
    """Output shares of all aggregators for one measurement."""
    nonce = os.urandom(vdaf.NONCE_SIZE)
    public_share, input_shares = vdaf.shard(ctx, m, nonce, os.urandom(vdaf.RAND_SIZE))
    parties = range(vdaf.SHARES)
    now = [vdaf.verify_init(verify_key, ctx, j, agg_param, nonce, public_share, input_shares[j]) for j in parties]
    for i in range(vdaf.ROUNDS - 1):
        message = vdaf.verifier_shares_to_message(ctx, agg_param, [share for state, share in now])
        now = [vdaf.verify_next(ctx, state, message) for state, share in now]
        for out in now:
            assert isinstance(out, tuple)
    message = vdaf.verifier_shares_to_message(ctx, agg_param, [share for state, share in now])
    outs = [vdaf.verify_next(ctx, state, message) for state, share in now]
    for out in outs:
        assert not isinstance(out, tuple)
    return outs


def run_vdaf(vdaf, verify_key, agg_param, ctx, measurements):
    assert len(verify_key) == vdaf.VERIFY_KEY_SIZE
    agg_shares = [vdaf.agg_init(agg_param) for _ in range(vdaf.SHARES)]
    for m in measurements:
        outs = verified(vdaf, verify_key, agg_param, ctx, m)
        agg_shares = [vdaf.agg_update(agg_param, agg_share, out) for agg_share, out in zip(agg_shares, outs)]
    return vdaf.unshard(agg_param, agg_shares, len(measurements))
