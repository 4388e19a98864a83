"""Prio3, as the properties require it (any FLP, field, XOF, number of shares and proofs).

u_* are the purposes for which randomness is derived.
"""

MEAS_SHARE = 1
PROOF_SHARE = 2
JOINT_RANDOMNESS = 3
PROVE_RANDOMNESS = 4
QUERY_RANDOMNESS = 5
JOINT_RAND_SEED = 6
JOINT_RAND_PART = 7


def tag(vdaf, usage, ctx):
    """Version, class 0 (VDAF), algorithm, usage, context."""
    return (18).to_bytes(1, 'big') + (0).to_bytes(1, 'big') + vdaf.ID.to_bytes(4, 'big') + usage.to_bytes(2, 'big') + ctx


def meas_share(vdaf, ctx, j, share):
    """Measurement share expanded by helper j."""
    return vdaf.xof.expand_into_vec(vdaf.flp.field, share, tag(vdaf, MEAS_SHARE, ctx), bytes([j]), vdaf.flp.MEAS_LEN)


def proofs_share(vdaf, ctx, j, share):
    """Proof shares expanded by helper j."""
    return vdaf.xof.expand_into_vec(vdaf.flp.field, share, tag(vdaf, PROOF_SHARE, ctx), bytes([vdaf.PROOFS, j]), vdaf.flp.PROOF_LEN * vdaf.PROOFS)


def prove_rand(vdaf, ctx, seed):
    return vdaf.xof.expand_into_vec(vdaf.flp.field, seed, tag(vdaf, PROVE_RANDOMNESS, ctx), bytes([vdaf.PROOFS]),
                                    vdaf.flp.PROVE_RAND_LEN * vdaf.PROOFS)


def query_rand(vdaf, key, ctx, nonce):
    """Bound to the number of proofs and the nonce, keyed by the verification key."""
    return vdaf.xof.expand_into_vec(vdaf.flp.field, key, tag(vdaf, QUERY_RANDOMNESS, ctx), bytes([vdaf.PROOFS]) + nonce,
                                    vdaf.flp.QUERY_RAND_LEN * vdaf.PROOFS)


def part(vdaf, ctx, j, blind, share, nonce):
    """Bound to the aggregator's index, the nonce and its whole measurement share."""
    return vdaf.xof.derive_seed(blind, tag(vdaf, JOINT_RAND_PART, ctx), bytes([j]) + nonce + vdaf.flp.field.encode_vec(share))


def joint_seed(vdaf, ctx, parts):
    return vdaf.xof.derive_seed(bytes(vdaf.xof.SEED_SIZE), tag(vdaf, JOINT_RAND_SEED, ctx), b''.join(parts))


def joint_rand(vdaf, ctx, seed):
    return vdaf.xof.expand_into_vec(vdaf.flp.field, seed, tag(vdaf, JOINT_RANDOMNESS, ctx), bytes([vdaf.PROOFS]),
                                    vdaf.flp.JOINT_RAND_LEN * vdaf.PROOFS)


def joint_rand_used(vdaf):
    return vdaf.flp.JOINT_RAND_LEN > 0


def seeds(vdaf, rand, k):
    """The k-th seed of the random input."""
    size = vdaf.xof.SEED_SIZE
    return rand[k * size:(k + 1) * size]


def helper_seed(vdaf, rand, j):
    """Seed of helper j (1 <= j < SHARES)."""
    if joint_rand_used(vdaf):
        return seeds(vdaf, rand, 2 * (j - 1))
    return seeds(vdaf, rand, j - 1)


def blind(vdaf, rand, j):
    """Blind of aggregator j."""
    if j == 0:
        return seeds(vdaf, rand, 2 * (vdaf.SHARES - 1))
    return seeds(vdaf, rand, 2 * (j - 1) + 1)


def prove_seed(vdaf, rand):
    if joint_rand_used(vdaf):
        return seeds(vdaf, rand, 2 * vdaf.SHARES - 1)
    return seeds(vdaf, rand, vdaf.SHARES - 1)


def leader_meas_share(vdaf, ctx, meas, rand):
    field = vdaf.flp.field
    helpers = [meas_share(vdaf, ctx, j + 1, helper_seed(vdaf, rand, j + 1)) for j in range(vdaf.SHARES - 1)]
    return [meas[i] - sum([helpers[j][i] for j in range(vdaf.SHARES - 1)], field(0)) for i in range(vdaf.flp.MEAS_LEN)]


def public_share(vdaf, ctx, meas, nonce, rand):
    leader = leader_meas_share(vdaf, ctx, meas, rand)
    parts = [part(vdaf, ctx, j + 1, blind(vdaf, rand, j + 1), meas_share(vdaf, ctx, j + 1, helper_seed(vdaf, rand, j + 1)), nonce)
             for j in range(vdaf.SHARES - 1)]
    return [part(vdaf, ctx, 0, blind(vdaf, rand, 0), leader, nonce)] + parts


def proofs(vdaf, ctx, meas, nonce, rand):
    """One proof per slice of prover and joint randomness."""
    flp = vdaf.flp
    prove = prove_rand(vdaf, ctx, prove_seed(vdaf, rand))
    out = []
    if joint_rand_used(vdaf):
        joint = joint_rand(vdaf, ctx, joint_seed(vdaf, ctx, public_share(vdaf, ctx, meas, nonce, rand)))
        for k in range(vdaf.PROOFS):
            out += flp.prove(meas, prove[k * flp.PROVE_RAND_LEN:(k + 1) * flp.PROVE_RAND_LEN],
                             joint[k * flp.JOINT_RAND_LEN:(k + 1) * flp.JOINT_RAND_LEN])
    else:
        for k in range(vdaf.PROOFS):
            out += flp.prove(meas, prove[k * flp.PROVE_RAND_LEN:(k + 1) * flp.PROVE_RAND_LEN], [])
    return out


def shard(vdaf, ctx, measurement, nonce, rand):
    if len(nonce) != vdaf.NONCE_SIZE:
        raise ValueError()
    if len(rand) != vdaf.RAND_SIZE:
        raise ValueError()
    meas = vdaf.flp.encode(measurement)
    field = vdaf.flp.field
    whole = proofs(vdaf, ctx, meas, nonce, rand)
    helpers = [proofs_share(vdaf, ctx, j + 1, helper_seed(vdaf, rand, j + 1)) for j in range(vdaf.SHARES - 1)]
    masked = [whole[i] - sum([helpers[j][i] for j in range(vdaf.SHARES - 1)], field(0)) for i in range(vdaf.flp.PROOF_LEN * vdaf.PROOFS)]
    leader = leader_meas_share(vdaf, ctx, meas, rand)
    if joint_rand_used(vdaf):
        shares = [(leader, masked, blind(vdaf, rand, 0))]
        shares += [(helper_seed(vdaf, rand, j + 1), blind(vdaf, rand, j + 1)) for j in range(vdaf.SHARES - 1)]
        return (public_share(vdaf, ctx, meas, nonce, rand), shares)
    shares = [(leader, masked, None)]
    shares += [(helper_seed(vdaf, rand, j + 1), None) for j in range(vdaf.SHARES - 1)]
    return (None, shares)


def verify_init(vdaf, key, ctx, agg_id, nonce, parts, meas, proofs_, blind_):
    """Aggregator agg_id with its expanded share."""
    flp = vdaf.flp
    query = query_rand(vdaf, key, ctx, nonce)
    own = None
    seed = None
    verifiers = []
    if joint_rand_used(vdaf):
        own = part(vdaf, ctx, agg_id, blind_, meas, nonce)
        seed = joint_seed(vdaf, ctx, parts[:agg_id] + [own] + parts[agg_id + 1:])
        joint = joint_rand(vdaf, ctx, seed)
        for k in range(vdaf.PROOFS):
            verifiers += flp.query(meas, proofs_[k * flp.PROOF_LEN:(k + 1) * flp.PROOF_LEN],
                                   query[k * flp.QUERY_RAND_LEN:(k + 1) * flp.QUERY_RAND_LEN],
                                   joint[k * flp.JOINT_RAND_LEN:(k + 1) * flp.JOINT_RAND_LEN], vdaf.SHARES)
    else:
        for k in range(vdaf.PROOFS):
            verifiers += flp.query(meas, proofs_[k * flp.PROOF_LEN:(k + 1) * flp.PROOF_LEN],
                                   query[k * flp.QUERY_RAND_LEN:(k + 1) * flp.QUERY_RAND_LEN], [], vdaf.SHARES)
    return ((flp.truncate(meas), seed), (verifiers, own))


def verify_init_leader(vdaf, key, ctx, nonce, parts, share):
    return verify_init(vdaf, key, ctx, 0, nonce, parts, share[0], share[1], share[2])


def verify_init_helper(vdaf, key, ctx, agg_id, nonce, parts, share):
    return verify_init(vdaf, key, ctx, agg_id, nonce, parts, meas_share(vdaf, ctx, agg_id, share[0]),
                       proofs_share(vdaf, ctx, agg_id, share[0]), share[1])


def combine(vdaf, ctx, verifiers, parts):
    """verifiers[j] and parts[j] come from aggregator j."""
    flp = vdaf.flp
    n = flp.VERIFIER_LEN
    for j in range(len(verifiers)):
        if len(verifiers[j]) != n * vdaf.PROOFS:
            raise ValueError()
    total = [sum([verifiers[j][i] for j in range(len(verifiers))], flp.field(0)) for i in range(n * vdaf.PROOFS)]
    for k in range(vdaf.PROOFS):
        if not flp.decide(total[k * n:(k + 1) * n]):
            raise ValueError()
    if joint_rand_used(vdaf):
        return joint_seed(vdaf, ctx, parts)
    return None


def finish(out_share, own_seed, agreed_seed):
    if own_seed != agreed_seed:
        raise ValueError()
    return out_share
