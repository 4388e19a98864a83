"""Poplar1, as the properties require it, over any IDPF."""
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21

SHARD_RAND = 1
CORR_INNER = 2
CORR_LEAF = 3
VERIFY_RAND = 4


class ProbeIdpf(IdpfBBCGGI21):
    """The public share is what key generation was given."""

    def gen(self, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
        return ((alpha, beta_inner, beta_leaf, ctx, nonce), [rand[:16], rand[16:32]])


def tag(vdaf, usage, ctx):
    return (18).to_bytes(1, 'big') + (0).to_bytes(1, 'big') + vdaf.ID.to_bytes(4, 'big') + usage.to_bytes(2, 'big') + ctx


def shard(vdaf, ctx, measurement, nonce, rand):
    if len(nonce) != 16:
        raise ValueError()
    if len(rand) != vdaf.RAND_SIZE:
        raise ValueError()
    bits = vdaf.idpf.BITS
    inner = vdaf.idpf.field_inner
    leaf = vdaf.idpf.field_leaf
    size = vdaf.xof.SEED_SIZE
    corr_seed0 = rand[32:32 + size]
    corr_seed1 = rand[32 + size:32 + 2 * size]
    shard_seed = rand[32 + 2 * size:32 + 3 * size]
    xof = vdaf.xof(shard_seed, tag(vdaf, SHARD_RAND, ctx), nonce)
    k_inner = xof.next_vec(inner, bits - 1)
    k_leaf = xof.next_vec(leaf, 1)[0]
    beta_inner = [[inner(1), k] for k in k_inner]
    beta_leaf = [leaf(1), k_leaf]
    public, keys = vdaf.idpf.gen(measurement, beta_inner, beta_leaf, ctx, nonce, rand[:32])
    # the second aggregator's share of the correlation is pseudorandom
    second_inner = xof.next_vec(inner, 2 * (bits - 1))
    second_leaf = xof.next_vec(leaf, 2)
    x0 = vdaf.xof.expand_into_vec(inner, corr_seed0, tag(vdaf, CORR_INNER, ctx), bytes([0]) + nonce, 3 * (bits - 1))
    x1 = vdaf.xof.expand_into_vec(inner, corr_seed1, tag(vdaf, CORR_INNER, ctx), bytes([1]) + nonce, 3 * (bits - 1))
    y0 = vdaf.xof.expand_into_vec(leaf, corr_seed0, tag(vdaf, CORR_LEAF, ctx), bytes([0]) + nonce, 3)
    y1 = vdaf.xof.expand_into_vec(leaf, corr_seed1, tag(vdaf, CORR_LEAF, ctx), bytes([1]) + nonce, 3)
    first_inner = []
    for i in range(bits - 1):
        a = x0[3 * i] + x1[3 * i]
        b = x0[3 * i + 1] + x1[3 * i + 1]
        c = x0[3 * i + 2] + x1[3 * i + 2]
        k = k_inner[i]
        first_inner.append(k - a - a - second_inner[2 * i])
        first_inner.append(a * a + b - a * k + c - second_inner[2 * i + 1])
    a = y0[0] + y1[0]
    b = y0[1] + y1[1]
    c = y0[2] + y1[2]
    first_leaf = [k_leaf - a - a - second_leaf[0], a * a + b - a * k_leaf + c - second_leaf[1]]
    return (public, [(keys[0], corr_seed0, first_inner, first_leaf), (keys[1], corr_seed1, second_inner, second_leaf)])


def verify_init(vdaf, key, ctx, agg_id, level, prefixes, nonce, public, share):
    idpf_key, corr_seed, corr_inner, corr_leaf = share
    bits = vdaf.idpf.BITS
    value = vdaf.idpf.eval(agg_id, public, idpf_key, level, prefixes, ctx, nonce)
    if level < bits - 1:
        field = vdaf.idpf.field_inner
        corr = vdaf.xof.expand_into_vec(field, corr_seed, tag(vdaf, CORR_INNER, ctx), bytes([agg_id]) + nonce, 3 * (level + 1))[3 * level:]
        A = corr_inner[2 * level]
        B = corr_inner[2 * level + 1]
    else:
        field = vdaf.idpf.field_leaf
        corr = vdaf.xof.expand_into_vec(field, corr_seed, tag(vdaf, CORR_LEAF, ctx), bytes([agg_id]) + nonce, 3)
        A = corr_leaf[0]
        B = corr_leaf[1]
    r = vdaf.xof.expand_into_vec(field, key, tag(vdaf, VERIFY_RAND, ctx), nonce + level.to_bytes(2, 'big'), len(prefixes))
    n = len(prefixes)
    sketch = [
        corr[0] + sum([value[i][0] * r[i] for i in range(n)], field(0)),
        corr[1] + sum([value[i][0] * r[i] * r[i] for i in range(n)], field(0)),
        corr[2] + sum([value[i][1] * r[i] for i in range(n)], field(0)),
    ]
    return ((b'evaluate sketch', level, [A, B, field(agg_id)] + [value[i][0] for i in range(n)]), sketch)


def combine(field, shares):
    """Exactly two shares of equal length 3 (first round) or 1 (second round, sum must be zero)."""
    if len(shares) != 2:
        raise ValueError()
    if len(shares[0]) != len(shares[1]):
        raise ValueError()
    if len(shares[0]) == 3:
        return [shares[0][i] + shares[1][i] for i in range(3)]
    if len(shares[0]) == 1:
        if shares[0][0] + shares[1][0] != field(0):
            raise ValueError()
        return None
    raise ValueError()


def next_evaluate(level, mem, message):
    if message is None:
        raise ValueError()
    if len(message) != 3:
        raise ValueError()
    z = mem[2] * (message[0] * message[0] - message[1] - message[2]) + mem[0] * message[0] + mem[1]
    return ((b'reveal sketch', level, mem[3:]), [z])


def next_reveal(mem, message):
    if message is not None:
        raise ValueError()
    return mem


def next_any(step, level, mem, message):
    if step == b'evaluate sketch':
        return next_evaluate(level, mem, message)
    if step == b'reveal sketch':
        return next_reveal(mem, message)
    raise ValueError()


class ShareIdpf(IdpfBBCGGI21):
    """Key generation publishes the programmed values; the two evaluations are shares of d[i] times the programmed value (d arbitrary)."""

    def gen(self, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
        return ((beta_inner, beta_leaf), [rand[:16], rand[16:32]])

    def eval(self, agg_id, public_share, key, level, prefixes, ctx, nonce):
        if level < self.BITS - 1:
            beta = public_share[0][level]
        else:
            beta = public_share[1]
        if agg_id == 0:
            return [[self.mask[i][0], self.mask[i][1]] for i in range(len(prefixes))]
        return [[self.data[i] * beta[0] - self.mask[i][0], self.data[i] * beta[1] - self.mask[i][1]] for i in range(len(prefixes))]


def first_round(vdaf, key, ctx, m, nonce, rand, level, prefixes):
    public, shares = vdaf.shard(ctx, m, nonce, rand)
    param = (level, prefixes)
    state0, share0 = vdaf.verify_init(key, ctx, 0, param, nonce, public, shares[0])
    state1, share1 = vdaf.verify_init(key, ctx, 1, param, nonce, public, shares[1])
    return (state0, state1, vdaf.verifier_shares_to_message(ctx, param, [share0, share1]))


def second_round_sum(vdaf, key, ctx, m, nonce, rand, level, prefixes):
    state0, state1, message = first_round(vdaf, key, ctx, m, nonce, rand, level, prefixes)
    state0, share0 = vdaf.verify_next(ctx, state0, message)
    state1, share1 = vdaf.verify_next(ctx, state1, message)
    return [share0[0] + share1[0]]


def sketch_equation(vdaf, key, ctx, nonce, level, prefixes):
    """(sum of data times r)^2 - (sum of data times r^2)."""
    if level < vdaf.idpf.BITS - 1:
        field = vdaf.idpf.field_inner
    else:
        field = vdaf.idpf.field_leaf
    r = vdaf.xof.expand_into_vec(field, key, tag(vdaf, VERIFY_RAND, ctx), nonce + level.to_bytes(2, 'big'), len(prefixes))
    d = vdaf.idpf.data
    n = len(prefixes)
    s = sum([d[i] * r[i] for i in range(n)], field(0))
    return [s * s - sum([d[i] * r[i] * r[i] for i in range(n)], field(0))]


def released_sum(vdaf, key, ctx, m, nonce, rand, level, prefixes):
    """Sum of the output shares released after two rounds (the combined second-round value being zero)."""
    param = (level, prefixes)
    state0, state1, message = first_round(vdaf, key, ctx, m, nonce, rand, level, prefixes)
    state0, share0 = vdaf.verify_next(ctx, state0, message)
    state1, share1 = vdaf.verify_next(ctx, state1, message)
    last = vdaf.verifier_shares_to_message(ctx, param, [share0, share1])
    out0 = vdaf.verify_next(ctx, state0, last)
    out1 = vdaf.verify_next(ctx, state1, last)
    return [out0[i] + out1[i] for i in range(len(prefixes))]


def expected_release(vdaf, key, ctx, nonce, level, prefixes):
    """The data values, exactly when the sketch equation holds."""
    if level < vdaf.idpf.BITS - 1:
        field = vdaf.idpf.field_inner
    else:
        field = vdaf.idpf.field_leaf
    if sketch_equation(vdaf, key, ctx, nonce, level, prefixes)[0] != field(0):
        raise ValueError()
    return [vdaf.idpf.data[i] for i in range(len(prefixes))]


class OpaqueIdpf(IdpfBBCGGI21):
    """Evaluation returns given values; the arguments must be the ones of this aggregator."""

    def eval(self, agg_id, public_share, key, level, prefixes, ctx, nonce):
        if agg_id != self.want_agg_id or level != self.want_level:
            raise ValueError()
        if public_share != self.want_public or key != self.want_key or prefixes != self.want_prefixes:
            raise ValueError()
        if ctx != self.want_ctx or nonce != self.want_nonce:
            raise ValueError()
        return [[self.value[i][0], self.value[i][1]] for i in range(len(prefixes))]
