"""IDPF values and their meaning."""
from vdaf_poc.xof import XofFixedKeyAes128, XofTurboShake128


def public_share(seeds, left, right, inner, leaf):
    """A well-formed public share from its components."""
    n = len(inner)
    return [(seeds[i], (left[i], right[i]), inner[i]) for i in range(n)] + [(seeds[n], (left[n], right[n]), leaf)]


def combined(idpf, alpha, beta_inner, beta_leaf, ctx, nonce, rand, level, prefixes):
    """Sum of the two parties' evaluations of an honest key."""
    (public_share, keys) = idpf.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)
    first = idpf.eval(0, public_share, keys[0], level, prefixes, ctx, nonce)
    second = idpf.eval(1, public_share, keys[1], level, prefixes, ctx, nonce)
    return [[x + y for (x, y) in zip(a, b)] for (a, b) in zip(first, second)]


def programmed(idpf, alpha, beta_inner, beta_leaf, level, prefixes):
    """The programmed vector on the path, zero off it."""
    out = []
    for prefix in prefixes:
        on = True
        for i in range(level + 1):
            if prefix[i] != alpha[i]:
                on = False
        if level < idpf.BITS - 1:
            beta = beta_inner[level]
            field = idpf.field_inner
        else:
            beta = beta_leaf
            field = idpf.field_leaf
        out.append(beta if on else [field(0) for _ in range(idpf.VALUE_LEN)])
    return out


def eval_accepts(idpf, agg_id, public_share, key, level, prefixes, ctx, nonce):
    idpf.eval(agg_id, public_share, key, level, prefixes, ctx, nonce)
    return True


def eval_accepted(idpf, agg_id, level, prefixes):
    if agg_id < 0 or agg_id > 1 or level < 0 or level >= idpf.BITS:
        raise ValueError()
    for i in range(len(prefixes)):
        if len(prefixes[i]) != level + 1:
            raise ValueError()
        for j in range(i):
            if prefixes[i] == prefixes[j]:
                raise ValueError()
    return True


def gen_accepts(idpf, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
    idpf.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)
    return True


def gen_accepted(idpf, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
    if len(alpha) != idpf.BITS or len(beta_inner) != idpf.BITS - 1 or len(nonce) != 16 or len(rand) != 32:
        raise ValueError()
    for beta in beta_inner:
        if len(beta) != idpf.VALUE_LEN:
            raise ValueError()
    if len(beta_leaf) != idpf.VALUE_LEN:
        raise ValueError()
    return True


def tag(usage, ctx):
    """Version, class 1 (IDPF), algorithm 0, usage, context."""
    return (18).to_bytes(1, 'big') + (1).to_bytes(1, 'big') + (0).to_bytes(4, 'big') + usage.to_bytes(2, 'big') + ctx


def derive(idpf, level, usage, seed, ctx, nonce):
    if level < idpf.BITS - 1:
        return XofFixedKeyAes128(seed, tag(usage, ctx), nonce)
    return XofTurboShake128(seed, tag(usage, ctx), nonce)


def step(idpf, level, seed, ctrl, bit, word, ctx, nonce):
    """Child of a node: seed, control bit and value share."""
    xof = derive(idpf, level, 0, seed, ctx, nonce)
    left = bytearray(xof.next(16))
    right = bytearray(xof.next(16))
    child = right if bit else left
    next_ctrl = bool(child[0] & 1)
    child[0] &= 0xFE
    child = bytes(child)
    if ctrl:
        child = bytes([x ^ y for (x, y) in zip(child, word[0])])
        next_ctrl = next_ctrl != word[1][1 if bit else 0]
    xof = derive(idpf, level, 1, child, ctx, nonce)
    next_seed = xof.next(16)
    field = idpf.field_inner if level < idpf.BITS - 1 else idpf.field_leaf
    value = xof.next_vec(field, idpf.VALUE_LEN)
    if next_ctrl:
        value = [value[i] + word[2][i] for i in range(idpf.VALUE_LEN)]
    return (next_seed, next_ctrl, value)


def walk(idpf, party, public_share, key, level, prefix, ctx, nonce):
    seed = key
    ctrl = party == 1
    value = None
    for i in range(level + 1):
        (seed, ctrl, value) = step(idpf, i, seed, ctrl, prefix[i], public_share[i], ctx, nonce)
    if party == 1:
        value = [-x for x in value]
    return [value]


def prefixes(first, *rest):
    """The i-th prefix has the i-th entry of every list as its bits."""
    return tuple(tuple([first[i]] + [bit[i] for bit in rest]) for i in range(len(first)))


def walks(idpf, party, public_share, key, level, prefixes, ctx, nonce):
    for i in range(len(prefixes)):
        for j in range(i):
            if prefixes[i] == prefixes[j]:
                raise ValueError()
    return each_walk(idpf, party, public_share, key, level, prefixes, ctx, nonce)


def each_walk(idpf, party, public_share, key, level, prefixes, ctx, nonce):
    return [walk(idpf, party, public_share, key, level, prefix, ctx, nonce)[0] for prefix in prefixes]


def expand(idpf, level, seed, ctx, nonce):
    """Children of a node before correction: seeds with the lowest bit cleared, and that bit."""
    xof = derive(idpf, level, 0, seed, ctx, nonce)
    out = []
    for _ in range(2):
        child = bytearray(xof.next(16))
        bit = bool(child[0] & 1)
        child[0] &= 0xFE
        out.append((bytes(child), bit))
    return out


def generate(idpf, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
    """Public share and keys of an honest client."""
    keys = [rand[:16], rand[16:]]
    seeds = [keys[0], keys[1]]
    ctrls = [False, True]
    public_share = []
    for level in range(idpf.BITS):
        keep = 1 if alpha[level] else 0
        nodes = [expand(idpf, level, seed, ctx, nonce) for seed in seeds]
        seed_cw = bytes([x ^ y for (x, y) in zip(nodes[0][1 - keep][0], nodes[1][1 - keep][0])])
        ctrl_cw = [nodes[0][side][1] != nodes[1][side][1] for side in range(2)]
        ctrl_cw[keep] = not ctrl_cw[keep]
        field = idpf.field_inner if level < idpf.BITS - 1 else idpf.field_leaf
        beta = beta_inner[level] if level < idpf.BITS - 1 else beta_leaf
        values = []
        for party in range(2):
            (child, bit) = nodes[party][keep]
            if ctrls[party]:
                child = bytes([x ^ y for (x, y) in zip(child, seed_cw)])
                bit = bit != ctrl_cw[keep]
            ctrls[party] = bit
            xof = derive(idpf, level, 1, child, ctx, nonce)
            seeds[party] = xof.next(16)
            values.append(xof.next_vec(field, idpf.VALUE_LEN))
        sign = field(-1) if ctrls[1] else field(1)
        payload = [sign * (beta[i] - values[0][i] + values[1][i]) for i in range(idpf.VALUE_LEN)]
        public_share.append((seed_cw, (ctrl_cw[0], ctrl_cw[1]), payload))
    return (public_share, keys)
