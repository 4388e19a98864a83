"""Proof systems that expose what Prio3 feeds them, and flows of an honest report through the public operations."""
from vdaf_poc.flp import Flp


class ProbeFlp(Flp):
    """Truncation keeps the whole measurement share; querying returns the proof share."""

    def truncate(self, meas):
        return meas[:]

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        return proof[:]


class ProbeRandFlp(Flp):
    """The proof is the joint randomness used by the prover; querying returns the proof share and the joint randomness used."""

    def truncate(self, meas):
        return meas[:]

    def prove(self, meas, prove_rand, joint_rand):
        return joint_rand[:]

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        return joint_rand[:]


def leader(vdaf, key, ctx, m, nonce, rand):
    public, shares = vdaf.shard(ctx, m, nonce, rand)
    return vdaf.verify_init(key, ctx, 0, None, nonce, public, shares[0])


def helper(vdaf, key, ctx, m, nonce, rand, j):
    public, shares = vdaf.shard(ctx, m, nonce, rand)
    return vdaf.verify_init(key, ctx, j, None, nonce, public, shares[j])


def number_of_shares(vdaf, ctx, m, nonce, rand):
    public, shares = vdaf.shard(ctx, m, nonce, rand)
    return len(shares)


def everyone(vdaf, key, ctx, m, nonce, rand):
    public, shares = vdaf.shard(ctx, m, nonce, rand)
    first = [vdaf.verify_init(key, ctx, 0, None, nonce, public, shares[0])]
    return first + [vdaf.verify_init(key, ctx, j + 1, None, nonce, public, shares[j + 1]) for j in range(vdaf.SHARES - 1)]


def output_sum(vdaf, key, ctx, m, nonce, rand):
    """Sum of the output shares held in the verification states of all aggregators."""
    inits = everyone(vdaf, key, ctx, m, nonce, rand)
    outs = [x[0][0] for x in inits]
    n = len(outs[0])
    return [sum([o[i] for o in outs], vdaf.flp.field(0)) for i in range(n)]


def verifier_sum(vdaf, key, ctx, m, nonce, rand):
    """Sum of the verifier shares of all aggregators."""
    inits = everyone(vdaf, key, ctx, m, nonce, rand)
    outs = [x[1][0] for x in inits]
    n = len(outs[0])
    return [sum([o[i] for o in outs], vdaf.flp.field(0)) for i in range(n)]


def run(vdaf, key, ctx, m, nonce, rand, j):
    """The whole verification of an honest report; what aggregator j ends up with."""
    inits = everyone(vdaf, key, ctx, m, nonce, rand)
    message = vdaf.verifier_shares_to_message(ctx, None, [x[1] for x in inits])
    return vdaf.verify_next(ctx, inits[j][0], message)


def state_output(vdaf, key, ctx, m, nonce, rand, j):
    return everyone(vdaf, key, ctx, m, nonce, rand)[j][0][0]


def encoded(vdaf, m):
    return vdaf.flp.encode(m)


class AcceptFlp(Flp):
    """Accepts every proof."""

    def decide(self, verifier):
        return True


class AcceptAllFlp(AcceptFlp):
    """Accepts every proof; truncation keeps the whole measurement share."""

    def truncate(self, meas):
        return meas[:]


class QueryRandFlp(Flp):
    """Querying returns the query randomness."""

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        return query_rand[:]


class ShareCountFlp(Flp):
    """Querying returns the number of shares."""

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        return [self.field(num_shares)]


def result_sum(vdaf, key, ctx, m, nonce, rand):
    """Sum of what all aggregators release."""
    inits = everyone(vdaf, key, ctx, m, nonce, rand)
    message = vdaf.verifier_shares_to_message(ctx, None, [x[1] for x in inits])
    outs = [vdaf.verify_next(ctx, x[0], message) for x in inits]
    n = vdaf.flp.MEAS_LEN
    return [sum([o[i] for o in outs], vdaf.flp.field(0)) for i in range(n)]


def leader_verifier(vdaf, key, ctx, m, nonce, rand):
    return leader(vdaf, key, ctx, m, nonce, rand)[1][0]


def helper_verifier(vdaf, key, ctx, m, nonce, rand, j):
    return helper(vdaf, key, ctx, m, nonce, rand, j)[1][0]


def run_leader(vdaf, key, ctx, m, nonce, rand):
    return run(vdaf, key, ctx, m, nonce, rand, 0)


def output_leader(vdaf, key, ctx, m, nonce, rand):
    return leader(vdaf, key, ctx, m, nonce, rand)[0][0]


def output_helper(vdaf, key, ctx, m, nonce, rand, j):
    return helper(vdaf, key, ctx, m, nonce, rand, j)[0][0]


class MeasFlp(Flp):
    """Truncation and query both return the measurement share they are given."""

    def truncate(self, meas):
        return meas[:]

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        return meas[:]


def released(vdaf, key, ctx, j, nonce, public, share):
    return vdaf.verify_init(key, ctx, j, None, nonce, public, share)[0][0]


def queried(vdaf, key, ctx, j, nonce, public, share):
    return vdaf.verify_init(key, ctx, j, None, nonce, public, share)[1][0]
