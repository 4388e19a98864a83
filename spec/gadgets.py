"""Evaluating a circuit with the outputs of its gadget given, as the shares are."""


class Tap:
    """Records the inputs of every call and returns the given outputs in turn."""

    def __init__(self, outs):
        self.outs = outs
        self.wires = []
        self.k = 0

    def eval(self, field, inp):
        self.wires.append(inp)
        out = self.outs[self.k]
        self.k += 1
        return out


def tapped(valid, meas, joint_rand, outs, num_shares):
    """Circuit output and all wire values."""
    tap = Tap(outs)
    valid.GADGETS = [tap]
    out = valid.eval(meas, joint_rand, num_shares)
    return out, tap.wires


def combined(field, valid, meas, joint_rand, outs, num_shares):
    """Sum over the shares of what each of them computes."""
    calls, arity = valid.GADGET_CALLS[0], valid.GADGETS[0].ARITY
    valid.GADGETS = []
    parts = [tapped(valid, meas[s], joint_rand, outs[s], num_shares) for s in range(num_shares)]
    return total(field, [p[0] for p in parts], valid.EVAL_OUTPUT_LEN), [total(field, [p[1][i] for p in parts], arity) for i in range(calls)]


def combined_truncation(field, valid, meas):
    return total(field, [valid.truncate(x) for x in meas], valid.OUTPUT_LEN)


def whole_truncation(field, valid, meas):
    return valid.truncate(total(field, meas, valid.MEAS_LEN))


def total(field, shares, length):
    """Sum of the shares."""
    return [sum([x[i] for x in shares], field(0)) for i in range(length)]


def whole(field, valid, meas, joint_rand, outs):
    """What the sums of the shares give without sharing."""
    return tapped(valid, total(field, meas, valid.MEAS_LEN), joint_rand, total(field, outs, valid.GADGET_CALLS[0]), 1)
