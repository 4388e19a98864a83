"""Aggregation as vector addition."""


def init(field, length):
    return [field(0) for i in range(length)]


def update(left, right):
    if len(left) != len(right):
        raise ValueError()
    return [left[i] + right[i] for i in range(len(left))]


def merge(field, length, shares):
    for k in range(len(shares)):
        if len(shares[k]) != length:
            raise ValueError()
    return [sum([shares[k][i] for k in range(len(shares))], field(0)) for i in range(length)]


def ints(vec):
    return [vec[i].int() for i in range(len(vec))]
