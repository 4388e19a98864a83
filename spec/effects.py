"""Calling an operation twice, and looking at what it was given afterwards."""


def twice(f, args, given):
    a = f(*args)
    b = f(*args)
    return (a, b, given)


def once(f, args, given):
    a = f(*args)
    return (a, a, given)


def after(f, earlier, args):
    f(*earlier)
    return f(*args)


def alone(f, earlier, args):
    r = f(*args)
    f(*earlier)
    return r
