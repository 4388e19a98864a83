"""Arithmetic of a prime field in terms of integers."""


def made(field, x):
    c = field(x)
    return (c.MODULUS, c.int())


def made_spec(field, x):
    return (field.MODULUS, x % field.MODULUS)


def add(field, x, y):
    a = field(x)
    b = field(y)
    c = a + b
    return (c.MODULUS, c.int(), a.int(), b.int())


def add_spec(field, x, y):
    return (field.MODULUS, (x + y) % field.MODULUS, x, y)


def iadd(field, x, y):
    a = field(x)
    b = field(y)
    c = a
    c += b
    return (c.MODULUS, c.int(), a.int(), b.int())


def sub(field, x, y):
    a = field(x)
    b = field(y)
    c = a - b
    return (c.MODULUS, c.int(), a.int(), b.int())


def sub_spec(field, x, y):
    return (field.MODULUS, (x - y) % field.MODULUS, x, y)


def isub(field, x, y):
    a = field(x)
    b = field(y)
    c = a
    c -= b
    return (c.MODULUS, c.int(), a.int(), b.int())


def mul(field, x, y):
    a = field(x)
    b = field(y)
    c = a * b
    return (c.MODULUS, c.int(), a.int(), b.int())


def mul_spec(field, x, y):
    return (field.MODULUS, (x * y) % field.MODULUS, x, y)


def imul(field, x, y):
    a = field(x)
    b = field(y)
    c = a
    c *= b
    return (c.MODULUS, c.int(), a.int(), b.int())


def neg(field, x):
    a = field(x)
    c = -a
    return (c.MODULUS, c.int(), a.int())


def neg_spec(field, x):
    return (field.MODULUS, (-x) % field.MODULUS, x)


def power(field, x, n):
    a = field(x)
    c = a ** n
    return (c.MODULUS, c.int(), a.int())


def power_spec(field, x, n):
    return (field.MODULUS, pow(x, n, field.MODULUS), x)


def inverse(field, x):
    a = field(x)
    c = a.inv()
    return (c.MODULUS, c.int(), a.int())


def inverse_spec(field, x):
    return (field.MODULUS, pow(x, field.MODULUS - 2, field.MODULUS), x)


def equal(field, x, y):
    a = field(x)
    b = field(y)
    return (a == b, a != b, a.int(), b.int())


def equal_spec(field, x, y):
    return (x == y, x != y, x, y)


def zeros(field, n):
    return [x.int() for x in field.zeros(n)]


def zeros_spec(field, n):
    return [0 for i in range(n)]


def root(field, n):
    c = field.nth_root(n)
    return (c.MODULUS, c.int())


def root_spec(field, n, log_order):
    return (field.MODULUS, pow(field.gen().int(), 2 ** (log_order - n), field.MODULUS))
