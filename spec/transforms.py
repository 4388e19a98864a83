"""Polynomials by their definition."""
from vdaf_poc.field import Lagrange, poly_add, poly_eval, poly_interp, poly_mul, poly_strip


def root(field, n):
    """A primitive n-th root of unity, n a power of two."""
    return field.gen() ** (field.GEN_ORDER // n)


def value(field, p, x):
    """Value at x of the polynomial with coefficients p."""
    return sum([p[j] * x ** j for j in range(len(p))], field(0))


def ntt(field, p, n, shifted):
    s = root(field, 2 * n) if shifted else field(1)
    return [value(field, p, s * root(field, n) ** i) for i in range(n)]


def inv_ntt(field, p, n):
    w = root(field, n).inv()
    return [field(n).inv() * value(field, p, w ** k) for k in range(n)]


def basis(field, points, x):
    """Values at x of the Lagrange polynomials of the points."""
    out = []
    for i in range(len(points)):
        c = field(1)
        for j in range(len(points)):
            if j != i:
                c = c * (x - points[j]) * (points[i] - points[j]).inv()
        out.append(c)
    return out


def points(field, n):
    return [root(field, n) ** i for i in range(n)]


def lagrange_value(field, p, x):
    b = basis(field, points(field, len(p)), x)
    return sum([p[i] * b[i] for i in range(len(p))], field(0))


def extended(field, p, n):
    xs = points(field, n)
    out = [y for y in p]
    for k in range(len(p), n):
        b = basis(field, xs[:len(p)], xs[k])
        out.append(sum([p[i] * b[i] for i in range(len(p))], field(0)))
    return out


def doubled(field, p):
    n = len(p)
    w = root(field, 2 * n)
    return [p[k // 2] if k % 2 == 0 else lagrange_value(field, p, w ** k) for k in range(2 * n)]


def product(field, p, q):
    a = doubled(field, p)
    b = doubled(field, q)
    return [a[k] * b[k] for k in range(len(a))]


def strip(field, p):
    """Without the zeros at the end."""
    n = len(p)
    while n > 0:
        if p[n - 1] != field(0):
            return [p[i] for i in range(n)]
        n -= 1
    return []


def mon_product(field, p, q):
    return strip(field, [sum([p[i] * q[k - i] for i in range(len(p)) if 0 <= k - i and k - i < len(q)], field(0))
                         for k in range(max(0, len(p) + len(q) - 1))])


def mon_sum(field, p, q):
    return strip(field, [(p[k] if k < len(p) else field(0)) + (q[k] if k < len(q) else field(0)) for k in range(max(len(p), len(q)))])


def repo_ntt(field, p, n, shifted):
    return field.ntt(p, n, shifted)


def repo_ntt_plain(field, p, n):
    return field.ntt(p, n)


def repo_inv(field, p, n):
    return field.inv_ntt(p, n)


def repo_extend(field, p, n):
    Lagrange(field).extend_values_to_power_of_2(p, n)
    return p


def repo_double(field, p):
    return Lagrange(field).double_evaluations(p)


def repo_product(field, p, q):
    return Lagrange(field).poly_mul(p, q)


def repo_values(field, polys, x):
    return Lagrange(field).poly_eval_batched(polys, x)


def lagrange_values(field, polys, x):
    return [lagrange_value(field, p, x) for p in polys]


def repo_value(field, p, x):
    return Lagrange(field).poly_eval(p, x)


def repo_interp(field, xs, ys):
    p = poly_interp(field, xs, ys)
    return [len(p) <= len(xs)] + [value(field, p, x) for x in xs]


def interp(field, xs, ys):
    return [True] + ys
