"""P26: transforms and polynomial arithmetic."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P26', 'With free field elements as coefficients, every routine reduces to linear or bilinear forms with folded constants, compared with the definition of the '
             'transform, product, evaluation and interpolation')
R.bounds = 'transforms of up to 64 values, Lagrange-basis routines of up to 32 values, monomial polynomials of up to 5 coefficients, interpolation through up to 3 points'
BIG = [('Field64', 32), ('Field96', 32), ('Field128', 64)]
FIELDS = ('Field64', 'Field96', 'Field128')


def flow(r, unroll=256):
    h = r.flow(Config(unroll=unroll))
    for name in concrete_fields(h.p):
        F = mk('cls', name)
        TM.FOLD[F] = const_of(TM.CLS_CONST[F, 'MODULUS'])
    return h


def vec(h, F, name, n):
    return h.symlist(name, 'felt', length=pconst(n), field=F)


@R.ob(['NttField.ntt'], cases=[('%s, %d of %d%s' % (f, m, n, ', shifted' if s else ''), (f, m, n, s)) for f in FIELDS for n in (1, 2, 4, 8, 16) for m in sorted({0, 1, n - 1, n})
                               for s in (False, True) if n < 16 or m == n]
      + [('%s, %d of %d%s' % (f, n, n, ', shifted' if s else ''), (f, n, n, s)) for f, n in BIG for s in (False, True)])
def transform(r, f, m, n, shifted):
    h = flow(r)
    F = mk('cls', f)
    p = [vec(h, F, 'p', m) for _ in range(2)]
    got = h.outcome('transforms:repo_ntt', F, p[0], pconst(n), TRUE if shifted else FALSE)
    r.expect(h, got.term, h.outcome('transforms:ntt', F, p[1], pconst(n), TRUE if shifted else FALSE).term, 'values at the powers of the root of unity')


@R.ob(['NttField.inv_ntt'], cases=[('%s, %d' % (f, n), (f, n)) for f in FIELDS for n in (1, 2, 4, 8, 16)] + [('%s, %d' % b, b) for b in BIG])
def inverse(r, f, n):
    h = flow(r)
    F = mk('cls', f)
    r.expect(h, h.outcome('transforms:repo_inv', F, vec(h, F, 'p', n), pconst(n)).term, h.outcome('transforms:inv_ntt', F, vec(h, F, 'p', n), pconst(n)).term,
             'coefficients of the polynomial with these values')


@R.ob(['Lagrange.poly_eval', 'Lagrange.poly_eval_batched'], cases=[('%s, %d polynomials of %d values' % (f, k, n), (f, k, n)) for f in FIELDS for k, n in ((1, 1), (2, 2), (3, 4), (1, 8), (2, 8), (2, 16))])
def lagrange_evaluation(r, f, k, n):
    h = flow(r)
    F = mk('cls', f)
    x = h.felt('x', F)
    ps = [vec(h, F, 'p%d' % i, n) for i in range(k)]
    polys = h.list(seq('list', [U(p) for p in ps]))
    r.expect(h, h.outcome('transforms:repo_values', F, polys, x).term, h.outcome('transforms:lagrange_values', F, polys, x).term,
             'value of the interpolating polynomial')
    r.expect(h, h.outcome('transforms:repo_value', F, ps[0], x).term, h.outcome('transforms:lagrange_value', F, ps[0], x).term,
             'value of the interpolating polynomial')


@R.ob(['Lagrange.extend_values_to_power_of_2'], cases=[('%s, %d to %d' % (f, m, n), (f, m, n)) for f in FIELDS for m, n in ((1, 1), (1, 2), (2, 2), (1, 4), (2, 4), (3, 4), (4, 4), (3, 8), (5, 8), (7, 8), (9, 16), (13, 16), (15, 16), (19, 32), (31, 32))])
def lagrange_extension(r, f, m, n):
    h = flow(r)
    F = mk('cls', f)
    r.expect(h, h.outcome('transforms:repo_extend', F, vec(h, F, 'p', m), pconst(n)).term, h.outcome('transforms:extended', F, vec(h, F, 'p', m), pconst(n)).term,
             'the values given and the further values of the same polynomial')


@R.ob(['Lagrange.double_evaluations'], cases=[('%s, %d' % (f, n), (f, n)) for f in FIELDS for n in (1, 2, 4, 8, 16, 32)])
def lagrange_doubling(r, f, n):
    h = flow(r)
    F = mk('cls', f)
    r.expect(h, h.outcome('transforms:repo_double', F, vec(h, F, 'p', n)).term, h.outcome('transforms:doubled', F, vec(h, F, 'p', n)).term,
             'values at twice as many points')


@R.ob(['Lagrange.poly_mul'], cases=[('%s, %d' % (f, n), (f, n)) for f in FIELDS for n in (1, 2, 4, 8, 16, 32)])
def lagrange_product(r, f, n):
    h = flow(r)
    F = mk('cls', f)
    a = [(vec(h, F, 'p', n), vec(h, F, 'q', n)) for _ in range(2)]
    r.expect(h, h.outcome('transforms:repo_product', F, *a[0]).term, h.outcome('transforms:product', F, *a[1]).term, 'values of the product at twice as many points')


@R.ob(['poly_strip'], cases=[('%d coefficients' % n, (n,)) for n in range(6)])
def monomial_strip(r, n):
    h = flow(r)
    F = mk('cls', 'Field64')
    r.expect(h, h.outcome('poly_strip', F, vec(h, F, 'p', n)).term, h.outcome('transforms:strip', F, vec(h, F, 'p', n)).term, 'zeros at the end are removed')


@R.ob(['poly_mul', 'poly_add'], cases=[('%s of %d and %d' % (w, m, n), (w, m, n)) for w in ('product', 'sum') for m, n in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 3), (2, 2), (3, 2), (2, 4))])
def monomial_arithmetic(r, w, m, n):
    h = flow(r)
    F = mk('cls', 'Field64')
    r.expect(h, h.outcome('poly_mul' if w == 'product' else 'poly_add', F, vec(h, F, 'p', m), vec(h, F, 'q', n)).term,
             h.outcome('transforms:mon_' + w, F, vec(h, F, 'p', m), vec(h, F, 'q', n)).term, w)


@R.ob(['poly_eval'], cases=[('%d coefficients' % n, (n,)) for n in range(6)])
def monomial_evaluation(r, n):
    h = flow(r)
    F = mk('cls', 'Field64')
    x = h.felt('x', F)
    r.expect(h, h.outcome('poly_eval', F, vec(h, F, 'p', n), x).term, h.outcome('transforms:value', F, vec(h, F, 'p', n), x).term, 'value')


@R.ob(['poly_interp'], cases=[('points %s' % (xs,), (xs,)) for xs in ((0,), (5,), (0, 1), (7, 3), (0, 1, 2), (1, 5, 11), (3, 2, 0))])
def interpolation(r, xs):
    h = flow(r)
    F = mk('cls', 'Field64')
    pts = h.list(seq('list', [U(embed(pconst(x), F)) for x in xs]))
    n = len(xs)
    r.expect(h, h.outcome('transforms:repo_interp', F, pts, vec(h, F, 'y', n)).term, h.outcome('transforms:interp', F, pts, vec(h, F, 'y', n)).term,
             'a polynomial of sufficiently small degree through the points')
