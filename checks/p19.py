"""P19: prime-field arithmetic."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P19', 'Field constants are folded from the class bodies and tested arithmetically; the bodies of the operators are normalised over symbolic operands of a field '
             'with symbolic modulus and of every concrete field and compared with modular integer arithmetic')

CFG = dict(raw_field=True)
OPS = {'add': 2, 'iadd': 2, 'sub': 2, 'isub': 2, 'mul': 2, 'imul': 2, 'neg': 1, 'inverse': 1, 'equal': 2, 'power': 1}


def fields(p):
    return [n for n in concrete_fields(p) if p.classes[n].module.name.endswith('.field')]


def cases(p):
    return [('any field', (None,))] + [(n, (n,)) for n in fields(p)]


def ntt_fields(p):
    return [(n, (n,)) for n in fields(p) if p.classes[n].isa('NttField')]


def get(r, name):
    h = r.flow(Config(**CFG))
    if name is None:
        F = sym('field', ('cls', 'Field'))
        field_facts(h, F)
    else:
        concrete_fields(h.p)
        F = mk('cls', name)
    return h, F


def constant(h, F, name):
    v = const_of(h.attr(F, name))
    if v is None:
        raise Unsup('%s is not a constant' % name)
    return v


def prime(n):
    """Miller-Rabin with the first forty primes, and the strong Lucas test for what they leave open."""
    if n < 2:
        return False
    small = [q for q in range(2, 180) if all(q % d for d in range(2, q))][:40]
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for q in small:
        x = pow(q, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    from sympy import isprime
    return isprime(n)


def say(r, h, ok, what, cls):
    r.decide(ok, what, cls)


@R.ob(['Field'], cases=lambda p: [(n, (n,)) for n in fields(p)])
def modulus_is_prime(r, name):
    h, F = get(r, name)
    m = constant(h, F, 'MODULUS')
    say(r, h, prime(m) and m > 2, 'the modulus of %s is an odd prime' % name, name)


@R.ob(['Field'], cases=lambda p: [(n, (n,)) for n in fields(p)])
def encoded_size_fits_modulus(r, name):
    h, F = get(r, name)
    m = constant(h, F, 'MODULUS')
    say(r, h, constant(h, F, 'ENCODED_SIZE') == (m.bit_length() + 7) // 8, 'the encoded size of %s is the number of bytes of its modulus' % name, name)


@R.ob(['NttField'], cases=ntt_fields)
def subgroup_order_is_a_power_of_two_dividing_the_group_order(r, name):
    h, F = get(r, name)
    m, n = constant(h, F, 'MODULUS'), constant(h, F, 'GEN_ORDER')
    say(r, h, n > 1 and n & (n - 1) == 0 and (m - 1) % n == 0, 'the subgroup order of %s is a power of two dividing the group order' % name, name)


@R.ob(['NttField'], cases=ntt_fields)
def generator_has_the_announced_order(r, name):
    h, F = get(r, name)
    m, n = constant(h, F, 'MODULUS'), constant(h, F, 'GEN_ORDER')
    g = const_of(h.call((h.call((F, 'gen')), 'int')))
    if g is None:
        raise Unsup('generator is not a constant')
    say(r, h, pow(g, n, m) == 1 and pow(g, n // 2, m) == m - 1, 'the generator of %s has exactly the announced order' % name, name)


@R.ob(['NttField.nth_root'], cases=ntt_fields)
def roots_of_unity(r, name):
    h, F = get(r, name)
    k = constant(h, F, 'GEN_ORDER').bit_length() - 1
    n = h.int('n', 0, k + 1)
    r.expect(h, h.outcome('fields:root', F, n).term, h.outcome('fields:root_spec', F, n, pconst(k)).term,
             'the 2^n-th root of unity of %s is the generator raised to the order divided by 2^n' % name)


@R.ob(['Field'], cases=lambda p: [('%s, %s' % (op, c), (op,) + a) for c, a in cases(p) for op in OPS])
def operator(r, op, name):
    h, F = get(r, name)
    m = h.attr(F, 'MODULUS')
    x, y = h.int('x', 0, m), h.int('y', 0, m)
    args = [F, x, y][:1 + OPS[op]]
    if op == 'power':
        args.append(h.int('n', 0))
    if op == 'inverse':
        h.assume(bnot(eq0(x)))
    spec = {'iadd': 'add', 'isub': 'sub', 'imul': 'mul'}.get(op, op)
    r.expect(h, h.outcome('fields:' + op, *args).term, h.outcome('fields:%s_spec' % spec, *args).term,
             '%s is the operation on residues modulo the modulus' % op)


@R.ob(['Field.__init__', 'Field.int'], cases=cases)
def integers_become_residues(r, name):
    h, F = get(r, name)
    m = h.attr(F, 'MODULUS')
    x = h.int('x', psub(ONE, m), m)
    r.expect(h, h.outcome('fields:made', F, x).term, h.outcome('fields:made_spec', F, x).term, 'an integer in range becomes its residue')


@R.ob(['Field.zeros'], cases=cases)
def zero_vector(r, name):
    h, F = get(r, name)
    n = h.int('n', 0)
    r.expect(h, h.outcome('fields:zeros', F, n).term, h.outcome('fields:zeros_spec', F, n).term, 'zeros(n) is n zeros')
