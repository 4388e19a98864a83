"""P32: the driver of proof systems."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P32', 'For an arbitrary proof system, field and vector length the driver reduces to the decision over the sum of the queries on additive shares, and the shares sum to the vector')
R.bounds = 'up to twelve shares'


def draw(counts):
    """Draws of one length are numbered."""
    def hook(I, st, f, args, kw, node):
        env, names = I.bind(f, args, kw, st, node)
        F, n = env[names[0]], env[names[1]]
        k = counts[n] = counts.get(n, 0) + 1
        t = I.mkcall('draw', [F, n, pconst(k)], ('list', 'felt'))
        return I.newlist(st, wrap(t))
    return hook


TM.CALL_FIELD['draw'] = lambda t: t.args[1][0]
TM.CALL_LEN['draw'] = lambda t: t.args[1][1]


def flow(r):
    """The flow, the proof system, its field, and a function that forgets the draws made so far."""
    counts = {}
    h = r.flow(Config(hooks={'Field.rand_vec': draw(counts)}))
    flp = flp_obj(h, 1)
    return h, flp, FLP_FIELD[sym('flp', ('obj', 'Flp'))], counts.clear


@R.ob(['additive_secret_share'], cases=[('%d shares' % n, (n,)) for n in (1, 2, 3, 5, 8, 12)])
def shares(r, n):
    h, flp, F, again = flow(r)
    v = h.symlist('vec', 'felt', field=F)
    got = h.outcome('flp:additive_secret_share', v, pconst(n), F).term
    again()
    r.expect(h, got, h.outcome('flprun:shares', F, v, pconst(n)).term, 'fresh masks and the masked vector')


@R.ob(['additive_secret_share'])
def any_number_of_shares(r):
    h, flp, F, again = flow(r)
    v = h.symlist('vec', 'felt', field=F)
    r.expect(h, h.outcome('flprun:shares_sum', F, v, h.int('n', 1)).term, h.outcome('flprun:same', F, v).term, 'the shares sum to the vector')


@R.ob(['run_flp'], cases=[('%d shares' % n, (n,)) for n in (1, 2, 3, 5, 9, 12)] + [('%d shares, fixed lengths' % n, (n, 1)) for n in (1, 2, 3)])
def driver(r, n, fixed=0):
    h, flp, F, again = flow(r)
    if fixed:
        b = sym('flp', ('obj', 'Flp'))
        for a, k in (('JOINT_RAND_LEN', 2), ('PROVE_RAND_LEN', 3), ('QUERY_RAND_LEN', 5)):
            TM.CLS_CONST[(b, a)] = pconst(k)
    v = h.symlist('meas', 'felt', field=F)
    got = h.outcome('flp:run_flp', flp, v, pconst(n)).term
    again()
    r.expect(h, got, h.outcome('flprun:run', flp, v, pconst(n)).term, 'decision')


@R.ob(['Field.rand_vec'], cases=lambda p: [(n, (n,)) for n in ('any field',) + tuple(sorted(concrete_fields(p)))])
def random_vectors(r, name):
    h = r.flow()
    if name == 'any field':
        F = sym('field', ('cls', 'NttField'))
        field_facts(h, F)
    else:
        concrete_fields(h.p)
        F = mk('cls', name)
    n = h.int('length', 0)
    r.expect(h, h.outcome((F, 'rand_vec'), n).term, h.outcome('flprun:uniform', F, n).term, 'uniform elements')
