"""P15: announced and produced lengths."""
from sa.check import *
from sa.circuits import *

LEVEL = 'proof'
R = Registry('P15', 'Lengths of encodings, truncations, circuit outputs and gadget inputs and the number of gadget calls are normalised for all parameters and compared with the '
             'announced attributes; length formulas are compared with their specification for symbolic arity, degree and number of calls')
NAMES = ('Count', 'Sum', 'Histogram', 'SumVec', 'MultihotCountVec')
CIRCUITS = [(c, (c,)) for c in NAMES]


def measurement(h, name):
    if name in ('Count', 'Sum', 'Histogram'):
        return h.int('m')
    return h.symlist('m', 'int' if name == 'SumVec' else 'bool')


@R.ob([c + '.encode' for c in NAMES], cases=CIRCUITS)
def encoded_length(r, name):
    h, F, v, *par = circuit(r, name)
    o = h.outcome('lengths:encoded', v, measurement(h, name))
    r.expect(h, o.term, ite(o.ok, mk('ret', h.attr(v, 'MEAS_LEN')), RAISE), 'an encoded measurement has the announced length')


@R.ob([c + '.truncate' for c in NAMES], cases=CIRCUITS)
def output_length(r, name):
    h, F, v, *par = circuit(r, name)
    meas = h.symlist('meas', 'felt', length=h.attr(v, 'MEAS_LEN'), field=F)
    r.expect(h, h.outcome('lengths:truncated', v, meas).term, mk('ret', h.attr(v, 'OUTPUT_LEN')), 'an output has the announced length')


@R.ob([c + '.eval' for c in NAMES], cases=CIRCUITS)
def circuit_output_and_gadget_calls(r, name):
    h, F, v, *par = circuit(r, name)
    n = h.int('num_shares', 1, 255)
    h.fact(psub(padd(n, ONE), TM.attr_int(F, 'MODULUS')))
    own = h.deep(h.call('lengths:own', v))
    calls, arity = index(own, pconst(4)), index(own, pconst(5))
    meas = h.symlist('meas', 'felt', length=h.attr(v, 'MEAS_LEN'), field=F)
    joint = h.symlist('joint_rand', 'felt', length=h.attr(v, 'JOINT_RAND_LEN'), field=F)
    outs = h.symlist('outs', 'felt', length=calls, field=F)
    r.expect(h, h.outcome('lengths:evaluated', v, meas, joint, outs, n).term, h.outcome('lengths:announced', v, calls, arity).term,
             'the circuit calls its gadget as often as announced, with inputs of its arity, and returns the announced number of outputs')


@R.ob([c + '.__init__' for c in NAMES], cases=CIRCUITS)
def announced_parameters(r, name):
    h, F, v, *par = circuit(r, name)
    r.expect(h, h.outcome('lengths:own', v).term, h.outcome('lengths:' + {'Sum': 'sum_'}.get(name, name.lower()), *par).term,
             'the announced lengths follow from the parameters')


@R.ob([c + '.eval' for c in NAMES], cases=[(c, (c, k)) for c in NAMES for k in ('measurement', 'joint randomness')])
def wrong_length_refused(r, name, which):
    h, F, v, *par = circuit(r, name)
    ml, jl = h.attr(v, 'MEAS_LEN'), h.attr(v, 'JOINT_RAND_LEN')
    d = h.int('other', 0)
    if which == 'measurement':
        ml0, ml = ml, d
        h.assume(bnot(eq0(psub(ml0, d))))
    else:
        jl0, jl = jl, d
        h.assume(bnot(eq0(psub(jl0, d))))
    own = h.deep(h.call('lengths:own', v))
    outs = h.symlist('outs', 'felt', length=index(own, pconst(4)), field=F)
    o = h.outcome('lengths:evaluated', v, h.symlist('meas', 'felt', length=ml, field=F), h.symlist('joint_rand', 'felt', length=jl, field=F), outs, ONE)
    r.expect(h, ite(o.ok, mk('ret', ONE), RAISE), RAISE, 'a circuit input of another length is refused')


def ints(h, name, n, lo):
    return [h.int('%s%d' % (name, i), lo) for i in range(n)]


@R.ob(['Valid.prove_rand_len', 'Valid.query_rand_len', 'Valid.proof_len', 'Valid.verifier_len'], cases=[('%d gadgets' % n, (n,)) for n in (1, 2, 3)])
def formulas(r, n):
    h = r.flow()
    v = h.obj('Valid', 'valid')
    ar, de, ca = ints(h, 'arity', n, 1), ints(h, 'degree', n, 1), ints(h, 'calls', n, 1)
    out = h.int('outputs', 1)
    gs = []
    for i in range(n):
        g = h.bare('Gadget', {'ARITY': ar[i], 'DEGREE': de[i]})
        gs.append(g)
    lst = lambda xs: h.list(seq('list', [U(x) for x in xs]))
    h.setattr(v, 'GADGETS', lst(gs))
    h.setattr(v, 'GADGET_CALLS', lst(ca))
    h.setattr(v, 'EVAL_OUTPUT_LEN', out)
    r.expect(h, h.outcome('lengths:sizes', v).term, h.outcome('lengths:sizes_spec', lst(ar), lst(de), lst(ca), out).term,
             'announced amounts of randomness and message lengths')


@R.ob(['FlpBBCGGI19.__init__'], cases=CIRCUITS)
def proof_system_announces_the_lengths_of_its_circuit(r, name):
    h, F, v, *par = circuit(r, name)
    r.expect(h, h.outcome('lengths:flp', mk('cls', 'FlpBBCGGI19'), v).term, h.outcome('lengths:flp_spec', v).term, 'lengths of the proof system')
