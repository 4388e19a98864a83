"""P14: determinism and freedom from side effects."""
from sa.check import *
from sa.effects import Effects
from sa.prio3 import *
from checks import p01, p02, p05, p12, p21
from checks.p22 import setup, real
from checks.p11 import LEVELS, flow as poplar1_flow, share as poplar1_share

LEVEL = 'proof'
R = Registry('P14', 'every operation is called twice on the same instance and arguments: both results are the same value and the instance and all arguments afterwards are what '
             'they were before')
R.bounds = 'IDPF evaluation at depth up to 3; the effect and hidden-state rules cover every function reachable from an operation'


TABLES = (LEN, FIELD, ELEM_LEN, TM.ITEM_LEN, TM.ITEM_FIELD)


def another(h, t):
    """Other values of the same shape."""
    if t.op == 'ref':
        c = h.st.heap[t.args[0]]
        return h.list(another(h, c.c)) if hasattr(c, 'c') else t
    if t.op == 'sym':
        s = sym("%s'" % t.args[0], *t.args[1:])
        for d in TABLES:
            if t in d:
                d[s] = d[t]
        return s
    if t.op == 'S':
        if len(t.args[1]) == 1 and t.args[1][0].op != 'u':
            x = t.args[1][0].args[0]
            return wrap(another(h, x)) if x.op == 'sym' else t
        return seq(t.args[0], [U(another(h, e.args[0])) if e.op == 'u' else e for e in t.args[1]])
    return t


def pure(r, h, ref, name, *args, fixed=()):
    """Calling the method changes neither the object nor the arguments, and no call influences a later one."""
    f = h.I.getattr_(ref, name, h.st, None) if ref is not None else name
    h.I.public = True
    a = tup(*args)
    w = tup(*(args if ref is None else (ref,) + args))
    before = h.deep(w)
    r.expect(h, h.outcome('effects:twice', f, a, w).term, h.outcome('effects:once', f, a, before).term, 'the same result twice, instance and arguments unchanged')
    b = tup(*(x if i in fixed else another(h, x) for i, x in enumerate(args)))
    if any(x is not y for x, y in zip(h.deep(a).args[1], h.deep(b).args[1])):
        r.expect(h, h.outcome('effects:after', f, a, b).term, h.outcome('effects:alone', f, a, b).term, 'no influence of an earlier call')


@R.ob(['Prio3.shard'], cases=JOINT)
def prio3_shard(r, joint):
    x = P3(r, joint)
    pure(r, x.h, x.v, 'shard', *x.report())


@R.ob(['Prio3.verify_init'], cases=[('leader, ' + l, (0,) + a) for l, a in JOINT] + [('helper, ' + l, (1,) + a) for l, a in JOINT])
def prio3_verify_init(r, helper, joint):
    x = P3(r, joint)
    h = x.h
    pure(r, h, x.v, 'verify_init', h.bytes('key'), h.bytes('ctx'), h.int('j', 1, x.shares) if helper else ZERO, NONE, h.bytes('nonce', h.attr(x.v, 'NONCE_SIZE')),
         x.parts(), x.helper_share() if helper else x.leader_share())


@R.ob(['Prio3.verifier_shares_to_message'], cases=[('%d shares, %s' % (n, l), (n,) + a) for n in (2, 3) for l, a in JOINT])
def prio3_combination(r, n, joint):
    x = P3(r, joint)
    h = x.h
    shares = h.list(seq('list', [U(tup(x.vec('verifiers%d' % i, pmul(x.A('VERIFIER_LEN'), x.proofs)), x.sd('part%d' % i))) for i in range(n)]))
    pure(r, h, x.v, 'verifier_shares_to_message', h.bytes('ctx'), NONE, shares)


@R.ob(['Prio3.verify_next'], cases=JOINT)
def prio3_verify_next(r, joint):
    x = P3(r, joint)
    h = x.h
    pure(r, h, x.v, 'verify_next', h.bytes('ctx'), tup(x.vec('out', x.A('OUTPUT_LEN')), x.sd('own')), x.sd('agreed'))


def aggregation(r, h, v, param, F, n, length):
    vec = lambda name: h.symlist(name, 'felt', length=length, field=F)
    shares = h.list(seq('list', [U(vec('share%d' % i)) for i in range(n)]))
    pure(r, h, v, 'agg_init', param)
    pure(r, h, v, 'agg_update', param, vec('agg'), vec('out'))
    pure(r, h, v, 'merge', param, shares)
    pure(r, h, v, 'unshard', param, shares, h.int('num_measurements', 1))


@R.ob(['Prio3.agg_init', 'Prio3.agg_update', 'Prio3.merge', 'Prio3.unshard'], cases=[('%d shares' % n, (n,)) for n in (1, 2, 3)])
def prio3_aggregation(r, n):
    x = P3(r, 0)
    aggregation(r, x.h, x.v, NONE, x.F, n, x.A('OUTPUT_LEN'))


@R.ob(['Poplar1.agg_init', 'Poplar1.agg_update', 'Poplar1.merge', 'Poplar1.unshard'], cases=[('%s, %d shares' % (l, n), a + (n,)) for l, a in LEVELS for n in (1, 2)])
def poplar1_aggregation(r, which, n):
    h, v, bits, level, prefixes, F = poplar1_flow(r, which)
    aggregation(r, h, v, tup(level, prefixes), F, n, seqlen(prefixes))


@R.ob(['Poplar1.shard'])
def poplar1_shard(r):
    h = r.flow()
    v, bits = poplar1_obj(h, idpf='ProbeIdpf')
    pure(r, h, v, 'shard', h.bytes('ctx'), wrap(sym('measurement', ('tuple', 'bool'))), h.bytes('nonce', pconst(16)), h.bytes('rand', h.attr(v, 'RAND_SIZE')))


@R.ob(['Poplar1.verify_init'], cases=[('%s, aggregator %d' % (l, j), (w, j)) for l, (w,) in LEVELS for j in (0, 1)])
def poplar1_verify_init(r, which, agg_id):
    h, v, bits, level, prefixes, F = poplar1_flow(r, which, 'OpaqueIdpf')
    vals = sym('idpf_output%d' % agg_id, ('list', ('list', 'felt')))
    LEN[vals] = seqlen(prefixes)
    TM.ITEM_LEN[vals] = pconst(2)
    ELEM_LEN[vals] = pconst(2)
    TM.ITEM_FIELD[vals] = F
    key, ctx, nonce = h.bytes('key'), h.bytes('ctx'), h.bytes('nonce', pconst(16))
    pub = h.symlist('public', 'any', length=bits)
    sh = poplar1_share(h, v, bits)
    idpf = h.attr(v, 'idpf')
    h.setattr(idpf, 'value', h.list(wrap(vals)))
    for n, y in (('agg_id', pconst(agg_id)), ('level', level), ('public', pub), ('key', h.bytes('idpf_key', pconst(16))), ('prefixes', prefixes),
                 ('ctx', ctx), ('nonce', nonce)):
        h.setattr(idpf, 'want_' + n, y)
    pure(r, h, v, 'verify_init', key, ctx, pconst(agg_id), tup(level, prefixes), nonce, pub, sh)


@R.ob(['Poplar1.verifier_shares_to_message'], cases=LEVELS)
def poplar1_combination(r, which):
    h, v, bits, level, prefixes, F = poplar1_flow(r, which)
    for n in (1, 3):
        shares = h.list(seq('list', [U(h.symlist('share%d' % i, 'felt', length=pconst(n), field=F)) for i in range(2)]))
        pure(r, h, v, 'verifier_shares_to_message', h.bytes('ctx'), tup(level, prefixes), shares)


@R.ob(['Poplar1.verify_next'], cases=LEVELS)
def poplar1_verify_next(r, which):
    h, v, bits, level, prefixes, F = poplar1_flow(r, which)
    mem = h.symlist('mem', 'felt', field=F, length=padd(pconst(3), seqlen(prefixes)))
    step = h.bytes('step')
    for msg in (NONE, h.symlist('message', 'felt', field=F)):
        pure(r, h, v, 'verify_next', h.bytes('ctx'), tup(step, level, mem), msg)


def circuit(r, name, par):
    h, F, m, sizes = setup(r, 'real', (name, par))
    return h, F, h.I.construct(mk('cls', 'FlpBBCGGI19'), [h.I.call(m, [F], {}, h.st, None)], {}, h.st, None), sizes


def owned(h, F, name, n):
    """A list of separate elements."""
    return h.list(seq('list', [U(h.felt('%s%d' % (name, i), F)) for i in range(n)]))


@R.ob(['FlpBBCGGI19.prove', 'ProveGadget'], cases=real)
def proof(r, kind, what):
    h, F, flp, (ml, jl, pl, ql, prl, vl) = circuit(r, *what)
    pure(r, h, flp, 'prove', owned(h, F, 'meas', ml), owned(h, F, 'prove_rand', pl), owned(h, F, 'joint_rand', jl))


@R.ob(['FlpBBCGGI19.query', 'QueryGadget'], cases=real)
def query(r, kind, what):
    h, F, flp, (ml, jl, pl, ql, prl, vl) = circuit(r, *what)
    pure(r, h, flp, 'query', owned(h, F, 'meas', ml), owned(h, F, 'proof', prl), owned(h, F, 'query_rand', ql), owned(h, F, 'joint_rand', jl), h.int('num_shares', 1, 256))


@R.ob(['FlpBBCGGI19.decide'], cases=real)
def decision(r, kind, what):
    h, F, flp, (ml, jl, pl, ql, prl, vl) = circuit(r, *what)
    pure(r, h, flp, 'decide', owned(h, F, 'verifier', vl))


@R.ob(['FlpBBCGGI19.truncate', 'FlpBBCGGI19.decode'], cases=real)
def outputs(r, kind, what):
    h, F, flp, (ml, *_) = circuit(r, *what)
    pure(r, h, flp, 'truncate', owned(h, F, 'meas', ml))
    pure(r, h, flp, 'decode', owned(h, F, 'output', const_of(h.attr(flp, 'OUTPUT_LEN'))), h.int('num_measurements', 1))


@R.ob(['IdpfBBCGGI21.gen'], cases=[('path %s' % p21.shown(d, a), (d, a)) for d, a in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 5))])
def idpf_gen(r, depth, a):
    h, i, inner, leaf, ctx, nonce, rand = p21.setup(r, depth)
    pure(r, h, i, 'gen', p21.bits(depth, a), inner, leaf, ctx, nonce, rand)


@R.ob(['IdpfBBCGGI21.eval'], cases=[('depth %d, level %d, party %d' % (d, l, a), (d, l, a)) for d in (1, 2, 3) for l in range(d) for a in (0, 1)])
def idpf_eval(r, depth, level, party):
    h, i, inner, leaf, ctx, nonce, rand = p21.setup(r, depth)
    n = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(p21.word(h, i, n, k, h.attr(i, 'field_inner' if k < depth - 1 else 'field_leaf'))) for k in range(depth)]))
    pure(r, h, i, 'eval', pconst(party), pub, h.bytes('key', pconst(16)), pconst(level), tup(*(p21.bits(level + 1, k) for k in range(min(4 if depth < 3 else 2, 2 ** (level + 1))))), ctx, nonce, fixed=(1,))


@R.ob(['Prio3.is_valid'])
def prio3_validity(r):
    h = r.flow()
    pure(r, h, prio3_obj(h, 1)[0], 'is_valid', NONE, h.symlist('previous', 'any'))


@R.ob(['Poplar1.is_valid'], cases=LEVELS)
def poplar1_validity(r, which):
    h = r.flow()
    v, bits = poplar1_obj(h)
    level, pre = poplar1_param(h, bits, which)
    last = h.int('last_level', 0, bits)
    prev = h.list(cat('list', wrap(sym('earlier', ('list', 'any'))), seq('list', [U(tup(last, p12.prefixes('last_prefixes', padd(last, ONE))))])))
    pure(r, h, v, 'is_valid', tup(level, pre), prev)
    pure(r, h, v, 'is_valid', tup(level, pre), h.list(seq('list', [])))


@R.ob(['Prio3.encode_input_share', 'Prio3.decode_input_share'], cases=[('%s, %s' % (n, l), (n,) + a) for n in p01.NAMES for l, a in JOINT])
def prio3_codec(r, nm, joint):
    x = p01.setup(r, joint)
    h, v = x[0], x[1]
    m = nm.split()[-1]
    val, dargs, _ = p01.messages(*x, joint)[nm]
    pure(r, h, v, 'encode_' + m, val)
    pure(r, h, v, 'decode_' + m, *dargs, h.bytes('enc'))


@R.ob(['Poplar1.encode_input_share', 'Poplar1.decode_input_share'])
def poplar1_share_codec(r):
    h, v, bits = p02.poplar(r)
    pure(r, h, v, 'encode_input_share', p02.share(h, v, bits))
    pure(r, h, v, 'decode_input_share', h.int('agg_id', 0, 2), h.bytes('enc'))


@R.ob(['Poplar1.encode_verifier_share', 'Poplar1.decode_verifier_share'],
      cases=[('%s, %s' % (m, l), (m, w)) for m in ('verifier_share', 'verifier_message', 'out_share', 'agg_share') for l, (w,) in LEVELS])
def poplar1_codec(r, m, which):
    h, v, bits = p02.poplar(r)
    F, dargs = p02.vec_args(h, v, bits, which, m)
    pure(r, h, v, 'encode_' + m, h.symlist('vec', 'felt', field=F))
    pure(r, h, v, 'decode_' + m, *dargs, h.bytes('enc'))


@R.ob(['IdpfBBCGGI21.encode_public_share', 'IdpfBBCGGI21.decode_public_share'], cases=[('depth %d' % k, (k,)) for k in (1, 2, 4, 5)])
def idpf_codec(r, k):
    h, i, bits, n = p02.idpf(r, k)
    pub = h.list(seq('list', [U(p21.word(h, i, n, j, h.attr(i, 'field_inner' if j < k - 1 else 'field_leaf'))) for j in range(k)]))
    pure(r, h, i, 'encode_public_share', pub)
    pure(r, h, i, 'decode_public_share', h.bytes('enc'))


@R.ob(['PingPong.ping_pong_leader_init', 'PingPong.ping_pong_helper_init'], cases=[('leader', ('leader',)), ('helper', ('helper',))])
def ping_pong_start(r, who):
    h, v = p05.party(r)
    pure(r, h, v, 'ping_pong_%s_init' % who,
         *[h.bytes(x) for x in ('key', 'ctx', 'agg_param', 'nonce', 'public_share', 'input_share') + (('inbound',) if who == 'helper' else ())])


@R.ob(['PingPong.ping_pong_leader_continued', 'PingPong.ping_pong_helper_continued'], cases=[('leader', ('leader',)), ('helper', ('helper',))])
def ping_pong_continuation(r, who):
    h, v = p05.party(r)
    state = h.I.construct(mk('cls', 'Continued'), [sym('verify_state', 'any'), h.int('verify_round', 0), h.bytes('outbound')], {}, h.st, None)
    pure(r, h, v, 'ping_pong_%s_continued' % who, h.bytes('ctx'), h.bytes('agg_param'), state, h.bytes('inbound'))


OPERATIONS = ('shard', 'is_valid', 'verify_init', 'verify_next', 'verifier_shares_to_message', 'agg_init', 'agg_update', 'merge', 'unshard', 'prep', 'domain_separation_tag')
FAMILIES = {'Vdaf': OPERATIONS, 'Daf': OPERATIONS, 'Flp': ('prove', 'query', 'decide', 'encode', 'truncate', 'decode'), 'Valid': ('eval', 'encode', 'truncate', 'decode'),
            'Gadget': ('eval', 'eval_poly'), 'Idpf': ('gen', 'eval', 'is_prefix'), 'PingPong': (), 'Xof': ('next', 'next_vec', 'derive_seed', 'expand_into_vec')}


def operations(p):
    """Methods a caller uses, in every class of the tree."""
    out = []
    for c in p.classes.values():
        if not c.module.name.startswith('vdaf_poc.') or c.module.name.endswith('test_utils'):
            continue
        for fam, names in FAMILIES.items():
            if c.isa(fam):
                out += [f for n, f in c.methods.items() if n in names or n.startswith(('encode_', 'decode_', 'ping_pong_')) and not f.abstract]
    return list(dict.fromkeys(out))


def route(path):
    return ' -> '.join(f.qual for f in path)


@R.ob(['Prio3.shard', 'Poplar1.shard'], rule='no value of a random source, clock, environment or file reaches the result of a function on the call graph of the operations')
def hidden_inputs(r):
    e = Effects(r.p)
    ops = operations(r.p)
    reached = e.reach(ops)
    r.stats['functions on the call graph'] = len(reached)
    bad = e.hidden(reached)
    for f in ops:
        if f in bad:
            raise Violated('%s depends on %s' % (f.qual, bad[f][0]), 'read at %s' % e.where(f, bad[f][1]), e.where(f, bad[f][1]))


@R.ob(['Prio3.shard', 'Poplar1.shard'], rule='every write on that call graph to module, class or instance state or to a default argument is keyed by all that the stored value depends on')
def lasting_state(r):
    e = Effects(r.p)
    reached = e.reach(operations(r.p))
    r.stats['functions on the call graph'] = len(reached)
    found, n = e.state(reached)
    found += e.shared_results(reached)
    r.stats['state writes'] = n
    for f, node, what in found:
        raise Violated(what, 'reached by %s' % route(reached[f]), e.where(f, node))
