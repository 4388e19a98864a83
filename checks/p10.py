"""P10: domain separation of every randomness derivation."""
from sa.check import *
from sa.prio3 import *
from sa.witness import subterms
from sa.show import show
from checks.p21 import setup, bits, shown, word

LEVEL = 'proof'
R = Registry('P10', 'every XOF construction that reaches the result of an operation is keyed by the specified seed under the specified tag '
             '(version, class, algorithm, usage, context) with the specified binder; algorithm identifiers are pairwise distinct constants')
R.bounds = 'IDPF node derivations at levels 0 and 1; everything else for any size'


def derivations(t):
    """The XOF inputs (seed, tag, binder) a result depends on."""
    return {x.args[1:] for x in subterms([t]) if x.op == 'xof'}


def same_derivations(r, h, got, want, what):
    a, b = derivations(got), derivations(want)
    r.stats['derivations'] = r.stats.get('derivations', 0) + len(a)
    if a == b:
        return
    try:
        r.expect(h, got, want, what)
    except Violated as e:
        ta, tb = {x[1] for x in a}, {x[1] for x in b}
        extra = '\n'.join(['  tag not specified for this operation: ' + show(x) for x in ta - tb] + ['  specified tag not used: ' + show(x) for x in tb - ta])
        raise Violated(e.what, (extra + '\n' if extra else '') + e.detail, e.site)


@R.ob(['Vdaf.domain_separation_tag', 'format_dst'], cases=[('Prio3', ('Prio3',)), ('Poplar1', ('Poplar1',))])
def tag_layout(r, which):
    h = r.flow()
    v = prio3_obj(h, 1)[0] if which == 'Prio3' else poplar1_obj(h)[0]
    usage, ctx = h.int('usage', 0, 65536), h.bytes('ctx')
    got = h.outcome((v, 'domain_separation_tag'), usage, ctx).term
    r.expect(h, got, h.outcome(which.lower() + ':tag', v, usage, ctx).term, 'version, class, algorithm, usage and context')


@R.ob(['Prio3.shard'], cases=JOINT)
def prio3_client(r, joint):
    x = P3(r, joint)
    h = x.h
    ctx, m, nonce, rand = x.report()
    same_derivations(r, h, h.outcome((x.v, 'shard'), ctx, m, nonce, rand).term, h.outcome('prio3:shard', x.v, ctx, m, nonce, rand).term, 'client derivations')


@R.ob(['Prio3.verify_init'], cases=[('leader, ' + l, (0,) + a) for l, a in JOINT] + [('helper, ' + l, (1,) + a) for l, a in JOINT])
def prio3_aggregator(r, helper, joint):
    x = P3(r, joint)
    h = x.h
    key, ctx, nonce, parts = h.bytes('key'), h.bytes('ctx'), h.bytes('nonce', h.attr(x.v, 'NONCE_SIZE')), x.parts()
    if helper:
        j, share = h.int('j', 1, x.shares), x.helper_share()
        want = h.outcome('prio3:verify_init_helper', x.v, key, ctx, j, nonce, parts, share).term
    else:
        j, share = ZERO, x.leader_share()
        want = h.outcome('prio3:verify_init_leader', x.v, key, ctx, nonce, parts, share).term
    same_derivations(r, h, h.outcome((x.v, 'verify_init'), key, ctx, j, NONE, nonce, parts, share).term, want, 'aggregator derivations')


@R.ob(['Poplar1.shard'])
def poplar1_client(r):
    h = r.flow()
    v, bits = poplar1_obj(h, idpf='ProbeIdpf')
    ctx, nonce, rand = h.bytes('ctx'), h.bytes('nonce', pconst(16)), h.bytes('rand', h.attr(v, 'RAND_SIZE'))
    m = wrap(sym('measurement', ('tuple', 'bool')))
    same_derivations(r, h, h.outcome((v, 'shard'), ctx, m, nonce, rand).term, h.outcome('poplar1:shard', v, ctx, m, nonce, rand).term, 'client derivations')


@R.ob(['Prio3.verifier_shares_to_message'])
def prio3_combination(r):
    x = P3(r, 1)
    h = x.h
    vs, ps = sym('verifiers', ('list', ('list', 'felt'))), sym('parts', ('list', 'bytes'))
    for s in (vs, ps):
        LEN[s] = x.shares
    TM.ITEM_FIELD[vs] = x.F
    TM.ITEM_LEN[ps] = ELEM_LEN[ps] = x.seed
    i = fresh(ZERO, x.shares)
    shares = h.list(seqmap(i, x.shares, seq('list', [U(mk('S', 'tuple', (U(index(wrap(vs), patom(i))), U(index(wrap(ps), patom(i))))))])))
    ctx = h.bytes('ctx')
    same_derivations(r, h, h.outcome((x.v, 'verifier_shares_to_message'), ctx, NONE, shares).term,
                     h.outcome('prio3:combine', x.v, ctx, h.list(wrap(vs)), h.list(wrap(ps))).term, 'derivations on combining shares')


@R.ob(['Poplar1.verify_init'], cases=[('%s level, aggregator %d' % (w, j), (w, j)) for w in ('inner', 'leaf') for j in (0, 1)])
def poplar1_aggregator(r, which, agg_id):
    from checks.p11 import sketch_flow
    h, got, want = sketch_flow(r, which, agg_id)
    same_derivations(r, h, got, want, 'aggregator derivations')


@R.ob(['IdpfBBCGGI21.eval'], cases=[('level %d, prefix %s, party %d' % (l, shown(l + 1, p), a), (l, p, a)) for l in (0, 1) for p in range(2 ** (l + 1)) for a in (0, 1)])
def idpf_evaluation(r, level, p, party):
    h, i, inner, leaf, ctx, nonce, rand = setup(r, 2)
    n = h.attr(i, 'VALUE_LEN')
    pub = h.list(seq('list', [U(word(h, i, n, 0, h.attr(i, 'field_inner'))), U(word(h, i, n, 1, h.attr(i, 'field_leaf')))]))
    key, pre = h.bytes('key', pconst(16)), bits(level + 1, p)
    got = h.outcome((i, 'eval'), pconst(party), pub, key, pconst(level), tup(pre), ctx, nonce).term
    want = h.outcome('idpf:walk', i, pconst(party), pub, key, pconst(level), pre, ctx, nonce).term
    same_derivations(r, h, got, want, 'derivations of one party')


def vdaf_classes(p):
    """Classes of the tree that announce an algorithm identifier."""
    out = []
    for name, c in sorted(p.classes.items()):
        if not c.module.name.startswith('spec.') and c.isa('Vdaf') and c.find_assign('ID') is not None:
            out.append(name)
    return out


@R.ob(['Vdaf'])
def identifiers_are_distinct(r):
    h = r.flow()
    ids = {}
    names = vdaf_classes(h.p)
    if not names:
        raise MissingAnchor('no class announces an algorithm identifier')
    for n in names:
        c = h.p.classes[n]
        v = const_of(h.attr(mk('cls', n), 'ID'))
        if v is None:
            raise Undecided('identifier of %s is not a constant' % n)
        if not 0 <= v < 2 ** 32:
            raise Violated('identifier out of range', '%s.ID = %d' % (n, v), '%s:%d %s' % (c.module.path, c.node.lineno, n))
        own = c.find_assign('ID')
        for m in ids.get(v, []):
            if h.p.classes[m].find_assign('ID') is not own:
                raise Violated('identifiers clash', '%s and %s both use %d' % (m, n, v), '%s:%d %s' % (c.module.path, c.node.lineno, n))
        ids.setdefault(v, []).append(n)
    r.stats['identifiers'] = len(names)
