"""P13: aggregation is exact addition."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P13', 'agg_init, agg_update, merge and unshard reduce to element-wise sums over the right field and length, for any number of shares '
             'and any lengths (mismatched lengths on the raise branch)')
ANY = [('Prio3', ('prio3',)), ('Poplar1 inner level', ('inner',)), ('Poplar1 leaf level', ('leaf',))]


def subject(h, which):
    """(instance, aggregation parameter, field, length)."""
    if which == 'prio3':
        v, flp = prio3_obj(h, 1)
        b = sym('flp', ('obj', 'Flp'))
        return v, NONE, flp_field(b), TM.attr_int(b, 'OUTPUT_LEN'), b
    v, bits = poplar1_obj(h)
    level, prefixes = poplar1_param(h, bits, which)
    F = h.attr(h.attr(v, 'idpf'), 'field_inner' if which == 'inner' else 'field_leaf')
    return v, tup(level, prefixes), F, seqlen(prefixes), None


def vec(h, name, F, length=None):
    return h.symlist(name, 'felt', field=F, length=length)


def shares(h, F, n=None):
    s = sym('shares', ('list', ('list', 'felt')))
    TM.ITEM_FIELD[s] = F
    if n is not None:
        LEN[s] = n
    return h.list(wrap(s))


@R.ob(['Prio3.agg_init', 'Poplar1.agg_init'], cases=ANY)
def empty_aggregate_is_zero(r, which):
    h = r.flow()
    v, ap, F, n, _ = subject(h, which)
    r.expect(h, h.outcome((v, 'agg_init'), ap).term, h.outcome('agg:init', F, n).term, 'agg_init is the zero vector')


@R.ob(['Prio3.agg_update', 'Poplar1.agg_update'], cases=ANY)
def update_adds(r, which):
    h = r.flow()
    v, ap, F, n, _ = subject(h, which)
    a, b = vec(h, 'agg', F), vec(h, 'out', F)
    r.expect(h, h.outcome((v, 'agg_update'), ap, a, b).term, h.outcome('agg:update', a, b).term, 'agg_update adds element by element')


@R.ob(['Prio3.merge', 'Poplar1.merge'], cases=ANY)
def merge_adds_all(r, which):
    h = r.flow()
    v, ap, F, n, _ = subject(h, which)
    s = shares(h, F)
    r.expect(h, h.outcome((v, 'merge'), ap, s).term, h.outcome('agg:merge', F, n, s).term, 'merge adds all shares')


@R.ob(['Prio3.unshard'], cases=ANY[:1])
def result_is_decoded_sum(r, which):
    h = r.flow()
    v, ap, F, n, b = subject(h, which)
    s = shares(h, F)
    m = h.int('num_measurements', 1)
    total = h.call('agg:merge', F, n, s)
    want = h.outcome((h.attr(v, 'flp'), 'decode'), total, m).term
    r.expect(h, h.outcome((v, 'unshard'), ap, s, m).term, want, 'unshard decodes the sum of the shares')


@R.ob(['Poplar1.unshard'], cases=ANY[1:])
def result_is_the_sum(r, which):
    h = r.flow()
    v, ap, F, n, b = subject(h, which)
    s = shares(h, F)
    m = h.int('num_measurements', 1)
    total = h.call('agg:merge', F, n, s)
    r.expect(h, h.outcome((v, 'unshard'), ap, s, m).term, h.outcome('agg:ints', total).term, 'unshard returns the sums')
