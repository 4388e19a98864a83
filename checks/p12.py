"""P12: aggregation-parameter validity."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P12', 'is_valid reduces to the specified condition (quantifiers over prefixes kept symbolic), for any parameter and any history')


@R.ob(['Prio3.is_valid'])
def prio3_once(r):
    h = r.flow()
    v, flp = prio3_obj(h, 1)
    prev = h.symlist('previous', 'any')
    r.expect(h, h.outcome((v, 'is_valid'), NONE, prev).term, h.outcome('validity:prio3', prev).term, 'valid exactly once')


def prefixes(name, n):
    s = sym(name, ('tuple', ('tuple', 'bool')))
    TM.ITEM_LEN[s] = n
    ELEM_LEN[s] = n
    return wrap(s)


@R.ob(['Poplar1.is_valid'], cases=[('inner', ('inner',)), ('leaf', ('leaf',))])
def poplar1_first_use(r, which):
    h = r.flow()
    v, bits = poplar1_obj(h)
    level, pre = poplar1_param(h, bits, which)
    r.expect(h, h.outcome((v, 'is_valid'), tup(level, pre), h.list(seq('list', []))).term, h.outcome('validity:poplar1_first', pre).term,
             'first use: strictly increasing prefixes')


@R.ob(['Poplar1.is_valid'], cases=[('inner', ('inner',)), ('leaf', ('leaf',))])
def poplar1_repeated_use(r, which):
    h = r.flow()
    v, bits = poplar1_obj(h)
    level, pre = poplar1_param(h, bits, which)
    last = h.int('last_level', 0, bits)
    lastp = prefixes('last_prefixes', padd(last, ONE))
    earlier = sym('earlier', ('list', 'any'))
    prev = h.list(cat('list', wrap(earlier), seq('list', [U(tup(last, lastp))])))
    r.expect(h, h.outcome((v, 'is_valid'), tup(level, pre), prev).term, h.outcome('validity:poplar1_next', level, pre, last, lastp).term,
             'later use: level above the most recent one, prefixes extend the most recent ones')
