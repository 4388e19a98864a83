"""Symbolic inputs of Prio3 flows shared by several checks."""
from sa.harness import *

JOINT = [('joint randomness', (1,)), ('no joint randomness', (0,))]
# the same flows for fixed numbers of shares and proofs: loops are followed iteration by iteration, which decides loops that have no closed form
SIZED = JOINT + [('%sjoint randomness, %d shares, %d proofs' % ('' if j else 'no ', s, n), ((j, s, n),)) for s, n in ((2, 1), (2, 3), (4, 2)) for j in (1, 0)]


class P3:
    def __init__(self, r, joint, cfg=None, cls='Flp'):
        self.h = h = r.flow(cfg)
        joint, shares, proofs = joint if isinstance(joint, tuple) else (joint, None, None)
        self.v, self.flp = prio3_obj(h, joint, shares and pconst(shares), proofs and pconst(proofs), cls=cls)
        self.joint = joint
        self.b = sym('flp' if joint else 'flp0', ('obj', cls))
        self.F = flp_field(self.b)
        self.shares = h.attr(self.v, 'SHARES')
        self.proofs = h.attr(self.v, 'PROOFS')
        self.seed = h.attr(h.attr(self.v, 'xof'), 'SEED_SIZE')

    def A(self, n):
        return TM.attr_int(self.b, n)

    def vec(self, n, l=None):
        return self.h.symlist(n, 'felt', length=l, field=self.F)

    def sd(self, n):
        return self.h.bytes(n, self.seed) if self.joint else NONE

    def parts(self, n=None):
        if not self.joint:
            return NONE
        p = sym('parts', ('list', 'bytes'))
        LEN[p] = n if n is not None else self.shares
        TM.ITEM_LEN[p] = self.seed
        ELEM_LEN[p] = self.seed
        return self.h.list(wrap(p))

    def leader_share(self):
        return tup(self.vec('meas', self.A('MEAS_LEN')), self.vec('proofs_', pmul(self.A('PROOF_LEN'), self.proofs)), self.sd('blind'))

    def helper_share(self):
        return tup(self.h.bytes('share', self.seed), self.sd('blind'))

    def report(self):
        """Symbolic inputs of an honest client."""
        h = self.h
        return (h.bytes('ctx'), sym('measurement', 'any'), h.bytes('nonce', h.attr(self.v, 'NONCE_SIZE')),
                h.bytes('rand', h.attr(self.v, 'RAND_SIZE')))
