"""Human-readable rendering of terms."""
from sa import terms as tm


def show(t, d=0):
    if d > 14:
        return '…'
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == 'P':
        if not t.args[1]:
            return '0'
        out = []
        for m, c in t.args[1]:
            fs = []
            for a, e in m:
                b = s(a)
                if type(e) is not int:
                    b += '^(' + s(e) + ')'
                elif e != 1:
                    b += '^%d' % e
                fs.append(b)
            body = '*'.join(fs)
            if not body:
                body = str(c)
            elif c == -1:
                body = '-' + body
            elif c != 1:
                body = '%d*%s' % (c, body)
            out.append(body)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op in ('true', 'false', 'none'):
        return op.capitalize()
    if op == 'sym':
        return t.args[0]
    if op == 'v':
        return 'v%d' % t.args[0]
    if op == 'bv':
        return 'i%d' % t.args[0]
    if op == 'phi':
        return 'phi%s' % (t.args[0],)
    if op == 'str':
        return repr(t.args[0])
    if op == 'ite':
        return '(%s if %s else %s)' % (s(t.args[1]), s(t.args[0]), s(t.args[2]))
    if op == 'S':
        segs = t.args[1]
        if t.args[0] == 'bytes' and segs and all(x.op == 'u' and tm.const_of(x.args[0]) is not None for x in segs):
            return repr(bytes(tm.const_of(x.args[0]) & 255 for x in segs))
        o, c = {'list': '[]', 'tuple': '()', 'bytes': '<>', 'str': '""'}.get(t.args[0], '{}')
        return o + ', '.join(s(x) for x in segs) + c
    if op == 'u':
        return s(t.args[0])
    if op == 'sl':
        b, lo, hi = t.args
        if lo is tm.ZERO and tm.seqlen(b) is hi:
            return '*' + s(b)
        return '*%s[%s:%s]' % (s(b), s(lo), s(hi))
    if op == 'map':
        return '*(%s for i%d<%s)' % (s(t.args[2]), t.args[0], s(t.args[1]))
    if op == 'sum':
        return 'Sum(i%d<%s: %s)' % (t.args[0], s(t.args[2]), s(t.args[3]))
    if op == 'exists':
        return 'Exists(i%d<%s: %s)' % (t.args[0], s(t.args[1]), s(t.args[2]))
    if op == 'idx':
        return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'attr':
        return '%s.%s' % (s(t.args[0]), t.args[1])
    if op == 'lt0':
        return '%s < 0' % s(t.args[0])
    if op == 'eq0':
        return '%s == 0' % s(t.args[0])
    if op == 'eqv':
        return '%s == %s' % (s(t.args[0]), s(t.args[1]))
    if op == 'cls':
        return t.args[0]
    if op == 'ret':
        return 'return ' + s(t.args[0])
    if op == 'raise':
        return 'raise'
    if op == 'len':
        return 'len(%s)' % s(t.args[0])

    def ga(a):
        if type(a) is tm.T:
            return s(a)
        if type(a) is tuple:
            return '(' + ', '.join(ga(x) for x in a) + ')'
        return str(a)
    return op + '(' + ', '.join(ga(a) for a in t.args) + ')'
