"""Polynomials over opaque terms: enough algebra to compare bookkeeping formulas however they are written."""


def poly(t):
    """{monomial: coefficient}; a monomial is a sorted tuple of factor reprs."""
    k = t[0]
    if k == 'c':
        if isinstance(t[1], bool) or not isinstance(t[1], (int, float)):
            return {(repr(t),): 1}
        return {(): t[1]} if t[1] else {}
    if k == 'wrap' and len(t) == 2:
        return poly(t[1])
    if k == 'op':
        if t[1] in ('Add', 'Sub') and len(t) == 4:
            return plus(poly(t[2]), poly(t[3]), 1 if t[1] == 'Add' else -1)
        if t[1] == 'Mult' and len(t) == 4:
            return times(poly(t[2]), poly(t[3]))
        if t[1] == 'USub' and len(t) == 3:
            return plus({}, poly(t[2]), -1)
        if t[1] == 'UAdd' and len(t) == 3:
            return poly(t[2])
        if t[1] == 'Pow' and len(t) == 4 and t[3][0] == 'c' and isinstance(t[3][1], int) and 0 < t[3][1] < 5:
            p = r = poly(t[2])
            for _ in range(t[3][1] - 1):
                r = times(r, p)
            return r
        if t[1] == 'Div' and len(t) == 4:
            d = poly(t[3])
            if list(d) == [()]:
                return {m: c / d[()] for m, c in poly(t[2]).items()}
            return times(poly(t[2]), {('1/' + repr(sorted(d.items())),): 1})
    if k == 'call' and t[1] in ('abs', 'absolute', 'fabs') and len(t) == 3:
        p = poly(t[2])
        q = {m: -c for m, c in p.items()}
        return {('|%r|' % (min(sorted(p.items()), sorted(q.items())),),): 1}
    if k == 'call' and t[1] in ('square', 'power') and len(t) >= 3 and (len(t) == 3 or t[3] == ('c', 2)):
        return times(poly(t[2]), poly(t[2]))
    if k == 'call' and t[1] in ('float', 'int') and len(t) == 3:
        return poly(t[2])
    return {(repr(t),): 1}


def plus(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def times(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def ratio(t):
    """(numerator, denominator) polynomials of a term built from + - * / and powers; log(1/x) is -log(x)."""
    k = t[0]
    if k == 'op' and len(t) == 4 and t[1] in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
        n, d = ratio(t[2])
        if t[1] == 'Pow':
            if t[3][0] == 'c' and isinstance(t[3][1], int) and 0 < t[3][1] < 5:
                rn, rd = n, d
                for _ in range(t[3][1] - 1):
                    rn, rd = times(rn, n), times(rd, d)
                return rn, rd
            return {(repr(t),): 1}, {(): 1}
        m, e = ratio(t[3])
        if t[1] == 'Mult':
            return times(n, m), times(d, e)
        if t[1] == 'Div':
            return times(n, e), times(d, m)
        return plus(times(n, e), times(m, d), 1 if t[1] == 'Add' else -1), times(d, e)
    if k == 'op' and t[1] == 'USub' and len(t) == 3:
        n, d = ratio(t[2])
        return {m: -c for m, c in n.items()}, d
    if k == 'call' and t[1] == 'log' and len(t) == 3:
        n, d = ratio(t[2])
        if list(n) == [()] and n[()] == 1:
            return {('log %r' % (sorted(d.items()),),): -1}, {(): 1}
        if list(d) == [()] and d[()] == 1:
            return {('log %r' % (sorted(n.items()),),): 1}, {(): 1}
        return {(repr(t),): 1}, {(): 1}
    if k == 'call' and t[1] in ('square',) and len(t) == 3:
        n, d = ratio(t[2])
        return times(n, n), times(d, d)
    return poly(t), {(): 1}


def scale(p, q):
    """c with p == c*q, or None."""
    if set(p) != set(q) or not p:
        return None
    cs = {round(p[m] / q[m], 12) for m in p}
    m = next(iter(p))
    return p[m] / q[m] if len(cs) == 1 else None


def same_ratio(a, b):
    """c with a == c*b for two (numerator, denominator) pairs."""
    return scale(times(a[0], b[1]), times(b[0], a[1]))
