"""Piecewise functions of one unknown character.

A value that depends on the character c at some position is kept as a tuple of
pieces (lo, hi, mode, v): on lo <= c <= hi it is v (mode 0) or c + v (mode 1).
"""
import charset as cs

IDENT = ((0, cs.MAXC, 1, 0),)
LEN = ((0, 0x7F, 0, 1), (0x80, 0x7FF, 0, 2), (0x800, 0xFFFF, 0, 3), (0x10000, cs.MAXC, 0, 4))


def _lead():
    out = [(0, 0x7F, 1, 0)]
    for lo, hi, shift, mark in ((0x80, 0x7FF, 6, 0xC0), (0x800, 0xFFFF, 12, 0xE0), (0x10000, cs.MAXC, 18, 0xF0)):
        c = lo
        while c <= hi:
            end = min(hi, ((c >> shift) + 1 << shift) - 1)
            out.append((c, end, 0, mark | (c >> shift)))
            c = end + 1
    return tuple(out)


LEAD = _lead()


class Cannot(Exception):
    pass


def clip(pieces, s):
    """Restrict to the set s; merge neighbouring equal pieces."""
    out = []
    i = 0
    for lo, hi, m, v in pieces:
        for a, b in s:
            x = max(lo, a)
            y = min(hi, b)
            if x <= y:
                if out and out[-1][1] == x - 1 and out[-1][2] == m and out[-1][3] == v:
                    out[-1] = (out[-1][0], y, m, v)
                else:
                    if m == 1 and x == y:
                        out.append((x, y, 0, x + v))
                    else:
                        out.append((x, y, m, v))
    # merge again: singletons turned constant
    res = []
    for p in out:
        if res and res[-1][1] == p[0] - 1 and res[-1][2:] == p[2:]:
            res[-1] = (res[-1][0], p[1]) + p[2:]
        else:
            res.append(p)
    return tuple(res)


def constant(pieces):
    """The one value the function takes, or None."""
    v = None
    for p in pieces:
        if p[2] != 0:
            return None
        if v is None:
            v = p[3]
        elif v != p[3]:
            return None
    return v


def _wrap(lo, hi, off, bits, signed):
    """Split c+off for c in [lo,hi] so that the result lies in the type."""
    M = 1 << bits
    base = -(M >> 1) if signed else 0
    out = []
    c = lo
    n = 0
    while c <= hi:
        v = c + off
        k = (v - base) // M
        end = min(hi, (k + 1) * M + base - 1 - off)
        out.append((c, end, 1, off - k * M))
        c = end + 1
        n += 1
        if n > 6000:
            raise Cannot('wide wrap')
    return out


def wrapi(v, bits, signed):
    M = 1 << bits
    v %= M
    if signed and v >= M >> 1:
        v -= M
    return v


def mapc(pieces, f, limit=2048):
    """Apply f to the value, point by point on affine pieces."""
    out = []
    for lo, hi, m, v in pieces:
        if m == 0:
            out.append((lo, hi, 0, f(v)))
        else:
            if hi - lo > limit:
                raise Cannot('pointwise op on a wide range')
            for c in range(lo, hi + 1):
                out.append((c, c, 0, f(c + v)))
    return tuple(out)


def shift(pieces, k, bits, signed):
    out = []
    for lo, hi, m, v in pieces:
        if m == 0:
            out.append((lo, hi, 0, wrapi(v + k, bits, signed)))
        else:
            out.extend(_wrap(lo, hi, v + k, bits, signed))
    return tuple(out)


def cast(pieces, bits, signed):
    return shift(pieces, 0, bits, signed)


def cmp(pieces, op, k):
    """pieces <op> constant k, as 0/1 pieces."""
    import operator
    f = {'Eq': operator.eq, 'Ne': operator.ne, 'Lt': operator.lt, 'Le': operator.le,
         'Gt': operator.gt, 'Ge': operator.ge}[op]
    out = []
    for lo, hi, m, v in pieces:
        if m == 0:
            out.append((lo, hi, 0, int(f(v, k))))
            continue
        # breakpoints of c+v against k
        t = k - v
        cuts = []
        for a, b in ((lo, min(hi, t - 1)), (max(lo, t), min(hi, t)), (max(lo, t + 1), hi)):
            if a <= b:
                cuts.append((a, b))
        for a, b in cuts:
            out.append((a, b, 0, int(f(a + v, k))))
    return tuple(out)


def zipc(p, q, f):
    """Pointwise combination; f gets two pieces over one range and returns pieces."""
    out = []
    i = j = 0
    while i < len(p) and j < len(q):
        lo = max(p[i][0], q[j][0])
        hi = min(p[i][1], q[j][1])
        if lo <= hi:
            out.extend(f((lo, hi) + p[i][2:], (lo, hi) + q[j][2:]))
        if p[i][1] < q[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def preimages(pieces, values):
    """For each value its preimage, and the rest (charset intervals)."""
    res = {v: [] for v in values}
    rest = []
    for lo, hi, m, v in pieces:
        if m == 0:
            (res[v] if v in res else rest).append((lo, hi))
        else:
            pts = sorted(x - v for x in values if lo <= x - v <= hi)
            a = lo
            for c in pts:
                if a < c:
                    rest.append((a, c - 1))
                res[c + v].append((c, c))
                a = c + 1
            if a <= hi:
                rest.append((a, hi))
    return {v: cs.norm(x) for v, x in res.items()}, cs.norm(rest)


def from_set(s):
    """The characteristic function of a charset."""
    out = []
    p = 0
    for a, b in s:
        if p < a:
            out.append((p, a - 1, 0, 0))
        out.append((a, b, 0, 1))
        p = b + 1
    if p <= cs.MAXC:
        out.append((p, cs.MAXC, 0, 0))
    return tuple(out)
