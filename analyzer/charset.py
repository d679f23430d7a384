"""Sets of Unicode scalar values as sorted tuples of disjoint closed intervals."""
MAXC = 0x10FFFF
FULL = ((0, 0xD7FF), (0xE000, MAXC))
EMPTY = ()


def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def single(c):
    c = ord(c) if isinstance(c, str) else c
    return ((c, c),)


def of(s):
    return norm([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return inter(norm([(a, b)]), FULL)


def union(*sets):
    r = []
    for s in sets:
        r.extend(s)
    return norm(r)


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a):
    out = []
    p = 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return inter(tuple(out), FULL)


def diff(a, b):
    return inter(a, compl(b))


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def has(a, c):
    for lo, hi in a:
        if lo <= c <= hi:
            return True
    return False


def pick(a):
    """A readable representative."""
    for pref in ((0x61, 0x7A), (0x41, 0x5A), (0x30, 0x39), (0x21, 0x7E), (0x20, 0x20), (0, 0x7F)):
        x = inter(a, (pref,))
        if x:
            return chr(x[0][0])
    return chr(a[0][0])


U1 = ((0, 0x7F),)
U2 = ((0x80, 0x7FF),)
U3 = ((0x800, 0xD7FF), (0xE000, 0xFFFF))
U4 = ((0x10000, MAXC),)


def utf8len(a):
    """The UTF-8 length common to all members, or None."""
    for n, u in ((1, U1), (2, U2), (3, U3), (4, U4)):
        if not diff(a, u):
            return n
    return None


def partition(sets):
    """Coarsest partition of FULL that refines every given set."""
    parts = [FULL]
    for s in set(sets):
        nxt = []
        for p in parts:
            x = inter(p, s)
            y = diff(p, s)
            if x:
                nxt.append(x)
            if y:
                nxt.append(y)
        parts = nxt
    return parts


def show(a):
    if a == FULL:
        return 'any'
    out = []
    for lo, hi in a[:8]:
        f = lambda c: chr(c) if 0x21 <= c < 0x7F else 'U+%04X' % c
        out.append(f(lo) if lo == hi else f(lo) + '-' + f(hi))
    return '[' + ' '.join(out) + (' ..' if len(a) > 8 else '') + ']'
