"""Models of the standard library and of nom's string traits.

MODELS maps a function path (lifetimes stripped) to a handler; PRIMS are resumable
primitives that walk over the text or call back into analysed code.
"""
import unicodedata

import charset as cs
import pieces as P
from interp import (ANY, HEAP, I0, I1, UNIT, OP, LOST, Frame, NeedRead, NeedSplit, Panic, Unknown)

MODELS = {}
PRIMS = {}


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def prim(name):
    def d(f):
        PRIMS[name] = f
        return f
    return d


def deref(I, st, v):
    while v[0] in ('ref', 'refv'):
        v = I.proj(st, v, '*')
    return v


def strval(I, st, v):
    v = deref(I, st, v)
    if v[0] in ('s', 'lit'):
        return v
    raise Unknown('string value ' + v[0])


def ret_ty(I, inst_or_i, st, dest):
    """Type of the place a modelled call writes to."""
    f = st.fr[-1]
    if f.prim is not None or dest is None:
        i = getattr(I, 'modelled', None)
        if i is None or 'body' not in i:
            raise Unknown('result type')
        return i['body']['locals'][0]
    body = I.p.insts[f.inst]['body']
    t = body['locals'][dest[0]]
    for e in dest[1:]:
        if isinstance(e, list) and e[0] == 'f':
            t = e[2]
        elif e == '*':
            t = I.p.types[t]['t']
        else:
            raise Unknown('result place')
    return t


def mk(I, ty, variant, *fields):
    t = I.p.types[ty]
    for k, v in enumerate(t['vs']):
        if v['n'] == variant:
            return ('adt', ty, k, tuple(fields))
    raise Unknown('variant ' + variant)


def option(I, st, dest, v):
    ty = ret_ty(I, None, st, dest)
    return mk(I, ty, 'None') if v is None else mk(I, ty, 'Some', v)


# ---------------------------------------------------------------- reading
def first_char(I, st, s):
    """(char value, rest) of a string, or None at its end."""
    if s[0] == 'lit':
        if not s[1]:
            return None
        return ('i', ord(s[1][0])), ('lit', s[1][1:])
    _, p, q = s
    if I.at_end(st, p, q):
        return None
    c = I.need(st, p)
    if c == 'eof':
        return None
    return I.simp(st, ('ch', p, P.IDENT)), ('s', c[1], q)


def starts(I, st, s, lit):
    """Does s start with the literal? Gives the rest or None."""
    if s[0] == 'lit':
        return ('lit', s[1][len(lit):]) if s[1].startswith(lit) else None
    _, p, q = s
    a = st.adj.get(p)
    if a is not None and a[0] == lit and q is None:
        return ('s', a[1], q)
    r = p
    for ch in lit:
        if I.at_end(st, r, q):
            return None
        c = I.need(st, r)
        one = cs.single(ch)
        x = cs.inter(c[0], one)
        if not x:
            return None
        if x != c[0]:
            raise NeedSplit(r, [x, cs.diff(c[0], one)])
        r = c[1]
    if lit and I.lexical:
        st.adj[p] = (lit, r)
    return ('s', r, q)


def str_eq(I, st, a, b):
    if a == b:
        return True
    if a[0] == 'lit' and b[0] == 'lit':
        return a[1] == b[1]
    if a[0] == 'lit':
        a, b = b, a
    if b[0] == 'lit':
        r = starts(I, st, a, b[1])
        if r is None:
            return False
        return I.at_end(st, r[1], r[2])
    # two slices of the input that end at the same place
    if a[2] == b[2]:
        return I.pos_eq(st, a[1], b[1])
    raise Unknown('comparison of two input slices')


# ---------------------------------------------------------------- str
S = 'core::str::<impl str>::'


@model(S + 'len', S.replace('str>', '[T]>').replace('core::str', 'core::slice') + 'len')
def _(I, st, i, a, dest, to):
    return I.value(st, I.length(st, deref(I, st, a[0])), dest, to)


@model(S + 'is_empty', 'core::slice::<impl [T]>::is_empty')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'bs':
        v = v[1]
    if v[0] == 'arr':
        return I.value(st, ('i', int(not v[1])), dest, to)
    if v[0] == 'lit':
        return I.value(st, ('i', int(not v[1])), dest, to)
    if v[0] == 'sm':
        return I.value(st, I0, dest, to)
    if v[0] != 's':
        raise Unknown('is_empty of ' + v[0])
    return I.value(st, ('i', int(I.at_end(st, v[1], v[2]))), dest, to)


@model(S + 'as_bytes')
def _(I, st, i, a, dest, to):
    return I.value(st, ('bs', strval(I, st, a[0])), dest, to)


@model('core::str::converts::from_utf8_unchecked')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] != 'bs' or v[1][0] not in ('s', 'lit'):
        raise Unknown('from_utf8_unchecked')
    return I.value(st, v[1], dest, to)


@model('core::str::converts::from_utf8')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] != 'bs' or v[1][0] not in ('s', 'lit'):
        raise Unknown('from_utf8')
    return I.value(st, mk(I, ret_ty(I, i, st, dest), 'Ok', v[1]), dest, to)


@model(S + 'as_ptr', 'core::slice::<impl [T]>::as_ptr')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'bs':
        v = v[1]
    if v[0] != 's':
        raise Unknown('address of a literal')
    return I.value(st, ('ptr', v[1]), dest, to)


@model(S + 'chars')
def _(I, st, i, a, dest, to):
    return I.value(st, ('it', 'chars', strval(I, st, a[0])), dest, to)


@model(S + 'char_indices')
def _(I, st, i, a, dest, to):
    v = I.rest_of(strval(I, st, a[0]))
    if v[0] == 'lit':
        raise Unknown('char_indices of a literal')
    return I.value(st, ('it', 'chidx', ('ptr', v[1]), v), dest, to)


@model(S + 'bytes')
def _(I, st, i, a, dest, to):
    return I.value(st, ('it', 'bytes', strval(I, st, a[0])), dest, to)


@model("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::next")
def _(I, st, i, a, dest, to):
    r = a[0]
    it = deref(I, st, r)
    if it[0] != 'it':
        raise Unknown('Chars')
    x = first_char(I, st, it[2])
    if x is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, r, ('it', 'chars', x[1]))
    return I.value(st, option(I, st, dest, x[0]), dest, to)


@model("<core::str::iter::CharIndices as core::iter::traits::iterator::Iterator>::next")
def _(I, st, i, a, dest, to):
    r = a[0]
    it = deref(I, st, r)
    x = first_char(I, st, it[3])
    if x is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    off = I.off(st, it[2][1], it[3][1])
    store_through(I, st, r, ('it', 'chidx', it[2], x[1]))
    return I.value(st, option(I, st, dest, ('tup', (off, x[0]))), dest, to)


@model("<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::next")
def _(I, st, i, a, dest, to):
    r = a[0]
    it = deref(I, st, r)
    s = it[2]
    if s[0] == 'lit':
        b = s[1].encode()
        if not b:
            return I.value(st, option(I, st, dest, None), dest, to)
        if b[0] >= 0x80:
            raise Unknown('bytes of a non-ASCII literal')
        store_through(I, st, r, ('it', 'bytes', ('lit', s[1][1:])))
        return I.value(st, option(I, st, dest, ('i', b[0])), dest, to)
    x = first_byte(I, st, s)
    if x is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, r, ('it', 'bytes', x[1]))
    return I.value(st, option(I, st, dest, x[0]), dest, to)


def first_byte(I, st, s):
    """(byte value, rest) of the bytes of a slice of the input, or None at its end."""
    p, k, q = (s[1], 0, s[2]) if s[0] == 's' else s[1:]
    if k == 0 and I.at_end(st, p, q):
        return None
    n, j = I.bwalk(st, p, k, q, 1)
    return I.byte(st, p, k), ('s', n, q) if j == 0 else ('sm', n, j, q)


@model('core::slice::<impl [T]>::iter', "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &[T]>::into_iter")
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'bs' and v[1][0] in ('s', 'sm'):
        return I.value(st, ('it', 'byterefs', v[1]), dest, to)
    xs = None
    if v[0] == 'bs' and v[1][0] == 'lit':
        xs = tuple(('i', x) for x in v[1][1].encode())
    elif v[0] == 'arr':
        xs = v[1]
    if xs is None:
        raise Unknown('iterator over ' + v[0])
    return I.value(st, ('it', 'seq', ('arr', tuple(('refv', x) for x in xs))), dest, to)


@model("<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::next")
def _(I, st, i, a, dest, to):
    r = a[0]
    it = deref(I, st, r)
    if it[0] == 'it' and it[1] == 'seq':
        xs = it[2][1]
        if not xs:
            return I.value(st, option(I, st, dest, None), dest, to)
        store_through(I, st, r, ('it', 'seq', ('arr', xs[1:])))
        return I.value(st, option(I, st, dest, xs[0]), dest, to)
    if it[0] != 'it' or it[1] != 'byterefs':
        raise Unknown('iterator')
    x = first_byte(I, st, it[2])
    if x is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, r, ('it', 'byterefs', x[1]))
    return I.value(st, option(I, st, dest, ('refv', x[0])), dest, to)


def window(I, st, it):
    """(window, the bytes from the next one on) or None."""
    try:
        w = I.byte_slice(st, it[2], None, it[3])
    except Panic:
        return None
    return ('bs', w), I.byte_slice(st, it[2], I1, None)


@model('core::slice::<impl [T]>::windows')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    n = I.concrete(st, a[1])
    if v[0] != 'bs' or v[1][0] not in ('s', 'sm', 'lit') or n == 0:
        raise Unknown('windows')
    return I.value(st, ('it', 'win', v[1], ('i', n)), dest, to)


@model("<core::slice::iter::Windows<T> as core::iter::traits::iterator::Iterator>::next")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    x = window(I, st, it)
    if x is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, a[0], ('it', 'win', x[1], it[3]))
    return I.value(st, option(I, st, dest, x[0]), dest, to)


def byte_loop(mode):
    def h(I, st, i, a, dest, to):
        it = deref(I, st, a[0])
        if it[0] != 'it' or it[1] not in ('byterefs', 'bytes', 'seq', 'win'):
            raise Unknown('iterator')
        src = a[0] if a[0][0] == 'ref' else UNIT
        start = it[2]
        return I.prim(st, 'byteloop', (('num', mode), it, start, a[1], src, ('num', ret_ty(I, i, st, dest))), dest, to)
    return h


@prim('byteloop')
def _(I, st, f):
    mode, it, start, fn, src, rty = f.v
    mode = mode[1]

    def end(v):
        if src != UNIT:
            store_through(I, st, src, it)
        return I.finish(st, v)

    if it[1] == 'seq':
        x = (it[2][1][0], ('arr', it[2][1][1:])) if it[2][1] else None
    elif it[1] == 'win':
        x = window(I, st, it)
    elif it[2][0] == 'lit':
        b = it[2][1].encode()
        if b and b[0] >= 0x80:
            raise Unknown('bytes of a non-ASCII literal')
        x = (('i', b[0]), ('lit', it[2][1][1:])) if b else None
    else:
        x = first_byte(I, st, it[2])
        if x is not None and it[1] == 'byterefs':
            x = (('refv', x[0]), x[1])
    if x is None:
        if mode in ('any', 'all'):
            return end(('i', int(mode == 'all')))
        return end(mk(I, rty[1], 'None'))
    if f.rv is None:
        I.invoke(st, fn, [('refv', x[0]) if mode == 'find' else x[0]], None, None)
        return None
    t = I.truth(st, f.rv)
    f.rv = None
    here = it[2]
    it = ('it', it[1], x[1]) + it[3:]
    if t == (mode != 'all'):
        if mode in ('any', 'all'):
            return end(('i', int(mode == 'any')))
        if mode == 'find':
            return end(mk(I, rty[1], 'Some', x[0]))
        if it[1] == 'seq':
            k = ('i', len(start[1]) - len(here[1]))
        elif here[0] == 'lit':
            k = ('i', len(start[1]) - len(here[1]))
        elif start[0] == 's':
            k = I.off(st, start[1], here[1]) if here[0] == 's' else ('offk', start[1], here[1], here[2])
        else:
            raise Unknown('position from the middle of a character')
        return end(mk(I, rty[1], 'Some', k))
    f.v = (f.v[0], it, start, fn, src, rty)
    st.touch.clear()
    return None


def default_loop(mode):
    """Default methods of Iterator, for receivers whose position can be told as an offset."""
    loop = byte_loop(mode)

    def h(I, st, i, a, dest, to):
        it = deref(I, st, a[0])
        if it[0] == 'it' and it[1] == 'win':
            return loop(I, st, i, a, dest, to)
        if it[0] == 'it' and it[1] == 'chars' and mode == 'position' and I.lexical and it[2][0] == 's':
            src = a[0] if a[0][0] == 'ref' else UNIT
            return I.prim(st, 'charpos', (it[2], a[1], src, ('num', ret_ty(I, i, st, dest))), dest, to)
        return NotImplemented
    return h


@prim('charpos')
def _(I, st, f):
    s, fn, src, rty = f.v
    x = first_char(I, st, s)
    if x is not None and f.rv is None:
        I.invoke(st, fn, [x[0]], None, None)
        return None
    t = x is not None and I.truth(st, f.rv)
    f.rv = None
    if x is None or t:
        if src != UNIT:
            store_through(I, st, src, ('it', 'chars', x[1] if t else s))
        return I.finish(st, mk(I, rty[1], 'Some', ANY) if t else mk(I, rty[1], 'None'))
    f.v = (x[1], fn, src, rty)
    st.touch.clear()
    return None


for _n in ('position', 'any', 'all', 'find'):
    MODELS['core::iter::traits::iterator::Iterator::' + _n] = default_loop(_n)
    for _t in ('core::slice::iter::Iter<T>', 'core::str::iter::Bytes'):
        MODELS['<%s as core::iter::traits::iterator::Iterator>::%s' % (_t, _n)] = byte_loop(_n)


@model("core::str::iter::Chars::<>::as_str", "core::str::iter::Chars::as_str", "core::str::iter::Chars::<'a>::as_str")
def _(I, st, i, a, dest, to):
    return I.value(st, deref(I, st, a[0])[2], dest, to)


def store_through(I, st, r, v):
    if r[0] != 'ref':
        raise Unknown('write through ' + r[0])
    base = I.load_ref(st, r)
    while base[0] == 'ref':
        r = base
        base = I.load_ref(st, r)
    I.store_at(st, r[1], r[2], r[3], v)


# patterns -------------------------------------------------------------
def pattern(I, st, i, v, k=0):
    """('char', ch) | ('str', s) | ('fn', value) | ('set', charset)."""
    args = [x for x in i['args'] if isinstance(x, int)]
    ty = I.p.types[args[k]] if len(args) > k else None
    w = v
    if w[0] in ('clo', 'fn'):
        return ('fn', w)
    if ty is not None and ty['k'] == 'char':
        return ('char', I.concrete(st, w))
    d = deref(I, st, w)
    if d[0] in ('clo', 'fn'):
        return ('fn', w)
    if d[0] == 'lit':
        return ('str', d[1])
    if d[0] == 'arr':
        return ('set', cs.norm([(x, x) for x in (I.concrete(st, y) for y in d[1])]))
    if ty is not None and ty['k'] == 'ref' and I.p.types[ty['t']]['k'] == 'char':
        return ('char', I.concrete(st, d))
    raise Unknown('pattern ' + w[0])


def pat_char(I, st, f, pat, c):
    """Does the char value match? Either a bool value or None if a call was pushed."""
    if pat[0] == 'char':
        return I.compare(st, 'Eq', c, ('i', pat[1])) if c[0] == 'ch' else ('i', int(c[1] == pat[1]))
    if pat[0] == 'set':
        if c[0] == 'i':
            return ('i', int(cs.has(pat[1], c[1])))
        return I.simp(st, ('ch', c[1], P.from_set(pat[1])))
    if pat[0] == 'fn':
        if f.rv is not None:
            v = f.rv
            f.rv = None
            return v
        I.invoke(st, pat[1], [c], None, None)
        return None
    raise Unknown('pattern')


def enc(pat):
    """A pattern as a storable value."""
    if pat[0] == 'fn':
        return ('tup', (('lit', 'fn'), pat[1]))
    if pat[0] == 'char':
        return ('tup', (('lit', 'char'), ('i', pat[1])))
    if pat[0] == 'str':
        return ('tup', (('lit', 'str'), ('lit', pat[1])))
    return ('tup', (('lit', 'set'),) + tuple(('tup', (('i', a), ('i', b))) for a, b in pat[1]))


def dec(v):
    k = v[1][0][1]
    if k == 'fn':
        return ('fn', v[1][1])
    if k == 'char':
        return ('char', v[1][1][1])
    if k == 'str':
        return ('str', v[1][1][1])
    return ('set', tuple((x[1][0][1], x[1][1][1]) for x in v[1][1:]))


def as_step(I, st, s, pat, f):
    """Match one pattern at the start of s: (rest) or None or 'wait'."""
    if pat[0] == 'str':
        return starts(I, st, s, pat[1])
    x = first_char(I, st, s)
    if x is None:
        return None
    b = pat_char(I, st, f, pat, x[0])
    if b is None:
        return 'wait'
    try:
        t = I.truth(st, b)
    except NeedSplit:
        if pat[0] == 'fn':
            f.rv = b       # keep the answer for the re-run
        raise
    return x[1] if t else None


def start_search(I, st, i, a, dest, to, mode, pk=0):
    s = strval(I, st, a[0])
    rty = ret_ty(I, i, st, dest)
    if s[0] == 'lit' and mode in ('find', 'contains'):
        # is the character one of these?
        d = deref(I, st, a[1])
        x = I.simp(st, d) if d[0] == 'ch' else d
        if x[0] == 'ch':
            pre, rest = P.preimages(x[2], {ord(c) for c in s[1]})
            yes = cs.union(*pre.values()) if pre else ()
            if mode == 'contains':
                return I.value(st, I.simp(st, ('ch', x[1], P.from_set(yes))), dest, to)
            sets = [y for y in list(pre.values()) + [rest] if y]
            if len(sets) > 1:
                raise NeedSplit(x[1], sets)
            if not yes:
                return I.value(st, option(I, st, dest, None), dest, to)
    pat = pattern(I, st, i, a[1], pk)
    if pat[0] == 'fn' and a[1][0] in ('clo',):
        # a closure by value gets a home in the primitive's frame
        pass
    if s[0] == 'lit' and mode == 'find' and pat[0] in ('char', 'str'):
        needle = pat[1] if pat[0] == 'str' else chr(pat[1])
        k = s[1].find(needle)
        v = None if k < 0 else ('i', len(s[1][:k].encode()))
        return I.value(st, option(I, st, dest, v), dest, to)
    return I.prim(st, mode, (enc(pat), s, s, ('num', rty), ('num', 0)), dest, to)


@prim('find')
def _(I, st, f):
    return search(I, st, f, 'find')


@prim('contains')
def _(I, st, f):
    return search(I, st, f, 'contains')


@prim('split_once')
def _(I, st, f):
    return search(I, st, f, 'split_once')


def search(I, st, f, mode):
    pat, base, cur, rty, prog = f.v
    rty = rty[1]
    pt = dec(pat)

    def hit(rest):
        if mode == 'contains':
            return I.finish(st, I1)
        if base[0] == 'lit':
            raise Unknown('search in a literal')
        if mode == 'split_once':
            a = ('s', base[1], cur[1])
            t = I.p.types[rty]
            return I.finish(st, mk(I, rty, 'Some', ('tup', (a, rest))))
        return I.finish(st, mk(I, rty, 'Some', I.off(st, base[1], cur[1])))

    def miss():
        if mode == 'contains':
            return I.finish(st, I0)
        return I.finish(st, mk(I, rty, 'None'))

    if pt[0] == 'str':
        lit = pt[1]
        if not lit:
            return hit(cur)
        # Knuth-Morris-Pratt with the match start remembered as a position
        return kmp(I, st, f, lit, hit, miss)
    while True:
        pat, base, cur, _, _ = f.v
        x = first_char(I, st, cur)
        if x is None:
            return miss()
        b = pat_char(I, st, f, pt, x[0])
        if b is None:
            return None
        try:
            t = I.truth(st, b)
        except NeedSplit:
            if pt[0] == 'fn':
                f.rv = b
            raise
        if t:
            return hit(x[1])
        f.v = (pat, base, x[1], f.v[3], f.v[4])
        st.touch.clear()
        return None


def kmp(I, st, f, lit, hit, miss):
    """Positions of the current partial match are kept in f.v[4]: ('arr', starts)."""
    pat, base, cur, rty, prog = f.v
    if base[0] == 'lit':
        raise Unknown('search in a literal')
    parts = () if prog[0] == 'num' else prog[1]
    # parts: positions of the last len(parts) characters, all equal to lit[:len(parts)]
    k = len(parts)
    if I.at_end(st, cur[1], cur[2]):
        return miss()
    c = I.need(st, cur[1])
    ch = cs.single(lit[k])
    # possible next matched lengths, by character
    tests = []
    nxt = {}
    fail = None
    alphabet = set(lit)
    groups = {}
    for a in alphabet:
        s = lit[:k] + a
        m = min(len(s), len(lit))
        while m and not s.endswith(lit[:m]):
            m -= 1
        groups.setdefault(m, []).append(cs.single(a))
    other = cs.diff(cs.FULL, cs.norm([x[0] for g in groups.values() for x in g]))
    groups.setdefault(0, []).append(other)
    sets = [(m, cs.union(*g)) for m, g in groups.items()]
    live = [(m, cs.inter(c[0], x)) for m, x in sets]
    live = [(m, x) for m, x in live if x]
    if len(live) > 1:
        raise NeedSplit(cur[1], [x for _, x in live])
    m = live[0][0]
    ps = tuple(parts) + (('ptr', cur[1]),)
    if m == len(lit):
        start = ps[len(ps) - m][1]
        rest = ('s', c[1], cur[2])
        f.v = (pat, base, ('s', start, cur[2]), rty, ('num', 0))
        # hit() looks at the start of the match
        rt = rty[1]
        name = f.prim
        if name == 'contains':
            return I.finish(st, I1)
        if I.lexical:
            st.adj[start] = (lit, c[1])
        if name == 'split_once':
            return I.finish(st, mk(I, rt, 'Some', ('tup', (('s', base[1], start), rest))))
        return I.finish(st, mk(I, rt, 'Some', I.off(st, base[1], start)))
    keep = ps[len(ps) - m:] if m else ()
    f.v = (pat, base, ('s', c[1], cur[2]), rty, ('arr', keep))
    st.touch.clear()
    return None


@model(S + 'find')
def _(I, st, i, a, dest, to):
    return start_search(I, st, i, a, dest, to, 'find')


@model(S + 'contains')
def _(I, st, i, a, dest, to):
    return start_search(I, st, i, a, dest, to, 'contains')


@model(S + 'split_once')
def _(I, st, i, a, dest, to):
    return start_search(I, st, i, a, dest, to, 'split_once')


@model("<&str as nom::traits::FindSubstring<&str>>::find_substring")
def _(I, st, i, a, dest, to):
    s = strval(I, st, a[0])
    n = strval(I, st, a[1])
    if n[0] != 'lit':
        raise Unknown('needle')
    return I.prim(st, 'find', (enc(('str', n[1])), s, s, ('num', ret_ty(I, i, st, dest)), ('num', 0)), dest, to)


@prim('starts_with')
def _(I, st, f):
    pat, s, mode, rty = f.v
    pt = dec(pat)
    r = as_step(I, st, s, pt, f)
    if r == 'wait':
        return None
    if mode[1] == 'strip':
        return I.finish(st, mk(I, rty[1], 'None') if r is None else mk(I, rty[1], 'Some', r))
    return I.finish(st, ('i', int(r is not None)))


@model(S + 'starts_with')
def _(I, st, i, a, dest, to):
    return I.prim(st, 'starts_with', (enc(pattern(I, st, i, a[1])), strval(I, st, a[0]), ('num', 'starts'), ('num', None)), dest, to)


@model(S + 'strip_prefix')
def _(I, st, i, a, dest, to):
    return I.prim(st, 'starts_with', (enc(pattern(I, st, i, a[1])), strval(I, st, a[0]), ('num', 'strip'),
                                      ('num', ret_ty(I, i, st, dest))), dest, to)


@prim('trim')
def _(I, st, f):
    pat, s = f.v
    r = as_step(I, st, s, dec(pat), f)
    if r == 'wait':
        return None
    if r is None:
        return I.finish(st, s)
    f.v = (pat, r)
    st.touch.clear()
    return None


@model(S + 'trim_start_matches', S + 'trim_left_matches')
def _(I, st, i, a, dest, to):
    return I.prim(st, 'trim', (enc(pattern(I, st, i, a[1])), strval(I, st, a[0])), dest, to)


WHITE = cs.norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                 (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


@model(S + 'trim_start', S + 'trim_left')
def _(I, st, i, a, dest, to):
    return I.prim(st, 'trim', (enc(('set', WHITE)), strval(I, st, a[0])), dest, to)


# slicing --------------------------------------------------------------
def bounds(I, st, rg):
    """(lo, hi) of a range value; hi inclusive flag."""
    if rg[0] != 'adt':
        raise Unknown('range')
    n = I.p.nn(rg[1]).split('<')[0]
    f = rg[3]
    if n == 'RangeFrom':
        return f[0], None
    if n == 'RangeTo':
        return None, f[0]
    if n == 'Range':
        return f[0], f[1]
    if n == 'RangeFull':
        return None, None
    raise Unknown('range ' + n)


def is_index(path):
    return path.startswith('core::str::traits::<impl core::ops::index::Index<I> for str>::index') or \
        path.startswith('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index')


def index_model(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'bs':
        if a[1][0] != 'adt':
            # a single byte
            b = I.byte_at(st, v, a[1])
            return I.value(st, ('refv', b), dest, to)
        lo, hi = bounds(I, st, a[1])
        return I.value(st, ('bs', I.byte_slice(st, v[1], lo, hi)), dest, to)
    if v[0] == 'arr':
        if a[1][0] != 'adt':
            k = I.concrete(st, a[1])
            if k >= len(v[1]):
                raise Panic('index out of bounds')
            return I.value(st, ('refv', v[1][k]), dest, to)
        lo, hi = bounds(I, st, a[1])
        lo = 0 if lo is None else I.concrete(st, lo)
        hi = len(v[1]) if hi is None else I.concrete(st, hi)
        if lo > hi or hi > len(v[1]):
            raise Panic('slice index out of range')
        return I.value(st, ('refv', ('arr', v[1][lo:hi])), dest, to)
    if v[0] not in ('s', 'lit'):
        raise Unknown('index of ' + v[0])
    lo, hi = bounds(I, st, a[1])
    return I.value(st, I.slice(st, v, lo, hi), dest, to)


def slice_eq(neg):
    def h(I, st, i, a, dest, to):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        if x[0] == 'bs' and x[1][0] in ('s', 'sm', 'bcut') and y[0] == 'bs' and y[1][0] in ('s', 'sm', 'bcut'):
            if x[1][0] != 's' or y[1][0] != 's':
                raise Unknown('comparison of two byte slices')
            r = str_eq(I, st, x[1], y[1])
        elif x[0] == 'arr' and y[0] == 'arr':
            r = len(x[1]) == len(y[1]) and all(I.concrete(st, p) == I.concrete(st, q) for p, q in zip(x[1], y[1]))
        else:
            if not (x[0] == 'bs' and x[1][0] in ('s', 'sm', 'bcut')):
                x, y = y, x
            if x[0] != 'bs':
                raise Unknown('comparison of slices')
            w = bytes_lit(I, st, y)
            if x[1][0] in ('sm', 'bcut'):
                if not w.isascii():
                    raise Unknown('comparison inside a character')
                r = False
            else:
                r = str_eq(I, st, x[1], ('lit', w))
        return I.value(st, ('i', int(r != neg)), dest, to)
    return h


def flat(I, i):
    """The slices compared hold bytes or characters."""
    ts = [I.p.types[x]['k'] for x in i['args'] if isinstance(x, int)]
    return bool(ts) and all(k in ('uint', 'char') for k in ts)


SLICE_EQ = {}
for _m, _n in (('eq', False), ('ne', True)):
    for _p in ('core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::',
               'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::',
               'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::',
               'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::',
               'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &[T]>::',
               'core::array::equality::<impl core::cmp::PartialEq<&[U]> for [T; N]>::'):
        SLICE_EQ[_p + _m] = slice_eq(_n)


for _t in ('core::str::iter::Chars', 'core::str::iter::CharIndices', 'core::str::iter::Bytes', 'core::slice::iter::Iter<T>'):
    @model('<%s as core::clone::Clone>::clone' % _t)
    def _(I, st, i, a, dest, to):
        return I.value(st, deref(I, st, a[0]), dest, to)


def step_it(I, st, it):
    """(item, iterator after it) or None."""
    if it[0] != 'it':
        raise Unknown('iterator')
    if it[1] == 'seq':
        xs = it[2][1]
        return (xs[0], ('it', 'seq', ('arr', xs[1:]))) if xs else None
    if it[1] == 'chars':
        x = first_char(I, st, it[2])
        return x and (x[0], ('it', 'chars', x[1]))
    if it[1] in ('bytes', 'byterefs'):
        if it[2][0] == 'lit':
            b = it[2][1].encode()
            if b and b[0] >= 0x80:
                raise Unknown('bytes of a non-ASCII literal')
            x = (('i', b[0]), ('lit', it[2][1][1:])) if b else None
        else:
            x = first_byte(I, st, it[2])
        return x and (x[0] if it[1] == 'bytes' else ('refv', x[0]), ('it', it[1], x[1]))
    raise Unknown('iterator')


@model("<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::nth",
       "<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::nth")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    for _ in range(I.concrete(st, a[1]) + 1):
        x = step_it(I, st, it)
        if x is None:
            break
        it = x[1]
    if x is None and it[1] == 'seq':
        it = ('it', 'seq', ('arr', ()))
    store_through(I, st, a[0], it)
    return I.value(st, option(I, st, dest, None if x is None else x[0]), dest, to)


@model("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::advance_by",
       "<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::advance_by",
       "<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::advance_by")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    ty = ret_ty(I, i, st, dest)
    n = I.concrete(st, a[1])
    while n:
        x = step_it(I, st, it)
        if x is None:
            break
        it = x[1]
        n -= 1
    store_through(I, st, a[0], it)
    return I.value(st, mk(I, ty, 'Err', ('i', n)) if n else mk(I, ty, 'Ok', UNIT), dest, to)


@model("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::size_hint",
       "<core::str::iter::CharIndices as core::iter::traits::iterator::Iterator>::size_hint",
       "<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::size_hint",
       "<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::size_hint")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    if it[0] != 'it':
        raise Unknown('iterator')
    ty = I.p.types[ret_ty(I, i, st, dest)]
    if it[1] == 'seq':
        lo = hi = ('i', len(it[2][1]))
    elif it[1] in ('bytes', 'byterefs') and it[2][0] in ('s', 'lit'):
        lo = hi = I.length(st, it[2])
    else:
        lo = hi = ANY
    return I.value(st, ('tup', (lo, mk(I, ty['ts'][1], 'Some', hi))), dest, to)


@model("<core::slice::iter::Iter<T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
       "<core::str::iter::Bytes as core::iter::traits::exact_size::ExactSizeIterator>::len")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    if it[0] == 'it' and it[1] == 'seq':
        return I.value(st, ('i', len(it[2][1])), dest, to)
    if it[0] == 'it' and it[1] in ('bytes', 'byterefs') and it[2][0] in ('s', 'lit'):
        return I.value(st, I.length(st, it[2]), dest, to)
    raise Unknown('length of an iterator')


@model('core::slice::iter::Iter::<T>::as_slice', "core::slice::iter::Iter::<'a, T>::as_slice")
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    if it[0] == 'it' and it[1] == 'byterefs':
        return I.value(st, ('bs', it[2]), dest, to)
    if it[0] == 'it' and it[1] == 'seq':
        return I.value(st, ('refv', ('arr', tuple(deref(I, st, x) for x in it[2][1]))), dest, to)
    raise Unknown('as_slice')


@model('core::str::iter::CharIndices::as_str')
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    if it[0] != 'it' or it[1] != 'chidx':
        raise Unknown('as_str')
    return I.value(st, it[3], dest, to)


@model('core::str::iter::CharIndices::offset')
def _(I, st, i, a, dest, to):
    it = deref(I, st, a[0])
    if it[0] != 'it' or it[1] != 'chidx':
        raise Unknown('offset')
    return I.value(st, I.off(st, it[2][1], it[3][1]), dest, to)


MODELS['core::str::traits::<impl core::ops::index::Index<I> for str>::index'] = index_model
MODELS['core::slice::index::<impl core::ops::index::Index<I> for [T]>::index'] = index_model


@model(S + 'get')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    lo, hi = bounds(I, st, a[1])
    try:
        r = I.slice(st, v, lo, hi)
    except Panic:
        r = None
    return I.value(st, option(I, st, dest, r), dest, to)


@model(S + 'get_unchecked')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    lo, hi = bounds(I, st, a[1])
    try:
        r = I.slice(st, v, lo, hi)
    except Panic:
        raise Unknown('unchecked slice out of range') if not hasattr(I, 'tape') else Panic('unchecked slice out of range')
    return I.value(st, r, dest, to)


@model(S + 'split_at')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    x = I.slice(st, v, None, a[1])
    y = I.slice(st, v, a[1], None)
    return I.value(st, ('tup', (x, y)), dest, to)


@model(S + 'split_at_checked')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    try:
        x = I.slice(st, v, None, a[1])
        y = I.slice(st, v, a[1], None)
        r = ('tup', (x, y))
    except Panic:
        r = None
    return I.value(st, option(I, st, dest, r), dest, to)


@model(S + 'is_char_boundary')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    try:
        I.slice(st, v, a[1], None)
        r = 1
    except Panic:
        r = 0
    return I.value(st, ('i', r), dest, to)


@model('core::slice::<impl [T]>::first')
def _(I, st, i, a, dest, to):
    return slice_get(I, st, a[0], I0, dest, to)


@model('core::slice::<impl [T]>::get')
def _(I, st, i, a, dest, to):
    if a[1][0] == 'adt':
        v = deref(I, st, a[0])
        if v[0] != 'bs':
            raise Unknown('get')
        lo, hi = bounds(I, st, a[1])
        try:
            r = ('bs', I.byte_slice(st, v[1], lo, hi))
        except Panic:
            r = None
        return I.value(st, option(I, st, dest, r), dest, to)
    return slice_get(I, st, a[0], a[1], dest, to)


def slice_get(I, st, v, iv, dest, to):
    v = deref(I, st, v)
    if v[0] == 'arr':
        k = I.concrete(st, iv)
        r = ('refv', v[1][k]) if k < len(v[1]) else None
        return I.value(st, option(I, st, dest, r), dest, to)
    if v[0] != 'bs':
        raise Unknown('first of ' + v[0])
    try:
        b = I.byte_at(st, v, iv)
    except Panic:
        return I.value(st, option(I, st, dest, None), dest, to)
    return I.value(st, option(I, st, dest, ('refv', b)), dest, to)


@model('core::slice::<impl [T]>::split_first')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] != 'bs':
        raise Unknown('split_first')
    try:
        b = I.byte_at(st, v, I0)
        r = ('bs', I.byte_slice(st, v[1], I1, None))
    except Panic:
        return I.value(st, option(I, st, dest, None), dest, to)
    return I.value(st, option(I, st, dest, ('tup', (('refv', b), r))), dest, to)


@model('core::slice::<impl [T]>::starts_with')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    w = deref(I, st, a[1])
    if v[0] != 'bs':
        raise Unknown('starts_with')
    lit = bytes_lit(I, st, w)
    return I.value(st, ('i', int(starts(I, st, v[1], lit) is not None)), dest, to)


def bytes_lit(I, st, w):
    if w[0] == 'bs' and w[1][0] == 'lit':
        return w[1][1]
    if w[0] == 'arr':
        return bytes(I.concrete(st, x) for x in w[1]).decode()
    raise Unknown('byte literal')


@model('core::slice::<impl [T]>::contains')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    x = I.simp(st, deref(I, st, a[1]))
    if v[0] == 'bs' and v[1][0] == 'lit':
        vals = list(v[1][1].encode())
    elif v[0] == 'arr' and x[0] in ('s', 'lit'):
        for y in v[1]:
            y = deref(I, st, y)
            if y[0] not in ('s', 'lit'):
                raise Unknown('contains')
            if str_eq(I, st, x, y):
                return I.value(st, I1, dest, to)
        return I.value(st, I0, dest, to)
    elif v[0] == 'arr':
        vals = [I.concrete(st, y) for y in v[1]]
    else:
        raise Unknown('contains')
    if x[0] == 'i':
        return I.value(st, ('i', int(x[1] in vals)), dest, to)
    if x[0] == 'ch':
        pre, rest = P.preimages(x[2], set(vals))
        s = cs.union(*pre.values()) if pre else ()
        return I.value(st, I.simp(st, ('ch', x[1], P.from_set(s))), dest, to)
    raise Unknown('contains')


@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq',
       '<str as core::cmp::PartialEq>::eq')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', int(str_eq(I, st, strval(I, st, a[0]), strval(I, st, a[1])))), dest, to)


@model('core::str::traits::<impl core::cmp::PartialEq for str>::ne')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', int(not str_eq(I, st, strval(I, st, a[0]), strval(I, st, a[1])))), dest, to)


@model(S + 'is_ascii', 'core::slice::ascii::<impl [u8]>::is_ascii')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'bs':
        v = v[1]
    if v[0] == 'lit':
        return I.value(st, ('i', int(v[1].isascii())), dest, to)
    if v[0] != 's':
        raise Unknown('is_ascii of ' + v[0])
    return I.prim(st, 'isascii', (v,), dest, to)


@prim('isascii')
def _(I, st, f):
    x = first_char(I, st, f.v[0])
    if x is None:
        return I.finish(st, I1)
    if not I.truth(st, I.compare(st, 'Lt', x[0], ('i', 128)) if x[0][0] == 'ch' else ('i', int(x[0][1] < 128))):
        return I.finish(st, I0)
    f.v = (x[1],)
    st.touch.clear()
    return None


@model(S + 'eq_ignore_ascii_case')
def _(I, st, i, a, dest, to):
    s, l = strval(I, st, a[0]), strval(I, st, a[1])
    if l[0] != 'lit':
        s, l = l, s
    if l[0] != 'lit':
        raise Unknown('case-insensitive comparison')
    if s[0] == 'lit':
        return I.value(st, ('i', int(s[1].lower() == l[1].lower())), dest, to)
    r = nocase(I, st, s, l[1], ascii_only=True)
    ok = r is not None and I.at_end(st, r[1], r[2])
    return I.value(st, ('i', int(ok)), dest, to)


def nocase(I, st, s, lit, ascii_only):
    r = s[1]
    q = s[2]
    for ch in lit:
        if I.at_end(st, r, q):
            return None
        c = I.need(st, r)
        one = cs.of(''.join({ch.lower(), ch.upper()}) if ch.isascii() else ch)
        if not ascii_only and ch.lower() == 'k':
            one = cs.union(one, cs.single('\u212a'))
        x = cs.inter(c[0], one)
        if not x:
            return None
        if x != c[0]:
            raise NeedSplit(r, [x, cs.diff(c[0], one)])
        r = c[1]
    return ('s', r, q)


# ---------------------------------------------------------------- nom traits on &str
NS = "<&str as nom::traits::"


@model(NS + "Compare<&str>>::compare")
def _(I, st, i, a, dest, to):
    return compare_model(I, st, i, a, dest, to, False)


@model(NS + "Compare<&str>>::compare_no_case")
def _(I, st, i, a, dest, to):
    return compare_model(I, st, i, a, dest, to, True)


def compare_model(I, st, i, a, dest, to, nc):
    s = I.rest_of(strval(I, st, a[0]))
    l = strval(I, st, a[1])
    if l[0] != 'lit' or s[0] != 's':
        raise Unknown('compare')
    ty = ret_ty(I, i, st, dest)
    r = s[1]
    q = s[2]
    if nc:
        x = nocase(I, st, s, l[1], False)
    else:
        x = starts(I, st, s, l[1])
    if x is not None:
        return I.value(st, mk(I, ty, 'Ok'), dest, to)
    # nom tells a short input from a different one
    for ch in l[1]:
        if I.at_end(st, r, q):
            return I.value(st, mk(I, ty, 'Incomplete'), dest, to)
        c = I.need(st, r)
        one = cs.of(''.join({ch.lower(), ch.upper()})) if nc else cs.single(ch)
        if not cs.inter(c[0], one):
            break
        r = c[1]
    return I.value(st, mk(I, ty, 'Error'), dest, to)


@model(NS + "InputLength>::input_len")
def _(I, st, i, a, dest, to):
    return I.value(st, I.length(st, deref(I, st, a[0])), dest, to)


@model(NS + "InputTake>::take_split")
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    return I.value(st, ('tup', (I.slice(st, v, a[1], None), I.slice(st, v, None, a[1]))), dest, to)


@model(NS + "InputTake>::take")
def _(I, st, i, a, dest, to):
    return I.value(st, I.slice(st, strval(I, st, a[0]), None, a[1]), dest, to)


@model(NS + "Offset>::offset", "<str as nom::traits::Offset>::offset")
def _(I, st, i, a, dest, to):
    x, y = strval(I, st, a[0]), strval(I, st, a[1])
    if x[0] != 's' or y[0] != 's':
        raise Unknown('offset of a literal')
    return I.value(st, I.off(st, x[1], y[1]), dest, to)


@model(NS + "FindToken<char>>::find_token")
def _(I, st, i, a, dest, to):
    return find_token(I, st, a, dest, to)


@model(NS + "FindToken<u8>>::find_token")
def _(I, st, i, a, dest, to):
    return find_token(I, st, a, dest, to)


def find_token(I, st, a, dest, to):
    s = strval(I, st, a[0])
    c = I.simp(st, deref(I, st, a[1]))
    if s[0] != 'lit':
        raise Unknown('find_token')
    st_ = cs.of(s[1]) if s[1] else ()
    if c[0] == 'i':
        return I.value(st, ('i', int(cs.has(st_, c[1]))), dest, to)
    if c[0] == 'ch':
        pre, rest = P.preimages(c[2], {ord(x) for x in s[1]})
        return I.value(st, I.simp(st, ('ch', c[1], P.from_set(cs.union(*pre.values()) if pre else ()))), dest, to)
    raise Unknown('find_token')


# ---------------------------------------------------------------- chars
def uni(pred):
    iv = []
    for c in range(0, 0x110000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        if pred(chr(c)):
            if iv and iv[-1][1] == c - 1:
                iv[-1][1] = c
            else:
                iv.append([c, c])
    return cs.norm([tuple(x) for x in iv])


_uni = {}


def uniset(name):
    if name not in _uni:
        _uni[name] = {
            'is_alphabetic': lambda: uni(lambda c: c.isalpha() or unicodedata.category(c) in ('Nl',)),
            'is_numeric': lambda: uni(lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No')),
            'is_alphanumeric': lambda: uni(lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'No')),
            'is_whitespace': lambda: WHITE,
            'is_control': lambda: cs.norm([(0, 31), (127, 159)]),
            'is_uppercase': lambda: uni(lambda c: c.isupper()),
            'is_lowercase': lambda: uni(lambda c: c.islower()),
        }[name]()
    return _uni[name]


def char_pred(name):
    def h(I, st, i, a, dest, to):
        c = I.simp(st, deref(I, st, a[0]))
        s = uniset(name)
        if c[0] == 'i':
            return I.value(st, ('i', int(cs.has(s, c[1]))), dest, to)
        if c[0] == 'ch' and c[2] and all(p[2] == 1 and p[3] == 0 or (p[2] == 0 and p[0] == p[1] == p[3]) for p in c[2]):
            return I.value(st, I.simp(st, ('ch', c[1], P.from_set(s))), dest, to)
        raise Unknown('predicate on a derived character')
    return h


for _n in ('is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_whitespace', 'is_control', 'is_uppercase', 'is_lowercase'):
    MODELS['core::char::methods::<impl char>::' + _n] = char_pred(_n)


def ascii_case(up):
    def h(I, st, i, a, dest, to):
        c = I.simp(st, deref(I, st, a[0]))
        lo, hi, d = (0x61, 0x7A, -32) if up else (0x41, 0x5A, 32)
        fn = lambda v: v + d if lo <= v <= hi else v
        if c[0] == 'i':
            return I.value(st, ('i', fn(c[1])), dest, to)
        if c[0] == 'ch':
            out = []
            for a_, b_, m, v in c[2]:
                if m == 0:
                    out.append((a_, b_, 0, fn(v)))
                    continue
                for x, y, dd in ((a_, min(b_, lo - v - 1), 0), (max(a_, lo - v), min(b_, hi - v), d), (max(a_, hi - v + 1), b_, 0)):
                    if x <= y:
                        out.append((x, y, 1, v + dd))
            return I.value(st, I.simp(st, ('ch', c[1], tuple(out))), dest, to)
        raise Unknown('ascii case')
    return h


for _t in ('core::char::methods::<impl char>::', 'core::num::<impl u8>::'):
    MODELS[_t + 'to_ascii_uppercase'] = ascii_case(True)
    MODELS[_t + 'to_ascii_lowercase'] = ascii_case(False)


@model('core::char::methods::<impl char>::to_digit')
def _(I, st, i, a, dest, to):
    c = I.simp(st, a[0])
    base = I.concrete(st, a[1])
    if not 2 <= base <= 36 or c[0] not in ('i', 'ch'):
        return NotImplemented
    at = [(0x30, 0x30 + min(base, 10) - 1, 1, -0x30)]
    if base > 10:
        at += [(0x41, 0x41 + base - 11, 1, 10 - 0x41), (0x61, 0x61 + base - 11, 1, 10 - 0x61)]
    if c[0] == 'i':
        r = next((('i', c[1] + d) for x, y, _, d in at if x <= c[1] <= y), None)
        return I.value(st, option(I, st, dest, r), dest, to)
    if not all(p[2] == 1 and p[3] == 0 or (p[2] == 0 and p[0] == p[1] == p[3]) for p in c[2]):
        return NotImplemented
    r = None
    if I.truth(st, I.simp(st, ('ch', c[1], P.from_set(cs.norm([(x, y) for x, y, _, _ in at]))))):
        r = I.simp(st, ('ch', c[1], tuple(at)))
    return I.value(st, option(I, st, dest, r), dest, to)


@model('core::char::methods::<impl char>::len_utf8')
def _(I, st, i, a, dest, to):
    c = I.simp(st, a[0])
    if c[0] == 'i':
        return I.value(st, ('i', len(chr(c[1]).encode('utf8', 'surrogatepass'))), dest, to)
    if c[0] == 'ch' and all(p[2] == 1 and p[3] == 0 or (p[2] == 0 and p[0] == p[1] == p[3]) for p in c[2]):
        return I.value(st, I.simp(st, ('ch', c[1], P.LEN)), dest, to)
    raise Unknown('len_utf8')


MODELS["<char as nom::traits::AsChar>::len"] = lambda I, st, i, a, dest, to: \
    MODELS['core::char::methods::<impl char>::len_utf8'](I, st, i, [_deref1(I, st, a[0])], dest, to)
MODELS["<&char as nom::traits::AsChar>::len"] = MODELS["<char as nom::traits::AsChar>::len"]


def _deref1(I, st, v):
    return deref(I, st, v)


# ---------------------------------------------------------------- Vec, Box, mem
def vec_load(I, st, r):
    v = deref(I, st, r)
    if v[0] != 'vec':
        raise Unknown('vector ' + v[0])
    return v


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default')
def _(I, st, i, a, dest, to):
    return I.value(st, ('vec', None, ()), dest, to)


@model('alloc::vec::Vec::<T, A>::push')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    if I.lexical:
        store_through(I, st, a[0], ('vec', 'any', ()))
    else:
        store_through(I, st, a[0], ('vec', v[1], v[2] + (a[1],)))
    return I.value(st, UNIT, dest, to)


@model('alloc::vec::Vec::<T, A>::insert')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    k = I.concrete(st, a[1])
    if I.lexical:
        raise Unknown('insert')
    if v[1] is None:
        if k > len(v[2]):
            raise Panic('insertion index')
        store_through(I, st, a[0], ('vec', None, v[2][:k] + (a[2],) + v[2][k:]))
    else:
        store_through(I, st, a[0], ('vec', ('insert', k, v[1]), v[2] + (a[2],)))
    return I.value(st, UNIT, dest, to)


@model('alloc::vec::Vec::<T, A>::pop')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    if v[2]:
        store_through(I, st, a[0], ('vec', v[1], v[2][:-1]))
        return I.value(st, option(I, st, dest, v[2][-1]), dest, to)
    if v[1] is None:
        return I.value(st, option(I, st, dest, None), dest, to)
    raise Unknown('pop')


@model('alloc::vec::Vec::<T, A>::clear')
def _(I, st, i, a, dest, to):
    store_through(I, st, a[0], ('vec', None, ()))
    return I.value(st, UNIT, dest, to)


@model('alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact')
def _(I, st, i, a, dest, to):
    return I.value(st, UNIT, dest, to)


@model('alloc::vec::Vec::<T, A>::truncate', 'alloc::vec::Vec::<T, A>::dedup', 'core::slice::<impl [T]>::reverse',
       'alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::swap', 'alloc::vec::Vec::<T, A>::retain',
       'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right', 'core::slice::<impl [T]>::sort_unstable',
       'alloc::vec::Vec::<T, A>::dedup_by_key', 'alloc::vec::Vec::<T, A>::dedup_by')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    if v[1] is None and not v[2]:
        return I.value(st, UNIT, dest, to)
    store_through(I, st, a[0], ('vec', (i['name'].split('::')[-1], v[1]), v[2]))
    return I.value(st, UNIT, dest, to)


@model('alloc::vec::Vec::<T, A>::is_empty')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    if v[1] is None:
        return I.value(st, ('i', int(not v[2])), dest, to)
    if v[2]:
        return I.value(st, I0, dest, to)
    if isinstance(v[1], str) or v[1][0] == 'sync':
        return I.value(st, I0, dest, to)     # a vector that was pushed to
    raise Unknown('is_empty')


@model('alloc::vec::Vec::<T, A>::len')
def _(I, st, i, a, dest, to):
    v = vec_load(I, st, a[0])
    if v[1] is None:
        return I.value(st, ('i', len(v[2])), dest, to)
    return I.value(st, ANY, dest, to)


@model('alloc::vec::Vec::<T, A>::capacity')
def _(I, st, i, a, dest, to):
    return I.value(st, ANY, dest, to)


@model('alloc::boxed::Box::<T>::new_uninit')
def _(I, st, i, a, dest, to):
    f = st.fr[-1]
    if len(dest) != 1 or f.prim is not None:
        raise Unknown('heap cell')
    k = HEAP + dest[0]
    f.L.pop(k, None)
    return I.value(st, ('ref', len(st.fr) - 1, k, ()), dest, to)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(I, st, i, a, dest, to):
    v = st.fr[a[0][1]].L.get(a[0][2])
    while v is not None and v[0] == 'part' and len(v[1]) == 1:
        v = v[1][0][1]
    if v is None or v[0] != 'arr':
        raise Unknown('vector literal')
    del st.fr[a[0][1]].L[a[0][2]]
    return I.value(st, ('vec', 'any', ()) if I.lexical and v[1] else ('vec', None, v[1]), dest, to)


@model("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice')
def _(I, st, i, a, dest, to):
    return I.value(st, a[0], dest, to)


@model('<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')
def _(I, st, i, a, dest, to):
    return I.value(st, UNIT, dest, to)


@model('alloc::boxed::Box::<T>::new')
def _(I, st, i, a, dest, to):
    return I.value(st, ('box', a[0]), dest, to)


@model('core::mem::replace')
def _(I, st, i, a, dest, to):
    old = I.load_ref(st, a[0])
    store_through(I, st, a[0], a[1])
    return I.value(st, old, dest, to)


@model('core::mem::swap')
def _(I, st, i, a, dest, to):
    x, y = I.load_ref(st, a[0]), I.load_ref(st, a[1])
    store_through(I, st, a[0], y)
    store_through(I, st, a[1], x)
    return I.value(st, UNIT, dest, to)


@model('core::option::Option::<T>::take')
def _(I, st, i, a, dest, to):
    old = deref(I, st, a[0])
    store_through(I, st, a[0], option(I, st, dest, None))
    return I.value(st, old, dest, to)


@model('core::hint::black_box', 'core::hint::must_use', 'core::intrinsics::likely', 'core::intrinsics::unlikely',
       'core::mem::manually_drop::ManuallyDrop::<T>::new')
def _(I, st, i, a, dest, to):
    return I.value(st, a[0], dest, to)


@model('core::mem::drop', 'core::mem::forget', 'core::intrinsics::assert_inhabited', 'core::intrinsics::cold_path')
def _(I, st, i, a, dest, to):
    return I.value(st, UNIT, dest, to)


@model('core::intrinsics::discriminant_value')
def _(I, st, i, a, dest, to):
    return I.value(st, I.discr(deref(I, st, a[0])), dest, to)


@model('core::clone::impls::<impl core::clone::Clone for &T>::clone')
def _(I, st, i, a, dest, to):
    return I.value(st, I.proj(st, a[0], '*'), dest, to)


@model('core::num::<impl usize>::wrapping_add', 'core::num::<impl u8>::wrapping_add', 'core::num::<impl u32>::wrapping_add')
def _(I, st, i, a, dest, to):
    return I.value(st, I.binop(st, 'Add', a[0], a[1], ret_ty(I, i, st, dest)), dest, to)


@model('core::num::<impl usize>::wrapping_sub', 'core::num::<impl u8>::wrapping_sub', 'core::num::<impl u32>::wrapping_sub')
def _(I, st, i, a, dest, to):
    return I.value(st, I.binop(st, 'Sub', a[0], a[1], ret_ty(I, i, st, dest)), dest, to)


@model('core::num::<impl usize>::saturating_sub')
def _(I, st, i, a, dest, to):
    try:
        v = I.binop(st, 'Sub', a[0], a[1], ret_ty(I, i, st, dest))
    except Panic:
        v = I0
    if v[0] == 'i' and v[1] > 1 << 63:
        v = I0
    return I.value(st, v, dest, to)


def model_for(I, i, inst):
    m = I._fnkind.get(inst, False)
    if m is not False:
        return m
    path = i['npath']
    m = MODELS.get(path)
    if path in SLICE_EQ and flat(I, i):
        m = SLICE_EQ[path]
    if m is None:
        if path.startswith('<fn ') or ' as core::ops::function::Fn' in path and 'body' not in i:
            m = None
    I._fnkind[inst] = m
    return m


# trivia, once a function is shown to skip exactly that ------------------
@prim('trivia')
def _(I, st, f):
    """The reference automaton: done is the end of the last complete piece."""
    import spec
    mode, base, done, cur, inst = f.v
    m, at = mode[1], cur[1]
    slash, star = cs.of('/'), cs.of('*')

    def out(d):
        rt = I.p.insts[inst[1]]['body']['locals'][0]
        ok = I.p.variant_index(rt, 'Ok')
        vt = I.p.types[I.p.types[rt]['vs'][ok]['f'][0][1]]['ts'][1]
        val = ('s', base[1], d) if I.p.nn(vt) == '&str' else UNIT
        return I.finish(st, ('adt', rt, ok, (('tup', (('s', d, None), val)),)))
    c = I.need(st, at)
    if c == 'eof':
        return out(at if m in (0, 2) else done[1])
    if m == 0:
        sets = ((spec.WS, 0), (slash, 1))
    elif m == 1:
        sets = ((slash, 2), (star, 3))
    elif m == 2:
        sets = ((spec.NL, 0),)
    elif m == 3:
        sets = ((star, 4),)
    else:
        sets = ((slash, 0), (star, 4))
    to = {0: None, 1: None, 2: 2, 3: 3, 4: 3}[m]
    for x, n in sets:
        y = cs.inter(c[0], x)
        if y:
            if y != c[0]:
                raise NeedSplit(at, [y, cs.diff(c[0], x)])
            to = n
            break
    if to is None:
        return out(at if m == 0 else done[1])
    d = ('s', c[1], None) if to == 0 else ('s', at, None) if m == 0 else done
    f.v = (('num', to), base, d, ('s', c[1], None), inst)
    st.touch.clear()
    return None


def plain(v):
    if v[0] in ('tup', 'arr'):
        return all(plain(x) for x in v[1])
    if v[0] in ('adt', 'clo'):
        return all(plain(x) for x in v[-1])
    return v[0] in ('i', 'ch', 's', 'lit', 'fn', 'zst', 'bs', 'off', 'len', 'any')


@model('core::clone::Clone::clone')
def _(I, st, i, a, dest, to):
    # the compiler's own clone of tuples, arrays, closures and functions
    v = deref(I, st, a[0])
    if not plain(v):
        raise Unknown('clone of ' + v[0])
    return I.value(st, v, dest, to)


@model(S + 'ends_with')
def _(I, st, i, a, dest, to):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if x[0] == y[0] == 's' and x[2] == y[2] and I.pos_cmp(st, x[1], y[1]) <= 0:
        return I.value(st, I1, dest, to)
    return NotImplemented
