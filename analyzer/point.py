"""Evaluation of the dumped code at one point of the abstract domain: a fixed text.

Used for one purpose only: an abstract counterexample (a disagreement, or a place where
the abstraction gives up) is reported only if there is a text that realises it, so the
candidate texts are pushed through the code with every value known.  It proves nothing
and no property is ever called held because of it.
"""
import re

import charset as cs
import models
import pieces as P
import refparse
import spec
from interp import I0, I1, OP, OPX, UNIT, Interp, Panic, Unknown, LOST
from models import deref, mk, option, ret_ty, store_through, strval

POINT = {}
KINDS = {}


def point(*paths):
    def d(f):
        for p in paths:
            POINT[p] = f
        return f
    return d


class PointInterp(Interp):
    def __init__(self, prog, text, oracle, helper=None, limit=4000000):
        Interp.__init__(self, prog, oracle=oracle, lexical=False, helper=helper, limit=limit)
        self._fnkind = KINDS.setdefault(id(prog), {})
        self.text = text
        self.pk = refparse.Packrat(text)
        self.bo = [0]
        for c in text:
            self.bo.append(self.bo[-1] + len(c.encode('utf8', 'surrogatepass')))
        self.inv = {b: i for i, b in enumerate(self.bo)}
        n = len(text)
        self.tape = {i: (cs.single(c), i + 1) for i, c in enumerate(text)}
        self.tape[n] = 'eof'
        self.n = n

    def begin(self, inst):
        st = self.start(inst, [('s', 0, None)])
        st.cells = self.tape
        st.nid = self.n + 1
        return st

    # positions are character indices
    def at(self, p):
        return self.n if p is None or p == 'E' else p

    def rest_of(self, v):
        return ('s', self.n, None) if v == ('lit', '') else v

    def error_place(self, st, s):
        s = self.rest_of(s)
        if s[0] == 's':
            return OP if self.at(s[2]) == self.n else OPX
        return s if s in (OP, OPX) else OPX

    def pos_eq(self, st, a, b):
        return self.at(a) == self.at(b)

    def pos_cmp(self, st, a, b):
        a, b = self.at(a), self.at(b)
        return (a > b) - (a < b)

    def off(self, st, p, q):
        return ('i', self.bo[self.at(q)] - self.bo[self.at(p)])

    def length(self, st, v):
        w = v
        while w[0] in ('ref', 'refv'):
            w = self.proj(st, w, '*')
        if w[0] == 'bs':
            w = w[1]
        if w[0] == 's':
            return self.off(st, w[1], w[2])
        if w[0] == 'vec':
            return ('i', len(w[2]))
        return Interp.length(self, st, v)

    def walk(self, st, p, q, n, what='index'):
        t = self.bo[self.at(p)] + n
        if t > self.bo[self.at(q)] or n < 0:
            raise Panic('%s out of range' % what)
        r = self.inv.get(t)
        if r is None:
            raise Panic('%s not on a character boundary' % what)
        return r

    def byte_at(self, st, v, iv):
        if v[0] == 'bs':
            b = pystr(self, v[1]).encode('utf8', 'surrogatepass')
            k = self.concrete(st, iv)
            if k >= len(b):
                raise Panic('index out of bounds')
            return ('i', b[k])
        return Interp.byte_at(self, st, v, iv)

    # other grammar types
    def ask(self, st, name, arg, dest, to, inst):
        s = deref(self, st, arg)
        if s[0] != 's':
            raise Unknown('grammar type on a string that is not the input')
        p, q = self.at(s[1]), s[2]
        pk = self.pk if q is None or self.at(q) == self.n else refparse.Packrat(self.text[:self.at(q)])
        rt = self.p.insts[inst]['body']['locals'][0]
        ok, err = self.p.variant_index(rt, 'Ok'), self.p.variant_index(rt, 'Err')
        tt = self.p.types[rt]['vs'][ok]['f'][0][1]
        vt = self.p.types[tt]['ts'][1]
        if name == '$sp':
            r = (pk.sp(p), None)
            val = ('s', p, r[0]) if self.p.nn(vt) == '&str' else LOST
        else:
            r = pk.nt(name, p)
            if r is not None:
                if pk is self.pk:
                    t = self.p.types[vt]
                    val = ('adt', vt, 0, ()) if t['k'] == 'adt' and len(t['vs']) == 1 and not t['vs'][0]['f'] else \
                        ('nt', name, p, vt)
                else:
                    val = self.build(r[1], vt)
        if r is None:
            et = self.p.types[rt]['vs'][err]['f'][0][1]
            v = ('adt', rt, err, (('adt', et, self.p.variant_index(et, 'Error'), (OP,)),))
        else:
            v = ('adt', rt, ok, (('tup', (('s', r[0], q), val)),))
        return self.value(st, v, dest, to)

    def open(self, v):
        """The value of a grammar type, one level unfolded."""
        r = self.pk.nt(v[1], v[2])
        if r is None:
            raise Unknown('value of a failed type')
        return self.build(r[1], v[3])

    def build(self, tree, ty):
        t = self.p.types[ty]
        k = tree[0]
        if k == 'unit':
            return ('adt', ty, 0, ())
        if k == 'lit':
            return ('adt', ty, 0, (('s', tree[2], tree[3]),))
        if k == 'none':
            return mk(self, ty, 'None')
        if k == 'some':
            i = self.p.variant_index(ty, 'Some')
            return ('adt', ty, i, (self.build(tree[1], t['vs'][i]['f'][0][1]),))
        if k == 'box':
            return ('box', self.build(tree[1], [x for x in t['args'] if isinstance(x, int)][0]))
        if k == 'vec':
            et = [x for x in t['args'] if isinstance(x, int)][0]
            return ('vec', None, tuple(self.build(x, et) for x in tree[1]))
        if k == 't':
            return ('tup', tuple(self.build(x, u) for x, u in zip(tree[1], t['ts'])))
        if k == 'b':
            return ('i', tree[1])
        if k == 'S':
            d = dict(tree[2])
            return ('adt', ty, 0, tuple(self.build(d[f[0]], f[1]) for f in t['vs'][0]['f']))
        if k == 'V':
            i = self.p.variant_index(ty, tree[2])
            return ('adt', ty, i, (self.build(tree[3], t['vs'][i]['f'][0][1]),))
        raise Unknown('value ' + k)

    def proj(self, st, v, e):
        if v[0] == 'nt' and e != '*' and e != 'oc':
            v = self.open(v)
        if v[0] == 'vec' and isinstance(e, (list, tuple)) and e[0] == 'ci':
            n = len(v[2])
            k = n - e[1] if e[3] else e[1]
            if not 0 <= k < n:
                raise Panic('index out of bounds')
            return v[2][k]
        if v[0] == 'vec' and e == '*':
            return v
        return Interp.proj(self, st, v, e)

    def index(self, st, f, v, local):
        if v[0] == 'vec':
            k = self.concrete(st, f.L[local])
            if k >= len(v[2]):
                raise Panic('index out of bounds')
            return v[2][k]
        return Interp.index(self, st, f, v, local)

    def update(self, st, v, path, val):
        if path and v is not None and v[0] == 'nt':
            v = self.open(v)
        if path and v is not None and v[0] == 'vec':
            e = path[0]
            if e == '*':
                return self.update(st, v, path[1:], val)
            if e[0] == 'ci':
                es = list(v[2])
                k = len(es) - e[1] if e[3] else e[1]
                es[k] = self.update(st, es[k], path[1:], val)
                return ('vec', None, tuple(es))
        return Interp.update(self, st, v, path, val)

    def discr(self, v):
        if v[0] == 'nt':
            v = self.open(v)
        return Interp.discr(self, v)

    def call_inst(self, st, inst, path, args, dest, to, fd):
        if inst is not None and (to is not None or st.fr[-1].prim is not None):
            i = self.p.insts[inst]
            self.modelled = i
            m = POINT.get(i['npath'])
            if m is not None and not (inst in self.p.parse_of):
                r = m(self, st, i, args, dest, to)
                if r is not NotImplemented:
                    return r
        return Interp.call_inst(self, st, inst, path, args, dest, to, fd)


# ------------------------------------------------------------------ strings
def pystr(I, v):
    if v[0] == 'lit':
        return v[1]
    if v[0] == 's':
        return I.text[I.at(v[1]):I.at(v[2])]
    raise Unknown('string ' + v[0])


def sub(I, v, a, b):
    if v[0] == 'lit':
        return ('lit', v[1][a:b])
    p = I.at(v[1])
    q = p + b
    return ('s', p + a, None if v[2] is None and q == I.n else q)


S = 'core::str::<impl str>::'
WH = models.WHITE


def white(c):
    return cs.has(WH, ord(c))


def trimmer(start, end):
    def h(I, st, i, a, dest, to):
        v = strval(I, st, a[0])
        s = pystr(I, v)
        test = white
        if len(a) > 1:
            pat = models.pattern(I, st, i, a[1])
            if pat[0] == 'fn':
                return NotImplemented
            if pat[0] == 'str':
                lo, hi = 0, len(s)
                if start:
                    while pat[1] and s.startswith(pat[1], lo):
                        lo += len(pat[1])
                if end:
                    while pat[1] and hi > lo and s.endswith(pat[1], lo, hi):
                        hi -= len(pat[1])
                return I.value(st, sub(I, v, lo, hi), dest, to)
            test = (lambda c: ord(c) == pat[1]) if pat[0] == 'char' else (lambda c: cs.has(pat[1], ord(c)))
        lo, hi = 0, len(s)
        if start:
            while lo < hi and test(s[lo]):
                lo += 1
        if end:
            while hi > lo and test(s[hi - 1]):
                hi -= 1
        return I.value(st, sub(I, v, lo, hi), dest, to)
    return h


for _n, _s, _e in (('trim', 1, 1), ('trim_start', 1, 0), ('trim_end', 0, 1), ('trim_left', 1, 0), ('trim_right', 0, 1),
                   ('trim_matches', 1, 1), ('trim_start_matches', 1, 0), ('trim_end_matches', 0, 1),
                   ('trim_left_matches', 1, 0), ('trim_right_matches', 0, 1)):
    POINT[S + _n] = trimmer(_s, _e)


def plain_pattern(I, st, i, v):
    """A pattern as a function text, from -> (start, end) of its first match."""
    pat = models.pattern(I, st, i, v)
    if pat[0] == 'fn':
        return None
    if pat[0] == 'str':
        def f(s, k):
            j = s.find(pat[1], k)
            return None if j < 0 else (j, j + len(pat[1]))
        return f

    def g(s, k):
        while k < len(s):
            if (ord(s[k]) == pat[1]) if pat[0] == 'char' else cs.has(pat[1], ord(s[k])):
                return k, k + 1
            k += 1
        return None
    return g


def blen(s):
    return len(s.encode('utf8', 'surrogatepass'))


@point(S + 'find')
def _(I, st, i, a, dest, to):
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        return NotImplemented
    s = pystr(I, strval(I, st, a[0]))
    m = f(s, 0)
    return I.value(st, option(I, st, dest, None if m is None else ('i', blen(s[:m[0]]))), dest, to)


@point(S + 'rfind')
def _(I, st, i, a, dest, to):
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        raise Unknown('rfind')
    s = pystr(I, strval(I, st, a[0]))
    best = None
    k = 0
    while k <= len(s):
        m = f(s, k)
        if m is None:
            break
        best = m[0]
        k = m[0] + 1
    return I.value(st, option(I, st, dest, None if best is None else ('i', blen(s[:best]))), dest, to)


@point(S + 'contains')
def _(I, st, i, a, dest, to):
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        return NotImplemented
    return I.value(st, ('i', int(f(pystr(I, strval(I, st, a[0])), 0) is not None)), dest, to)


@point(S + 'ends_with')
def _(I, st, i, a, dest, to):
    s = pystr(I, strval(I, st, a[0]))
    return I.value(st, ('i', int(suffix(I, st, i, s, a[1]) is not None)), dest, to)


@point(S + 'strip_suffix')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    s = pystr(I, v)
    k = suffix(I, st, i, s, a[1])
    return I.value(st, option(I, st, dest, None if k is None else sub(I, v, 0, k)), dest, to)


def suffix(I, st, i, s, w):
    pat = models.pattern(I, st, i, w)
    if pat[0] == 'str':
        return len(s) - len(pat[1]) if s.endswith(pat[1]) else None
    if pat[0] == 'fn':
        raise Unknown('pattern at the end')
    if s and ((ord(s[-1]) == pat[1]) if pat[0] == 'char' else cs.has(pat[1], ord(s[-1]))):
        return len(s) - 1
    return None


def pieces_of(I, st, i, v, w, mode, n=None):
    f = plain_pattern(I, st, i, w)
    if f is None:
        raise Unknown('split by a function')
    s = pystr(I, v)
    out = []
    k = j = 0
    while n is None or len(out) < n - 1:
        m = f(s, j)
        if m is None:
            break
        out.append(sub(I, v, k, m[1] if mode == 'inclusive' else m[0]))
        k = m[1]
        j = m[1] if m[1] > m[0] else m[1] + 1
    if not (mode in ('inclusive', 'terminator') and k == len(s)):
        out.append(sub(I, v, k, len(s)))
    return tuple(out)


def seq(items):
    return ('it', 'seq', ('arr', tuple(items)))


@point(S + 'split')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(pieces_of(I, st, i, strval(I, st, a[0]), a[1], '')), dest, to)


@point(S + 'rsplit')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(pieces_of(I, st, i, strval(I, st, a[0]), a[1], '')[::-1]), dest, to)


@point(S + 'split_terminator')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(pieces_of(I, st, i, strval(I, st, a[0]), a[1], 'terminator')), dest, to)


@point(S + 'split_inclusive')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(pieces_of(I, st, i, strval(I, st, a[0]), a[1], 'inclusive')), dest, to)


@point(S + 'splitn')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(pieces_of(I, st, i, strval(I, st, a[0]), a[2], '', I.concrete(st, a[1]))), dest, to)


@point(S + 'lines')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    s = pystr(I, v)
    out = []
    k = 0
    while k < len(s):
        j = s.find('\n', k)
        e = len(s) if j < 0 else j
        z = e - 1 if j >= 0 and e > k and s[e - 1] == '\r' else e
        out.append(sub(I, v, k, z))
        k = e + 1
    return I.value(st, seq(out), dest, to)


@point(S + 'split_whitespace', S + 'split_ascii_whitespace')
def _(I, st, i, a, dest, to):
    v = strval(I, st, a[0])
    s = pystr(I, v)
    out = []
    k = 0
    while k < len(s):
        if white(s[k]):
            k += 1
            continue
        j = k
        while j < len(s) and not white(s[j]):
            j += 1
        out.append(sub(I, v, k, j))
        k = j
    return I.value(st, seq(out), dest, to)


@point(S + 'split_once')
def _(I, st, i, a, dest, to):
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        return NotImplemented
    v = strval(I, st, a[0])
    s = pystr(I, v)
    m = f(s, 0)
    r = None if m is None else ('tup', (sub(I, v, 0, m[0]), sub(I, v, m[1], len(s))))
    return I.value(st, option(I, st, dest, r), dest, to)


@point(S + 'rsplit_once')
def _(I, st, i, a, dest, to):
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        raise Unknown('rsplit_once')
    v = strval(I, st, a[0])
    s = pystr(I, v)
    best = None
    k = 0
    while k <= len(s):
        m = f(s, k)
        if m is None:
            break
        best = m
        k = m[0] + 1
    r = None if best is None else ('tup', (sub(I, v, 0, best[0]), sub(I, v, best[1], len(s))))
    return I.value(st, option(I, st, dest, r), dest, to)


def owned(fn):
    def h(I, st, i, a, dest, to):
        return I.value(st, ('lit', fn(pystr(I, strval(I, st, a[0])))), dest, to)
    return h


def ascii_lower(s):
    return ''.join(c.lower() if c.isascii() else c for c in s)


def ascii_upper(s):
    return ''.join(c.upper() if c.isascii() else c for c in s)


for _n, _f in (('to_lowercase', str.lower), ('to_uppercase', str.upper), ('to_ascii_lowercase', ascii_lower),
               ('to_ascii_uppercase', ascii_upper), ('into_string', str)):
    POINT['alloc::str::<impl str>::' + _n] = owned(_f)
for _n in ('<alloc::string::String as core::convert::From<&str>>::from', 'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned',
           '<str as alloc::string::ToString>::to_string', '<str as alloc::string::SpecToString>::spec_to_string',
           '<T as alloc::string::ToString>::to_string', '<alloc::string::String as core::clone::Clone>::clone',
           '<str as alloc::borrow::ToOwned>::to_owned', '<alloc::string::String as core::str::traits::FromStr>::from_str'):
    POINT[_n] = owned(str)


@point('alloc::str::<impl str>::replace')
def _(I, st, i, a, dest, to):
    pat = models.pattern(I, st, i, a[1])
    if pat[0] not in ('char', 'str'):
        raise Unknown('replace')
    s = pystr(I, strval(I, st, a[0]))
    return I.value(st, ('lit', s.replace(chr(pat[1]) if pat[0] == 'char' else pat[1], pystr(I, strval(I, st, a[2])))), dest, to)


@point('alloc::string::String::new')
def _(I, st, i, a, dest, to):
    return I.value(st, ('lit', ''), dest, to)


@point('alloc::string::String::push_str')
def _(I, st, i, a, dest, to):
    s = deref(I, st, a[0])
    store_through(I, st, a[0], ('lit', pystr(I, s) + pystr(I, strval(I, st, a[1]))))
    return I.value(st, UNIT, dest, to)


@point('alloc::string::String::push')
def _(I, st, i, a, dest, to):
    s = deref(I, st, a[0])
    store_through(I, st, a[0], ('lit', pystr(I, s) + chr(I.concrete(st, a[1]))))
    return I.value(st, UNIT, dest, to)


@point('<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str',
       '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow',
       'alloc::string::String::into_boxed_str', 'alloc::boxed::Box::<T>::leak', 'alloc::boxed::Box::<T, A>::leak',
       'alloc::string::String::leak')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    while v[0] == 'box':
        v = v[1]
    if v[0] not in ('lit', 's'):
        return NotImplemented
    return I.value(st, v, dest, to)


@point('alloc::string::String::len')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', blen(pystr(I, strval(I, st, a[0])))), dest, to)


def str_rel(fn):
    def h(I, st, i, a, dest, to):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        if x[0] not in ('s', 'lit') or y[0] not in ('s', 'lit'):
            return NotImplemented
        return I.value(st, ('i', int(fn(pystr(I, x), pystr(I, y)))), dest, to)
    return h


for _a in ('str', 'alloc::string::String', '&str'):
    for _b in ('', '<str>', '<&str>', '<alloc::string::String>'):
        for _m, _f in (('eq', lambda x, y: x == y), ('ne', lambda x, y: x != y)):
            POINT['<%s as core::cmp::PartialEq%s>::%s' % (_a, _b, _m)] = str_rel(_f)
            POINT['core::str::traits::<impl core::cmp::PartialEq%s for %s>::%s' % (_b, _a, _m)] = str_rel(_f)
            POINT['alloc::string::<impl core::cmp::PartialEq%s for %s>::%s' % (_b, _a, _m)] = str_rel(_f)
POINT[S + 'eq_ignore_ascii_case'] = str_rel(lambda x, y: ascii_lower(x) == ascii_lower(y))


def str_cmp(I, st, i, a, dest, to):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if x[0] not in ('s', 'lit') or y[0] not in ('s', 'lit'):
        return NotImplemented
    x, y = pystr(I, x).encode('utf8', 'surrogatepass'), pystr(I, y).encode('utf8', 'surrogatepass')
    v = mk(I, order_ty(I, i), 'Less' if x < y else 'Greater' if x > y else 'Equal')
    if i['npath'].endswith('partial_cmp'):
        v = option(I, st, dest, v)
    return I.value(st, v, dest, to)


def order_ty(I, i):
    for k, t in enumerate(I.p.types):
        if t['k'] == 'adt' and t['path'] == 'core::cmp::Ordering':
            return k
    raise Unknown('Ordering')


for _n in ('core::str::traits::<impl core::cmp::Ord for str>::cmp', '<str as core::cmp::Ord>::cmp',
           'core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp', '<str as core::cmp::PartialOrd>::partial_cmp'):
    POINT[_n] = str_cmp


def number(I, st, i, a, dest, to):
    """str::parse for integers and floats."""
    ty = ret_ty(I, i, st, dest)
    ok = I.p.variant_index(ty, 'Ok')
    n = I.p.nn(I.p.types[ty]['vs'][ok]['f'][0][1])
    s = pystr(I, strval(I, st, a[0]))
    from interp import INT_BITS
    if n in INT_BITS and n not in ('char', 'bool'):
        bits, sg = INT_BITS[n], n[0] == 'i'
        t = s[1:] if s[:1] == '+' or (sg and s[:1] == '-') else s
        good = t.isascii() and t.isdigit()
        v = int(s) if good else None
        if good and not (-(1 << bits - 1) if sg else 0) <= v < (1 << bits - (1 if sg else 0)):
            good = False
        return I.value(st, mk(I, ty, 'Ok', ('i', v)) if good else mk(I, ty, 'Err', LOST), dest, to)
    raise Unknown('parse of ' + n)


POINT[S + 'parse'] = number


@point(S + 'char_indices')
def _(I, st, i, a, dest, to):
    s = pystr(I, strval(I, st, a[0]))
    out = []
    k = 0
    for c in s:
        out.append(('tup', (('i', k), ('i', ord(c)))))
        k += blen(c)
    return I.value(st, seq(out), dest, to)


@point(S + 'bytes')
def _(I, st, i, a, dest, to):
    s = pystr(I, strval(I, st, a[0]))
    return I.value(st, seq([('i', b) for b in s.encode('utf8', 'surrogatepass')]), dest, to)


@point("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::count")
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] == 'it' and v[1] == 'chars':
        return I.value(st, ('i', len(pystr(I, v[2]))), dest, to)
    return NotImplemented


@point("<core::str::iter::Chars as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    s = pystr(I, v[2])
    if not s:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, a[0], ('it', 'chars', sub(I, v[2], 0, len(s) - 1)))
    return I.value(st, option(I, st, dest, ('i', ord(s[-1]))), dest, to)


@point("<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::last")
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    s = pystr(I, v[2])
    return I.value(st, option(I, st, dest, ('i', ord(s[-1])) if s else None), dest, to)


# ------------------------------------------------------------------ sequences
def items(I, st, v):
    v = deref(I, st, v)
    while v[0] == 'box':
        v = v[1]
    if v[0] == 'vec' and v[1] is None:
        return v[2]
    if v[0] == 'arr':
        return v[1]
    if v[0] == 'bs':
        return tuple(('i', b) for b in pystr(I, v[1]).encode('utf8', 'surrogatepass'))
    raise Unknown('sequence ' + v[0])


V = 'alloc::vec::Vec::<T, A>::'
SL = 'core::slice::<impl [T]>::'


@point('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def _(I, st, i, a, dest, to):
    return I.value(st, seq(items(I, st, a[0])), dest, to)


@point("<&alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter", SL + 'iter',
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &[T]>::into_iter")
def _(I, st, i, a, dest, to):
    return I.value(st, seq([('refv', x) for x in items(I, st, a[0])]), dest, to)


@point(V + 'drain')
def _(I, st, i, a, dest, to):
    xs = items(I, st, a[0])
    lo, hi = models.bounds(I, st, a[1])
    lo = 0 if lo is None else I.concrete(st, lo)
    hi = len(xs) if hi is None else I.concrete(st, hi)
    if lo > hi or hi > len(xs):
        raise Panic('drain range')
    store_through(I, st, a[0], ('vec', None, xs[:lo] + xs[hi:]))
    return I.value(st, seq(xs[lo:hi]), dest, to)


def is_seq(v):
    return v[0] == 'it' and v[1] == 'seq'


ITERS = ('alloc::vec::into_iter::IntoIter<T, A>', 'core::slice::iter::Iter<T>', 'alloc::vec::drain::Drain<T, A>',
         'core::str::iter::Split<P>', 'core::str::iter::Lines', 'core::str::iter::SplitWhitespace', 'core::str::iter::CharIndices',
         'core::str::iter::Bytes', 'core::str::iter::SplitN<P>', 'core::str::iter::RSplit<P>', 'core::str::iter::SplitTerminator<P>',
         'core::str::iter::SplitInclusive<P>', 'core::str::iter::SplitAsciiWhitespace', 'core::array::iter::IntoIter<T, N>',
         'core::iter::adapters::zip::Zip<A, B>')


def it_next(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if not is_seq(v):
        return NotImplemented
    xs = v[2][1]
    if not xs:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, a[0], seq(xs[1:]))
    return I.value(st, option(I, st, dest, xs[0]), dest, to)


def it_hint(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if not is_seq(v):
        return NotImplemented
    n = ('i', len(v[2][1]))
    ty = I.p.types[ret_ty(I, i, st, dest)]
    return I.value(st, ('tup', (n, mk(I, ty['ts'][1], 'Some', n))), dest, to)


def it_back(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if not is_seq(v):
        return NotImplemented
    xs = v[2][1]
    if not xs:
        return I.value(st, option(I, st, dest, None), dest, to)
    store_through(I, st, a[0], seq(xs[:-1]))
    return I.value(st, option(I, st, dest, xs[-1]), dest, to)


def it_nth(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if not is_seq(v):
        return NotImplemented
    xs = v[2][1]
    k = I.concrete(st, a[1])
    store_through(I, st, a[0], seq(xs[k + 1:]))
    return I.value(st, option(I, st, dest, xs[k] if k < len(xs) else None), dest, to)


def it_count(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    return I.value(st, ('i', len(v[2][1])), dest, to) if is_seq(v) else NotImplemented


def it_last(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    return I.value(st, option(I, st, dest, v[2][1][-1] if v[2][1] else None), dest, to) if is_seq(v) else NotImplemented


def looper(mode):
    def h(I, st, i, a, dest, to):
        v = deref(I, st, a[0])
        if not is_seq(v):
            return NotImplemented
        rty = ret_ty(I, i, st, dest)
        acc = a[1] if mode == 'fold' else I0
        fn = a[2] if mode == 'fold' else a[1]
        src = a[0] if a[0][0] == 'ref' else UNIT
        return I.prim(st, 'seqloop', (('lit', mode), ('arr', v[2][1]), fn, acc, ('num', rty), src), dest, to)
    return h


@models.prim('seqloop')
def _(I, st, f):
    mode, xs, fn, acc, rty, src = f.v
    mode = mode[1]
    xs = xs[1]
    k = 0
    if f.rv is not None:
        r = f.rv
        f.rv = None
        cur = xs[0]
        xs = xs[1:]
        k = I.concrete(st, acc) if acc[0] == 'i' and mode != 'fold' else 0
        stop = None
        if mode == 'fold':
            acc = r
        elif mode == 'for_each':
            pass
        else:
            b = I.truth(st, r)
            if mode == 'any' and b:
                stop = I1
            elif mode == 'all' and not b:
                stop = I0
            elif mode == 'find' and b:
                stop = mk(I, rty[1], 'Some', cur)
            elif mode == 'position' and b:
                stop = mk(I, rty[1], 'Some', ('i', k))
            acc = ('i', k + 1)
        f.v = (f.v[0], ('arr', xs), fn, acc, rty, src)
        if stop is not None:
            if src[0] == 'ref':
                store_through(I, st, src, seq(xs))
            return I.finish(st, stop)
    if not xs:
        if src[0] == 'ref':
            store_through(I, st, src, seq(()))
        end = {'any': I0, 'all': I1, 'for_each': UNIT, 'fold': acc}.get(mode)
        if end is None:
            end = mk(I, rty[1], 'None')
        return I.finish(st, end)
    if mode == 'fold':
        args = [acc, xs[0]]
    elif mode == 'find':
        args = [('refv', xs[0])]
    else:
        args = [xs[0]]
    call_closure(I, st, f, fn, args)
    return None


def call_closure(I, st, f, fn, args):
    """Calls a closure; it lives in the primitive's frame, so that it keeps what it changes."""
    if fn[0] == 'clo':
        if -2 not in f.L:
            f.L[-2] = fn
        I.invoke(st, ('ref', len(st.fr) - 1, -2, ()), args, None, None)
    else:
        I.invoke(st, fn, args, None, None)


for _t in ITERS:
    _b = '<%s as core::iter::traits::iterator::Iterator>::' % _t
    POINT[_b + 'next'] = it_next
    POINT[_b + 'nth'] = it_nth
    POINT[_b + 'count'] = it_count
    POINT[_b + 'last'] = it_last
    for _m in ('any', 'all', 'find', 'position', 'for_each', 'fold'):
        POINT[_b + _m] = looper(_m)
    POINT[_b + 'size_hint'] = it_hint
    POINT['<%s as core::iter::traits::double_ended::DoubleEndedIterator>::next_back' % _t] = it_back
    POINT['<%s as core::iter::traits::exact_size::ExactSizeIterator>::len' % _t] = it_count


def generic_iter(mode, fn=None):
    """Default methods of Iterator, when the receiver is one of the sequences above."""
    def h(I, st, i, a, dest, to):
        v = deref(I, st, a[0])
        if not is_seq(v):
            return NotImplemented
        return fn(I, st, i, a, dest, to)
    return h


for _m in ('any', 'all', 'find', 'position', 'for_each', 'fold'):
    POINT['core::iter::traits::iterator::Iterator::' + _m] = generic_iter(_m, looper(_m))
POINT['core::iter::traits::iterator::Iterator::count'] = generic_iter('count', it_count)
POINT['core::iter::traits::iterator::Iterator::last'] = generic_iter('last', it_last)
POINT['core::iter::traits::iterator::Iterator::nth'] = generic_iter('nth', it_nth)


def known_items(I, st, v):
    v = deref(I, st, v)
    if is_seq(v):
        return v[2][1]
    if v[0] == 'it' and v[1] == 'chars':
        return tuple(('i', ord(c)) for c in pystr(I, v[2]))
    return None


@point('core::iter::traits::iterator::Iterator::zip', 'core::iter::adapters::zip::zip')
def _(I, st, i, a, dest, to):
    x, y = known_items(I, st, a[0]), known_items(I, st, a[1])
    if y is None and deref(I, st, a[1])[0] in ('vec', 'arr'):
        y = items(I, st, a[1])
        if a[1][0] in ('ref', 'refv'):
            y = tuple(('refv', e) for e in y)
    if x is None or y is None:
        return NotImplemented
    return I.value(st, seq([('tup', p) for p in zip(x, y)]), dest, to)


@point('core::iter::traits::iterator::Iterator::collect',
       '<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter')
def _(I, st, i, a, dest, to):
    rty = ret_ty(I, i, st, dest)
    n = I.p.nn(rty)
    v = deref(I, st, a[0])
    if n.startswith('Vec<'):
        if is_seq(v):
            return I.value(st, ('vec', None, v[2][1]), dest, to)
        args = [x for x in i['args'] if isinstance(x, int)]
        for ty in args:
            nx = next_inst(I, ty)
            if nx is not None:
                return I.prim(st, 'collect', (v, ('num', nx), ('vec', None, ()), ('num', 0)), dest, to)
    if n == 'String' and not is_seq(v):
        for ty in [x for x in i['args'] if isinstance(x, int)]:
            nx = next_inst(I, ty)
            if nx is not None:
                return I.prim(st, 'collect', (v, ('num', nx), ('vec', None, ()), ('num', 1)), dest, to)
    if n == 'String' and is_seq(v):
        return I.value(st, ('lit', ''.join(chr(x[1]) if x[0] == 'i' else pystr(I, x) for x in v[2][1])), dest, to)
    raise Unknown('collect into ' + n)


def next_inst(I, ty):
    """The instance of Iterator::next for an iterator type."""
    name = I.p.nn(ty)
    for k, i in enumerate(I.p.insts):
        if i is None or 'body' not in i or not i['npath'].endswith('::next'):
            continue
        b = i['body']
        if b['argc'] == 1 and I.p.types[b['locals'][1]]['k'] == 'ref' and I.p.types[b['locals'][1]].get('t') == ty:
            return k
    return None


@models.prim('collect')
def _(I, st, f):
    it, nx, acc, started = f.v
    if f.rv is not None:
        r = f.rv
        f.rv = None
        vs = I.p.types[r[1]]['vs'][r[2]]['n']
        # the iterator lives in local -1 of the helper frame: fetch it back
        it = f.L.get(-1, it)
        if vs == 'None':
            if started[1]:
                acc = ('lit', ''.join(chr(x[1]) if x[0] == 'i' else pystr(I, deref(I, st, x)) for x in acc[2]))
            return I.finish(st, acc)
        acc = ('vec', None, acc[2] + (r[3][0],))
        f.v = (it, nx, acc, started)
        return None
    f.L[-1] = it
    d = len(st.fr) - 1
    I.call_inst(st, nx[1], None, [('ref', d, -1, ())], None, None, None)
    return None


# ------------------------------------------------------------------ vectors
@point(V + 'push')
def _(I, st, i, a, dest, to):
    store_through(I, st, a[0], ('vec', None, items(I, st, a[0]) + (a[1],)))
    return I.value(st, UNIT, dest, to)


def changer(fn):
    def h(I, st, i, a, dest, to):
        xs = items(I, st, a[0])
        ys = fn(I, st, xs, a)
        store_through(I, st, a[0], ('vec', None, tuple(ys)))
        return I.value(st, UNIT, dest, to)
    return h


def value_key(I, st, v):
    """Structure of a value with strings by text, ordered as derived comparisons order it."""
    v = deref(I, st, v)
    while v[0] == 'box':
        v = v[1]
    if v[0] == 'nt':
        v = I.open(v)
    k = v[0]
    if k == 'adt':
        return (0, v[2]) + tuple(value_key(I, st, x) for x in v[3])
    if k in ('tup', 'arr'):
        return (1,) + tuple(value_key(I, st, x) for x in v[1])
    if k == 'vec':
        return (2,) + tuple(value_key(I, st, x) for x in v[2])
    if k in ('s', 'lit'):
        return (3, pystr(I, v))
    if k == 'i':
        return (4, v[1])
    raise Unknown('comparison of ' + k)


def dedup(I, st, xs, a):
    out, last = [], None
    for x in xs:
        k = value_key(I, st, x)
        if not out or k != last:
            out.append(x)
        last = k
    return out


def swap(I, st, xs, a):
    j, k = I.concrete(st, a[1]), I.concrete(st, a[2])
    if j >= len(xs) or k >= len(xs):
        raise Panic('index out of bounds')
    ys = list(xs)
    ys[j], ys[k] = ys[k], ys[j]
    return ys


def rotate(sign):
    def h(I, st, xs, a):
        k = I.concrete(st, a[1])
        if k > len(xs):
            raise Panic('rotate')
        k = k if sign else len(xs) - k
        return xs[k:] + xs[:k]
    return h


POINT[V + 'truncate'] = changer(lambda I, st, xs, a: xs[:I.concrete(st, a[1])])
POINT[V + 'dedup'] = changer(dedup)
POINT[SL + 'reverse'] = changer(lambda I, st, xs, a: xs[::-1])
POINT[SL + 'swap'] = changer(swap)
POINT[SL + 'rotate_left'] = changer(rotate(1))
POINT[SL + 'rotate_right'] = changer(rotate(0))
for _n in ('alloc::slice::<impl [T]>::sort', SL + 'sort_unstable'):
    POINT[_n] = changer(lambda I, st, xs, a: sorted(xs, key=lambda x: value_key(I, st, x)))
POINT[V + 'clear'] = changer(lambda I, st, xs, a: ())


@point(V + 'append')
def _(I, st, i, a, dest, to):
    xs, ys = items(I, st, a[0]), items(I, st, a[1])
    store_through(I, st, a[1], ('vec', None, ()))
    store_through(I, st, a[0], ('vec', None, xs + ys))
    return I.value(st, UNIT, dest, to)


@point('<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend', V + 'extend_from_slice')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[1])
    if is_seq(v):
        ys = v[2][1]
    elif v[0] in ('vec', 'arr'):
        ys = v[1] if v[0] == 'arr' else v[2]
    elif v[0] == 'adt' and I.p.nn(v[1]).startswith('Option<'):
        ys = v[3]
    else:
        raise Unknown('extend')
    store_through(I, st, a[0], ('vec', None, items(I, st, a[0]) + tuple(ys)))
    return I.value(st, UNIT, dest, to)


@point(V + 'remove', V + 'swap_remove')
def _(I, st, i, a, dest, to):
    xs = list(items(I, st, a[0]))
    k = I.concrete(st, a[1])
    if k >= len(xs):
        raise Panic('removal index')
    if i['npath'].endswith('swap_remove'):
        x = xs[k]
        xs[k] = xs[-1]
        xs.pop()
    else:
        x = xs.pop(k)
    store_through(I, st, a[0], ('vec', None, tuple(xs)))
    return I.value(st, x, dest, to)


@point(V + 'insert')
def _(I, st, i, a, dest, to):
    xs = list(items(I, st, a[0]))
    k = I.concrete(st, a[1])
    if k > len(xs):
        raise Panic('insertion index')
    xs.insert(k, a[2])
    store_through(I, st, a[0], ('vec', None, tuple(xs)))
    return I.value(st, UNIT, dest, to)


@point(V + 'split_off')
def _(I, st, i, a, dest, to):
    xs = items(I, st, a[0])
    k = I.concrete(st, a[1])
    if k > len(xs):
        raise Panic('split index')
    store_through(I, st, a[0], ('vec', None, xs[:k]))
    return I.value(st, ('vec', None, xs[k:]), dest, to)


@point(V + 'len')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', len(items(I, st, a[0]))), dest, to)


@point(V + 'is_empty')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', int(not items(I, st, a[0]))), dest, to)


def vec_only(I, st, v):
    v = deref(I, st, v)
    return v[2] if v[0] == 'vec' and v[1] is None else None


@point(SL + 'len')
def _(I, st, i, a, dest, to):
    xs = vec_only(I, st, a[0])
    return NotImplemented if xs is None else I.value(st, ('i', len(xs)), dest, to)


@point(SL + 'is_empty')
def _(I, st, i, a, dest, to):
    xs = vec_only(I, st, a[0])
    return NotImplemented if xs is None else I.value(st, ('i', int(not xs)), dest, to)


def elem_ref(I, st, r, k):
    """A reference to element k of the vector r points to."""
    while r[0] == 'ref':
        v = I.load_ref(st, r)
        if v[0] in ('ref', 'refv'):
            r = v
            continue
        return ('ref', r[1], r[2], r[3] + (('ci', k, 0, False),))
    return ('refv', items(I, st, r)[k])


def picker(fn):
    def h(I, st, i, a, dest, to):
        xs = vec_only(I, st, a[0])
        if xs is None:
            return NotImplemented
        k = fn(I, st, xs, a)
        return I.value(st, option(I, st, dest, None if k is None else elem_ref(I, st, a[0], k)), dest, to)
    return h


POINT[SL + 'first'] = POINT[SL + 'first_mut'] = picker(lambda I, st, xs, a: 0 if xs else None)
_last = POINT[SL + 'last_mut'] = picker(lambda I, st, xs, a: len(xs) - 1 if xs else None)


@point(SL + 'split_last')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] != 'bs':
        return NotImplemented
    xs = items(I, st, v)
    if not xs:
        return I.value(st, option(I, st, dest, None), dest, to)
    return I.value(st, option(I, st, dest, ('tup', (('refv', xs[-1]), ('bs', I.byte_slice(st, v[1], I0, ('i', len(xs) - 1)))))), dest, to)


@point(SL + 'last')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if v[0] != 'bs':
        return _last(I, st, i, a, dest, to)
    xs = items(I, st, v)
    return I.value(st, option(I, st, dest, ('refv', xs[-1]) if xs else None), dest, to)


def getter(I, st, xs, a):
    k = I.concrete(st, a[1])
    return k if k < len(xs) else None


@point(SL + 'get', SL + 'get_mut')
def _(I, st, i, a, dest, to):
    if a[1][0] == 'adt':
        return NotImplemented
    return picker(getter)(I, st, i, a, dest, to)


@point('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut')
def _(I, st, i, a, dest, to):
    xs = items(I, st, a[0])
    if a[1][0] == 'adt':
        lo, hi = models.bounds(I, st, a[1])
        lo = 0 if lo is None else I.concrete(st, lo)
        hi = len(xs) if hi is None else I.concrete(st, hi)
        if lo > hi or hi > len(xs):
            raise Panic('range out of bounds')
        return I.value(st, ('refv', ('vec', None, xs[lo:hi])), dest, to)
    k = I.concrete(st, a[1])
    if k >= len(xs):
        raise Panic('index out of bounds')
    return I.value(st, elem_ref(I, st, a[0], k), dest, to)


def closured(mode):
    def h(I, st, i, a, dest, to):
        xs = items(I, st, a[0])
        return I.prim(st, 'vecloop', (('lit', mode), ('arr', xs), a[1], ('arr', ()), a[0]), dest, to)
    return h


@models.prim('vecloop')
def _(I, st, f):
    """Vec::retain and the sorting and deduplication by key."""
    mode, xs, fn, acc, src = f.v
    m = mode[1]
    if f.rv is not None:
        r = f.rv
        f.rv = None
        cur, rest = xs[1][0], xs[1][1:]
        if m == 'retain':
            acc = ('arr', acc[1] + ((cur,) if I.truth(st, r) else ()))
        else:
            acc = ('arr', acc[1] + (('tup', (key_value(I, st, r), cur)),))
        f.v = (mode, ('arr', rest), fn, acc, src)
        return None
    if not xs[1]:
        if m == 'retain':
            out = acc[1]
        else:
            ks = [(x[1][0], x[1][1]) for x in acc[1]]
            if m == 'sort_by_key':
                ks.sort(key=lambda x: value_key(I, st, x[0]))
                out = tuple(x for _, x in ks)
            else:
                o, last = [], None
                for a, b in ks:
                    k = value_key(I, st, a)
                    if not o or k != last:
                        o.append(b)
                    last = k
                out = tuple(o)
        store_through(I, st, src, ('vec', None, out))
        return I.finish(st, UNIT)
    f.L[-1] = xs[1][0]
    call_closure(I, st, f, fn, [('ref', len(st.fr) - 1, -1, ())])
    return None


def key_value(I, st, v):
    """A key without references into frames."""
    if v[0] == 'ref':
        return key_value(I, st, I.load_ref(st, v))
    if v[0] == 'refv':
        return key_value(I, st, v[1])
    if v[0] in ('tup',):
        return ('tup', tuple(key_value(I, st, x) for x in v[1]))
    return v


POINT[V + 'retain'] = closured('retain')
POINT[V + 'retain_mut'] = closured('retain')
POINT['alloc::slice::<impl [T]>::sort_by_key'] = closured('sort_by_key')
POINT['alloc::slice::<impl [T]>::sort_by_cached_key'] = closured('sort_by_key')
POINT[SL + 'sort_unstable_by_key'] = closured('sort_by_key')
POINT[V + 'dedup_by_key'] = closured('dedup_by_key')


@point('alloc::slice::<impl [T]>::to_vec', '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone',
       'alloc::slice::<impl [T]>::into_vec')
def _(I, st, i, a, dest, to):
    return I.value(st, ('vec', None, items(I, st, a[0])), dest, to)


@point(SL + 'contains')
def _(I, st, i, a, dest, to):
    xs = vec_only(I, st, a[0])
    if xs is None:
        return NotImplemented
    k = value_key(I, st, a[1])
    return I.value(st, ('i', int(any(value_key(I, st, x) == k for x in xs))), dest, to)


# ------------------------------------------------------------------ sets
HS = 'std::collections::hash::set::HashSet::<T, S>::'
BS = 'alloc::collections::btree::set::BTreeSet::<T, A>::'


@point('std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::set::HashSet::<T>::with_capacity',
       'alloc::collections::btree::set::BTreeSet::<T>::new', '<std::collections::hash::set::HashSet<T, S> as core::default::Default>::default',
       'std::collections::hash::map::HashMap::<K, V>::new', 'alloc::collections::btree::map::BTreeMap::<K, V>::new')
def _(I, st, i, a, dest, to):
    return I.value(st, ('vec', None, ()), dest, to)


@point(HS + 'insert', BS + 'insert')
def _(I, st, i, a, dest, to):
    xs = items(I, st, a[0])
    v = key_value(I, st, a[1])
    k = value_key(I, st, v)
    new = all(value_key(I, st, x) != k for x in xs)
    if new:
        store_through(I, st, a[0], ('vec', None, xs + (v,)))
    return I.value(st, ('i', int(new)), dest, to)


@point(HS + 'contains', BS + 'contains')
def _(I, st, i, a, dest, to):
    k = value_key(I, st, a[1])
    return I.value(st, ('i', int(any(value_key(I, st, x) == k for x in items(I, st, a[0])))), dest, to)


@point(HS + 'len', BS + 'len')
def _(I, st, i, a, dest, to):
    return I.value(st, ('i', len(items(I, st, a[0]))), dest, to)


# ------------------------------------------------------------------ evaluation
def outcome(I, norm, inst):
    """Outcome of a parser on the text, as ('ok', end, tree) | ('err', kind) | ('panic', ..) | ('loop', ..) | ('unknown', why)."""
    st = I.begin(inst)
    leaves = I.run(st)
    if len(leaves) != 1:
        return ('unknown', 'split')
    kind, data, st = leaves[0]
    if kind == 'ret':
        try:
            o = norm.outcome(st, st.ret)
            if o[0] == 'ok':
                o = ('ok', None if o[1] is None else I.at(o[1]), tree(I, o[2]))
            return o
        except Unknown as e:
            return ('unknown', str(e))
    if kind in ('panic', 'loop'):
        return (kind, data)
    return ('unknown', '%s %s' % (kind, data))


def tree(I, v):
    k = v[0]
    if k == 'nt':
        r = I.pk.nt(v[1], I.at(v[2]))
        if r is None:
            raise Unknown('value of a failed type')
        return r[1]
    if k in ('some', 'box'):
        return (k, tree(I, v[1]))
    if k == 't':
        return (k, tuple(tree(I, x) for x in v[1]))
    if k == 'S':
        return (k, v[1], tuple((f, tree(I, x)) for f, x in v[2]))
    if k == 'V':
        return (k, v[1], v[2], tree(I, v[3]))
    if k == 'vec':
        if v[1] is not None:
            raise Unknown('vector')
        return ('vec', tuple(tree(I, x) for x in v[2]))
    if k == 'str':
        return ('str', I.at(v[1]), I.at(v[2]))
    return v


NARROW = re.compile(r'<impl ([ui](?:8|16))>::(?:wrapping|saturating|checked|overflowing)_(?:add|sub|mul)|<([ui](?:8|16)) as core::ops::arith::')


def called(prog, t):
    """Path of the function a call names."""
    f = t.get('f') or {}
    x = f.get('inst')
    return prog.insts[x]['npath'] if x is not None and prog.insts[x] else f.get('path') or ''


def harvest(prog, insts):
    """Constants in the crate's own functions: (integers, strings, characters)."""
    ints, strs, chars = set(), set(), set()
    narrow = set()

    def const(ty, c):
        if 'i' in c:
            n = prog.nn(ty) if ty is not None else ''
            v = int(c['i'])
            if n in ('u8',):
                if 32 <= v < 127:
                    chars.add(chr(v))
                if v > 1:
                    ints.add(v)
            elif 1 < v <= 200000:
                ints.add(v)
        elif 'c' in c:
            chars.add(chr(int(c['c'])))
        elif 'str' in c:
            strs.add(c['str'])
        for k in ('tup', 'arr', 'f'):
            if isinstance(c.get(k), list):
                et = None
                if ty is not None and k == 'arr':
                    et = prog.types[ty].get('t')
                for x in c[k]:
                    if isinstance(x, dict):
                        const(et, x)
        if isinstance(c.get('ref'), dict):
            const(prog.types[ty].get('t') if ty is not None else None, c['ref'])

    def op(o):
        if o[0] == 'k':
            const(o[1], o[2])
    for k in insts:
        i = prog.insts[k]
        if i is None or i['crate'] != prog.crate or 'body' not in i:
            continue
        for b in i['body']['blocks']:
            for s in b['s']:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] in ('use', 'repeat'):
                    op(r[1])
                elif r[0] == 'agg':
                    for o in r[2]:
                        op(o)
                elif r[0] in ('bin', 'cbin'):
                    op(r[2])
                    op(r[3])
                    n = prog.nn(r[4]) if isinstance(r[4], int) else ''
                    if r[1].startswith(('Add', 'Mul', 'Sub')) and n in ('u8', 'i8', 'u16', 'i16'):
                        narrow.add({'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}[n])
                elif r[0] in ('un', 'cast'):
                    op(r[2])
                    if r[0] == 'cast' and isinstance(r[3], int) and prog.nn(r[3]) in ('u8', 'i8', 'u16', 'i16') \
                            and isinstance(r[4], int) and prog.nn(r[4]) in ('usize', 'u32', 'u64', 'i32', 'i64', 'isize'):
                        narrow.add({'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}[prog.nn(r[3])])
            t = b['t']
            if t['k'] == 'call':
                for o in t['a']:
                    op(o)
                m = NARROW.search(called(prog, t))
                if m:
                    narrow.add({'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}[m.group(1) or m.group(2)])
            elif t['k'] == 'switch':
                n = prog.nn(t['ty']) if isinstance(t.get('ty'), int) else ''
                for v, _ in t['br']:
                    if n == 'char':
                        chars.add(chr(int(v)))
                    elif n in ('usize', 'u64', 'u32', 'i32') and 1 < int(v) <= 200000:
                        ints.add(int(v))
    return ints | narrow, strs, chars


# ------------------------------------------------------------------ candidate texts
IDENT = re.compile(r'_?[A-Za-z][0-9A-Za-z_-]*\Z')
ODD = ['\u00e9', '\u00a0', '\u2028', '\ufeff', '\0', '\x0b', '\x0c', '\u0660', '\U0001f600', '\u212a', '\u0130', '\r']
TRIVIA = ['', ' ', '\t\n\r ', '//c\n', '/*c*/', ' // a /* b\n', '/**/', '/***/', '/*/*/', '/* * / */', '/*//*/', '//*\n', '/*"*/',
          '/*a*//*b*/', '//\r\n', '/*\n*/', '/*\u00e9*/', '//\u20ac\n', '/* /* */', '/* x */ /* y */ ', '//a\n//b\n']
BROKEN = ['/', '/*', '/* *', '/*/', '//', '//x', '/x', '*/', '/**', '/* /* */ */', '\\']


def sizes(ints, top=6000):
    out = set()
    for c in ints:
        for d in (-1, 0, 1, 2):
            if 3 < c + d <= top:
                out.add(c + d)
    small = sorted(c for c in ints if 1 < c <= 600)[:12]
    for a in small:
        for b in small:
            for c in (a + b, a * b):
                for d in (0, 1):
                    if 3 < c + d <= 1300:
                        out.add(c + d)
    return sorted(out)


def cores(name, ints, strs):
    """Spellings of a token, and near misses."""
    if name in spec.PUNCT or name in spec.KEYWORDS:
        w = spec.PUNCT.get(name) or spec.KEYWORDS[name]
        return [w], [w[:-1], w + w, w.upper() if w.upper() != w else w.lower(), w.capitalize(), w[0] + ' ' + w[1:] if len(w) > 1 else '', '_' + w]
    good = list(refparse.SAMPLE_TOK[name])
    bad = []
    ns = sizes(ints)
    if name == 'Identifier':
        good += ['A1', 'x_y-z', '_Z9', 'a-', 'a_', 'zZ-0_9'] + [s for s in sorted(strs) if IDENT.match(s)]
        good += list(spec.KEYWORDS.values())
        good += ['a' * n for n in ns] + ['_' + 'b' * (n - 1) for n in ns] + ['a' + '9' * (n - 1) for n in ns] + ['a' + '-_' * (n // 2) for n in ns]
        bad = ['_', '__a', '_1', '1a', '-a', '\u00e9a', 'a\u00e9', '_-a', '_\u00e9']
    elif name == 'StringLit':
        inner = ['', ' ', 'a', '/*x*/', '//x', '\n', '\r\n', '\\', "\\n", '\u00e9', '\t x \t', "'", '\0', '\u00a0', ' a ', '\ufeff', 'a b']
        inner += [s for s in sorted(strs) if '"' not in s]
        inner += ['x' * n for n in ns] + ['\u00e9' * (n // 2) for n in ns] + ['a' + '\u00e9' * (n // 2) for n in ns] + ['x' * (n - 1) + '\u20ac' for n in ns]
        good += ['"%s"' % s for s in inner]
        bad = ['"', '"a', "'a'", '\\"a"', '"a\\"b"', '"a""b"', '" " x "']
    else:
        digits = ['0', '7', '10', '19', '08', '00', '123456789012345678901234567890', '077', '0x1F', '0X0', '0xg', '0x', '1.5', '1.', '.5', '.', '1e5',
                  '1E+5', '1e-5', '1.5e10', '1.e5', '.5E-1', '1e', '1e+', '1.5e', '5.5.5', '0.0', '00.1', '1..2', '0e0', '9.', '0xFFFFFFFFFFFFFFFFFF',
                  '1_000', '0b1', '12345', '8', '0x8000000000000000', '1.5f', '4294967296', '2147483648', '9223372036854775808', '18446744073709551616']
        for n in sorted(set(ns) | {3, 5, 9, 10, 11, 17, 18, 19, 20, 21, 33, 34, 35, 39, 40, 41, 310, 400}):
            digits += ['1' * n, '0' + '7' * (n - 1), '0x' + 'f' * (n - 2), '1.' + '5' * (n - 2), '.' + '5' * (n - 1), '1e' + '5' * (n - 2), '5' * n + '.5']
        good += digits + ['-' + d for d in digits]
        bad = ['+1', '--1', '- 1', '-', 'e5', '-.', 'Infinity', '-Infinity', 'NaN', '-NaN', '0x-1', '\u0661']
    return good, bad


def sized(name, ints, g0):
    """Texts as long as the numbers the code knows, just over them first."""
    ns = sizes(ints)
    over = {c + 1 for c in ints}
    ns = sorted(ns, key=lambda n: (n not in over, n))
    trivia = [' ', '\n', '/**/', '//\n', ' //\n', ' /**/', '/*c*/\n']
    forms = [lambda n, t=t: t * n + g0 for t in trivia] + [lambda n, t=t: g0 + t * n + 'x' for t in trivia]
    forms += [lambda n: '/*' + 'c' * (n - 4) + '*/' + g0, lambda n: '//' + 'c' * n + '\n' + g0, lambda n: '/*' + '*' * n + '/' + g0,
              lambda n: '/*' + '\u00e9' * (n // 2) + '*/' + g0]
    k = sum(map(ord, name)) % len(forms)
    forms = forms[k:] + forms[:k]
    for n in ns:
        for f in forms:
            yield f(n)
    for c in sorted(ints):
        if 6000 < c <= 70000:
            n = c + 5
            yield from {'Identifier': ['a' * n, '_' + 'a' * n + ' x'], 'StringLit': ['"' + 'x' * n + '"'],
                        'DecLit': ['1' * n], 'HexLit': ['0x' + 'f' * n], 'OctLit': ['0' + '7' * n],
                        'FloatValueLit': ['1.' + '5' * n, '5' * n + '.']}.get(name, [])
            yield from (' ' * n + g0, '/*' + 'c' * n + '*/' + g0, '//' + 'c' * n + '\n' + g0)


def token_texts(name, ints, strs, chars):
    """Spellings and their surroundings, and every now and then a long text."""
    long = sized(name, ints, cores(name, ints, strs)[0][0])
    seen = set()
    for k, t in enumerate(plain_texts(name, ints, strs, chars)):
        yield t
        if k % 4 == 3:
            x = next(long, None)
            if x is not None and x not in seen:
                seen.add(x)
                yield x
    yield from long


def plain_texts(name, ints, strs, chars):
    good, bad = cores(name, ints, strs)
    word = [s for s in sorted(strs) if 0 < len(s) < 40][:12]
    foll = ['', ' x', 'x', '9', '_', '-', ';', '/', '//c', '/*c*/', '/*', '(', '"', '.', 'e', '+', '\u00e9', '\u00a0', '?', '<', ' ', '\n', '/*c*/ //d\n y']
    extra = [c for c in sorted(chars)][:40] + ODD
    seen = set()

    def emit(t):
        if t in seen:
            return False
        seen.add(t)
        return True
    g0 = good[0]
    for t in ['', ' ', '/', '@'] + good[:12] + bad:
        if emit(t):
            yield t
    for c in good[:10]:
        for f in foll + extra + word:
            if emit(c + f):
                yield c + f
    for t in TRIVIA + BROKEN + extra + word:
        for c in good[:3]:
            for x in (t + c, c + t, c + t + c, t + c + t, ' ' + t + c, c + ' ' + t + 'x'):
                if emit(x):
                    yield x
    for a in TRIVIA:
        for b in TRIVIA + BROKEN:
            for x in (a + b + g0, g0 + a + b + 'x'):
                if emit(x):
                    yield x
    for c in good[12:]:
        for x in (c, c + ' x', ' ' + c + '/*d*/;'):
            if emit(x):
                yield x
    # characters inside the token
    for c in good[:6]:
        for k in range(1, len(c)):
            for e in extra + [' ', '/**/', '//\n']:
                x = c[:k] + e + c[k:]
                if emit(x):
                    yield x


def uniq(tokens, k):
    return [t + str(k) if t == 'a' else ('"s%d"' % k if t == '"s"' else t) for t in tokens]


def pump(e, n, flavour, inline=(), depth=0):
    """Sentences with one list of n items."""
    k = e[0]
    if k == 'nt':
        return pump(spec.expr_of(e[1]), n, flavour, inline, depth + 1) if e[1] in inline and depth < 4 else []
    if k in ('opt', 'box'):
        return pump(e[1], n, flavour, inline, depth)
    if k == 'document':
        return pump(e[1], n, flavour, inline, depth)
    if k in ('vec', 'sep'):
        item = e[1] if k == 'vec' else e[2]
        forms = [x for x in refparse.variants(item, 1)[:6] if x]
        if n > 300:
            forms = forms[:1]
        sep = [] if k == 'vec' else [refparse.token_text(e[3][1])]
        out = []
        for fm in range(min(2, len(forms))):
            t = []
            for j in range(n):
                m = 7 if flavour == 'same' else (j if flavour == 'up' else n - j)
                if j:
                    t += sep
                t += uniq(forms[fm] if fm == 0 else forms[j % len(forms)], m)
            out.append(t)
        return out
    if k == 'tup':
        return spread(list(e[1]), n, flavour, inline, depth)
    if k == 'br':
        o, c = refparse.token_text(e[2][1]), refparse.token_text(e[4][1])
        return [[o] + x + [c] for x in pump(e[3], n, flavour, inline, depth)]
    if k == 'struct':
        return spread([x for _, x in e[2]], n, flavour, inline, depth)
    if k == 'choice':
        return [x for _, a in e[2] for x in pump(a, n, flavour, inline, depth)]
    return []


def spread(es, n, flavour, inline, depth):
    base = [refparse._min_expr(x, ()) for x in es]
    out = []
    for i, x in enumerate(es):
        for p in pump(x, n, flavour, inline, depth):
            out.append(sum((b for b in base[:i]), []) + p + sum((b for b in base[i + 1:]), []))
    return out


def inside(e, target, seen=()):
    """Shortest (before, after) around a target inside a production."""
    k = e[0]
    if k == 'nt':
        if e[1] == target:
            return [], []
        if e[1] in spec.TOKENS or e[1] in seen:
            return None
        return inside(spec.expr_of(e[1]), target, seen + (e[1],))
    if k in ('opt', 'box', 'vec', 'document'):
        return inside(e[1], target, seen)
    if k == 'sep':
        return inside(e[2], target, seen)
    if k == 'br':
        x = inside(e[3], target, seen)
        return x and ([refparse.token_text(e[2][1])] + x[0], x[1] + [refparse.token_text(e[4][1])])
    if k in ('choice', 'tup', 'struct'):
        parts = list(e[1]) if k == 'tup' else [x for _, x in e[2]]
        base = [[]] * len(parts) if k == 'choice' else [refparse._min_expr(x, ()) or [] for x in parts]
        best = None
        for i, x in enumerate(parts):
            c = inside(x, target, seen)
            if c is not None:
                c = (sum(base[:i], []) + c[0], c[1] + sum(base[i + 1:], []))
                if best is None or len(c[0]) + len(c[1]) < len(best[0]) + len(best[1]):
                    best = c
        return best
    return None


def nested(root, expr, n):
    """A sentence of a type with n more of the type inside each other."""
    if root not in spec.COMPOSITE:
        return None
    c = inside(expr, root)
    m = refparse.minimal(root)
    if not c or not m or '[' in c[0] and n > 6:      # known to take time exponential in the depth
        return None
    return c[0] * n + list(m) + c[1] * n


def composite_texts(root, expr, ints, strs, chars, inline=(), extra=()):
    """extra: types the code asks for and the reference does not."""
    if root in spec.COMPOSITE:
        base = [list(s) for s in refparse.samples(root)]
    else:
        base = [list(s) for s in refparse.variants(expr, 1)[:80]]
    seen = set()

    def new(t):
        if t in seen:
            return False
        seen.add(t)
        return True
    for s in base:
        t = ' '.join(s)
        if new(t):
            yield t
        if len(s) > 1 and new(' '.join(s[:-1])):
            yield ' '.join(s[:-1])
    for n in (2, 3, 4):
        for fl in ('up', 'same', 'down'):
            for s in pump(expr, n, fl, inline):
                t = ' '.join(s)
                if new(t):
                    yield t
    for n in [1, 2, 3] + [n for n in sorted({c + d for c in ints for d in (0, 1)}) if 3 < n <= 130]:
        s = nested(root, expr, n)
        if s and new(' '.join(s)):
            yield ' '.join(s)
    # long texts
    for n in [c + 1 for c in sorted(ints) if 3 < c < 200000]:
        pad = '/*' + 'c' * n + '*/'
        for s in base[:2]:
            s = ' '.join(s)
            for t in (pad + s, s + pad, s + pad + '@', pad + '@', s + ' @' + pad) + ((' ' * n + s,) if n < 3000 else ()):
                if new(t):
                    yield t
    for name in sorted(extra):
        for x in refparse.samples(name)[:4]:
            for s in base[:12]:
                for k in range(len(s) + 1):
                    for t in (s[:k] + list(x) + s[k:], s[:k] + list(x) + s[k + 1:], s[:k] + list(x) + list(x) + s[k:]):
                        t = ' '.join(t)
                        if new(t):
                            yield t
    if root == 'parse':
        for s in [[]] + base[:10]:
            for j in JUNK:
                for t in (' '.join(s + [j]), ' '.join(s) + j, '\n' + ' '.join(s[:-1] + [j]), '/*c*/' + ' '.join(s + [j])):
                    if new(t):
                        yield t
    idents = [s for s in sorted(strs) if IDENT.match(s)][:30]
    # words glued to what follows or precedes them
    for w in idents:
        for s in base[:20]:
            for k in range(len(s)):
                if s[k] == w or s[k] in refparse.SAMPLE_TOK['Identifier']:
                    for g in ('x', '1', '_', '-', '\u00e9', '/**/', '/', '.'):
                        for t in (s[:k] + [w + g] + s[k + 1:], s[:k] + [w + g], s[:k] + [g + w] + s[k + 1:]):
                            t = ' '.join(t)
                            if new(t):
                                yield t
    own = [c for c in sorted(chars)][:24]
    for s in base[:12]:
        for k in range(len(s) + 1):
            for c in own:
                for t in (' '.join(s[:k] + [c] + s[k:]), ' '.join(s[:k]) + c + ' '.join(s[k:]), ' '.join(s[:k] + [c]), ' '.join(s[:k]) + c):
                    if new(t):
                        yield t
    odd = [c for c in sorted(chars) if not c.isalnum()][:30] + ODD
    words = [s for s in sorted(strs) if s and not IDENT.match(s)][:20]
    forms = base[:12]
    for s in forms:
        for k in range(len(s)):
            if s[k] in refparse.SAMPLE_TOK['Identifier']:
                for w in idents:
                    t = ' '.join(s[:k] + [w] + s[k + 1:])
                    if new(t):
                        yield t
    for s in forms:
        for a, b in (('\n', ''), ('/*c*/', ' '), (' ', ' //x'), (' ', '\n'), ('//c\n', '/*'), ('', '')):
            t = (a if a != '' else ' ').join(s) + b
            if a == '/*c*/':
                t = a + t
            if new(t):
                yield t
        for e in odd + words + [' ', '/*c*/', '//c\n', '/*', '/']:
            for t in (e + ' '.join(s), ' '.join(s) + e, ' '.join(s) + ' ' + e, ' '.join(s[:1]) + e + ' '.join(s[1:])):
                if new(t):
                    yield t
    for s in base[:30]:
        for k in range(len(s)):
            for t in (s[:k] + s[k + 1:], s[:k + 1] + s[k:], s[:k] + s[k + 1:k + 2] + s[k:k + 1] + s[k + 2:]):
                t = ' '.join(t)
                if new(t):
                    yield t
    for n in sizes(ints):
        for fl in ('up', 'same') if n < 400 else ('up',):
            for s in pump(expr, n, fl, inline):
                t = ' '.join(s)
                if new(t):
                    yield t
    for s in base[:20]:
        for k in range(len(s) + 1):
            for x in FILL:
                t = ' '.join(s[:k] + x + s[k:])
                if new(t):
                    yield t


JUNK = ['@', '}', '};', ';', ')', 'x', '1', '@ ', '@\n', '@\t@\r\n@\n', 'x y\nz \n', '\u00e9', '\u00e9\n \u20ac', '"s" ', '/* c', '@ /* c */ ', '@ // c',
        '// c\n@ // d\n', '\u00a0', '\0', 'interface', 'interface A {', '[', '[x]', '] ;', '\ufeff']
FILL = [[t] for t in (';', ',', ')', ']', '}', '>', '?', '=', '...', '(', '[', '{', '<', ':', '"s"', '1', '1.5', 'or', '*', 'x', 'long', 'null',
                      'optional', 'readonly', 'static')] + [[',', 'x'], ['?', '?'], [',', ','], ['=', '1'], ['[', ']'], ['[', 'x', ']']]


# ------------------------------------------------------------------ bytes from the end, occurrences
def byte_list(I, st, v):
    v = deref(I, st, v)
    return v, items(I, st, v)


@point(SL + 'ends_with')
def _(I, st, i, a, dest, to):
    x, y = [[I.concrete(st, deref(I, st, e)) for e in items(I, st, v)] for v in a[:2]]
    return I.value(st, ('i', int(not y or x[-len(y):] == y)), dest, to)


@point(S + 'matches', S + 'match_indices')
def _(I, st, i, a, dest, to):
    s = models.strval(I, st, a[0])
    t = pystr(I, s)
    f = plain_pattern(I, st, i, a[1])
    if f is None:
        return NotImplemented
    out = []
    k = 0
    while k <= len(t):
        m = f(t, k)
        if m is None:
            break
        w = sub(I, s, m[0], m[1])
        out.append(w if i['npath'].endswith('matches') else ('tup', (('i', blen(t[:m[0]])), w)))
        k = max(m[1], m[0] + 1)
    return I.value(st, seq(out), dest, to)


@point('<core::slice::iter::Iter<T> as core::iter::traits::iterator::Iterator>::rposition',
       '<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::rposition')
def _(I, st, i, a, dest, to):
    v = deref(I, st, a[0])
    if not is_seq(v):
        return NotImplemented
    return I.prim(st, 'rposition', (('arr', v[2][1]), a[1], ('num', ret_ty(I, i, st, dest))), dest, to)


@models.prim('rposition')
def _(I, st, f):
    xs, fn, rty = f.v
    if f.rv is not None:
        b = I.truth(st, f.rv)
        f.rv = None
        if b:
            return I.finish(st, mk(I, rty[1], 'Some', ('i', len(xs[1]) - 1)))
        xs = ('arr', xs[1][:-1])
        f.v = (xs, fn, rty)
    if not xs[1]:
        return I.finish(st, mk(I, rty[1], 'None'))
    call_closure(I, st, f, fn, [xs[1][-1]])
    return None


for _t in ('core::str::iter::Matches<P>', 'core::str::iter::MatchIndices<P>'):
    _b = '<%s as core::iter::traits::iterator::Iterator>::' % _t
    POINT[_b + 'next'] = it_next
    POINT[_b + 'nth'] = it_nth
    POINT[_b + 'count'] = it_count
    POINT[_b + 'last'] = it_last
