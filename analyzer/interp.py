"""Abstract interpreter over the dumped MIR.

The input text is never concrete.  A position is an integer id (ids grow along
the text) or 'E' (the end of the text); the character at a position is known only
as a charset.  Execution stops at an event: an unknown character is needed
(NeedRead), another grammar type is asked for (NeedNT), or the function returns or
panics.  Branches on a character split its charset.  What the interpreter has no
abstraction for is the outcome Unknown.
"""
import charset as cs
import pieces as P


class NeedRead(Exception):
    def __init__(self, pos):
        self.pos = pos


class NeedSplit(Exception):
    def __init__(self, pos, sets):
        self.pos = pos
        self.sets = sets


class LateSplit(Exception):
    def __init__(self, sets):
        self.sets = sets


class NeedNT(Exception):
    def __init__(self, name, pos, inst):
        self.name = name
        self.pos = pos
        self.inst = inst


class NeedInline(Exception):
    def __init__(self, name):
        self.name = name


class NeedFork(Exception):
    """A branch on a value nothing is known about."""

    def __init__(self, n):
        self.n = n


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


HEAP = 100000            # locals from here on are heap cells
I0 = ('i', 0)
I1 = ('i', 1)
UNIT = ('tup', ())
OP = ('op',)            # the content of an error: a rest of the input and a kind
OPX = ('opx',)          # the same with text that is not a rest of the input
OPQ = ('opq',)          # the same with text that may end before the input does
OPK = ('opk',)          # the kind in an error
ELSEWHERE = 'with text that is not a rest of the input'
LOST = ('lost',)
ANY = ('any',)          # a number nothing is known about


class Frame:
    __slots__ = ('inst', 'bb', 'si', 'L', 'dest', 'to', 'prim', 'v', 'rv')

    def __init__(self, inst, dest, to, prim=None, v=None):
        self.inst = inst
        self.bb = 0
        self.si = 0
        self.L = {}
        self.dest = dest
        self.to = to
        self.prim = prim
        self.v = v
        self.rv = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.inst = self.inst
        f.bb = self.bb
        f.si = self.si
        f.L = dict(self.L)
        f.dest = self.dest
        f.to = self.to
        f.prim = self.prim
        f.v = self.v
        f.rv = self.rv
        return f


class St:
    __slots__ = ('fr', 'cells', 'adj', 'front', 'touch', 'nid', 'facts', 'head', 'letter', 'ret', 'eq', 'pick', 'hold')

    def __init__(self):
        self.fr = []
        self.cells = {}
        self.adj = {}
        self.front = 0
        self.touch = set()
        self.nid = 1
        self.facts = {}
        self.head = None
        self.letter = None
        self.ret = None
        self.eq = {}
        self.pick = None
        self.hold = None

    def lookup(self, name, p):
        return self.facts.get((name, p))

    def copy(self):
        s = St.__new__(St)
        s.fr = [f.copy() for f in self.fr]
        s.cells = dict(self.cells)
        s.adj = dict(self.adj)
        s.front = self.front
        s.touch = set(self.touch)
        s.nid = self.nid
        s.facts = dict(self.facts)
        s.head = self.head
        s.letter = self.letter
        s.ret = self.ret
        s.eq = dict(self.eq) if self.eq else {}
        s.pick = self.pick
        s.hold = self.hold
        return s


def recurs(a, b):
    return all(f.inst == g.inst and f.bb == g.bb and f.si == g.si and f.prim == g.prim and f.v == g.v and f.rv == g.rv and f.L == g.L
               for f, g in zip(a.fr, b.fr)) and a.cells == b.cells and a.facts == b.facts and a.eq == b.eq and a.adj == b.adj


INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16,
            'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'char': 32, 'bool': 1}


def positions(v, out):
    """Positions that a value mentions."""
    k = v[0]
    if k == 's' or k == 'off':
        for p in v[1:3]:
            if isinstance(p, int):
                out.add(p)
    elif k == 'offn':
        out.add(v[2])
        out.add(v[3])
    elif k == 'offk':
        for p in v[1:3]:
            if isinstance(p, int):
                out.add(p)
    elif k == 'bcut':
        for x in v[1:3]:
            if isinstance(x, int):
                out.add(x)
    elif k == 'sm':
        out.add(v[1])
        if isinstance(v[3], int):
            out.add(v[3])
    elif k in ('len', 'ptr', 'ch', 'nt'):
        p = v[2] if k == 'nt' else v[1]
        if isinstance(p, int):
            out.add(p)
    elif k in ('i', 'lit', 'fn', 'op', 'opx', 'opq', 'opk', 'lost', 'zst', 'rng', 'any'):
        pass
    elif k in ('tup', 'arr'):
        for x in v[1]:
            positions(x, out)
    elif k == 'adt':
        for x in v[3]:
            positions(x, out)
    elif k == 'clo':
        for x in v[2]:
            positions(x, out)
    elif k in ('refv', 'box', 'bs', 'raw'):
        positions(v[1], out)
    elif k == 'vec':
        for x in v[2]:
            positions(x, out)
    elif k == 'fld':
        positions(v[1], out)
    elif k == 'it':
        for x in v[2:]:
            if isinstance(x, tuple):
                positions(x, out)
            elif isinstance(x, int) and not isinstance(x, bool):
                out.add(x)
    elif k == 'ref':
        pass
    elif k == 'part':
        for _, x in v[1]:
            positions(x, out)
    elif k == 'sl':
        positions(v[1], out)
    elif k == 'num':
        pass
    else:
        raise Unknown('positions of ' + k)


def rename(v, m):
    k = v[0]
    if k == 's' or k == 'off':
        return (k, m.get(v[1], v[1]), m.get(v[2], v[2]))
    if k in ('i', 'lit', 'fn', 'op', 'opx', 'opq', 'opk', 'lost', 'zst', 'ref', 'num', 'rng', 'any'):
        return v
    if k == 'offk':
        return (k, m.get(v[1], v[1]), m.get(v[2], v[2]), v[3])
    if k == 'bcut':
        return (k, m.get(v[1], v[1]), m.get(v[2], v[2]), v[3])
    if k == 'sm':
        return (k, m.get(v[1], v[1]), v[2], m.get(v[3], v[3]))
    if k == 'offn':
        return (k, v[1], m.get(v[2], v[2]), m.get(v[3], v[3]))
    if k == 'len' or k == 'ptr':
        return (k, m.get(v[1], v[1])) + v[2:]
    if k == 'ch':
        return (k, m.get(v[1], v[1]), v[2])
    if k == 'nt':
        return (k, v[1], m.get(v[2], v[2]))
    if k in ('tup', 'arr'):
        return (k, tuple(rename(x, m) for x in v[1]))
    if k == 'adt':
        return (k, v[1], v[2], tuple(rename(x, m) for x in v[3]))
    if k == 'clo':
        return (k, v[1], tuple(rename(x, m) for x in v[2]))
    if k in ('refv', 'box', 'bs', 'raw'):
        return (k, rename(v[1], m))
    if k == 'vec':
        return (k, v[1], tuple(rename(x, m) for x in v[2]))
    if k == 'fld':
        return (k, rename(v[1], m), v[2])
    if k == 'it':
        return v[:2] + tuple(rename(x, m) if isinstance(x, tuple) else m.get(x, x) for x in v[2:])
    if k == 'part':
        return (k, tuple((i, rename(x, m)) for i, x in v[1]))
    if k == 'sl':
        return (k, rename(v[1], m)) + v[2:]
    raise Unknown('rename of ' + k)


def refs_in(v, out):
    k = v[0]
    if k == 'ref':
        out.add((v[1], v[2]))
    elif k in ('tup', 'arr'):
        for x in v[1]:
            refs_in(x, out)
    elif k == 'adt':
        for x in v[3]:
            refs_in(x, out)
    elif k == 'clo':
        for x in v[2]:
            refs_in(x, out)
    elif k in ('refv', 'box', 'bs', 'raw', 'sl', 'fld'):
        refs_in(v[1], out)
    elif k == 'vec':
        for x in v[2]:
            refs_in(x, out)
    elif k == 'it':
        for x in v[2:]:
            if isinstance(x, tuple):
                refs_in(x, out)
    elif k == 'part':
        for _, x in v[1]:
            refs_in(x, out)


def chars_in(v, f):
    """Rewrite every ('ch', ..) inside v by f."""
    k = v[0]
    if k == 'ch':
        return f(v)
    if k in ('tup', 'arr'):
        return (k, tuple(chars_in(x, f) for x in v[1]))
    if k == 'adt':
        return (k, v[1], v[2], tuple(chars_in(x, f) for x in v[3]))
    if k == 'clo':
        return (k, v[1], tuple(chars_in(x, f) for x in v[2]))
    if k in ('refv', 'box', 'bs', 'raw'):
        return (k, chars_in(v[1], f))
    if k == 'vec':
        return (k, v[1], tuple(chars_in(x, f) for x in v[2]))
    if k == 'it':
        return v[:2] + tuple(chars_in(x, f) if isinstance(x, tuple) else x for x in v[2:])
    if k == 'part':
        return (k, tuple((i, chars_in(x, f)) for i, x in v[1]))
    if k == 'sl':
        return (k, chars_in(v[1], f)) + v[2:]
    return v


class Interp:
    def __init__(self, prog, oracle=None, lexical=True, helper=None, limit=60000):
        self.p = prog
        self.oracle = oracle or (lambda name: False)
        self.helper = helper
        self.lexical = lexical
        self.limit = limit
        self.widen = False         # write an integer used as an offset as the distance it stands for
        self.keep = 0              # how many characters after the start of a slice are remembered
        self.fixed = ()            # cells read in an earlier configuration
        self.const_cache = {}
        self.gone = False          # of a character that is dropped, keep the set it was in
        self.refine = []           # cases of remembered characters that later turn out to matter
        self.skippers = ()         # functions shown to skip trivia and nothing else
        self.visited = set()       # instances entered, for the evidence
        self.sites = 0
        self.errors = False       # keep what errors hold
        self._isnt = {}
        self._fnkind = {}
        import models
        self.models = models.MODELS
        self.prims = models.PRIMS
        self.model_for = models.model_for

    # ------------------------------------------------------------ start
    def start(self, inst, args):
        st = St()
        st.cells = {}
        f = Frame(inst, None, None)
        for i, a in enumerate(args):
            f.L[i + 1] = a
        st.fr.append(f)
        self.visited.add(inst)
        return st

    # ------------------------------------------------------------ tape
    def need(self, st, p):
        """Contents of the cell at p: 'eof' or (charset, next)."""
        if p == 'E':
            return 'eof'
        c = st.cells.get(p)
        if c is None:
            raise NeedRead(p)
        st.touch.add(p)
        return c

    def give_char(self, st, p, charset=cs.FULL):
        n = st.nid
        st.nid += 1
        st.cells[p] = (charset, n)
        st.front = n
        return n

    def give_eof(self, st, p):
        st.cells[p] = 'eof'

    def pos_eq(self, st, a, b):
        if a == b:
            return True
        if a is None:
            a = 'E'
        if b is None:
            b = 'E'
        if a == b:
            return True
        if a == 'E' or b == 'E':
            x = b if a == 'E' else a
            c = st.cells.get(x)
            if c is not None:
                return c == 'eof'
            if self.lexical and x < st.front:
                return False
            return self.need(st, x) == 'eof'
        return False

    def pos_cmp(self, st, a, b):
        """-1, 0 or 1."""
        if self.pos_eq(st, a, b):
            return 0
        if a is None or a == 'E':
            return 1
        if b is None or b == 'E':
            return -1
        return -1 if a < b else 1

    def at_end(self, st, r, q):
        """Is r the end of a slice that ends at q?"""
        if q is None:
            return self.need(st, r) == 'eof'
        return self.pos_eq(st, r, q)

    def clen(self, st, p):
        c = self.need(st, p)
        n = cs.utf8len(c[0])
        if n is None:
            raise NeedSplit(p, [x for x in (cs.inter(c[0], u) for u in (cs.U1, cs.U2, cs.U3, cs.U4)) if x])
        return n

    def walk(self, st, p, q, n, what='index'):
        """The position n bytes after p inside a slice that ends at q."""
        if n == 0:
            return p
        acc = 0
        r = p
        a = st.adj.get(p)
        while a is not None and acc + len(a[0].encode()) <= n and (q is None or q == 'E' or a[1] <= q):
            acc += len(a[0].encode())
            r = a[1]
            a = st.adj.get(r)
        while acc < n:
            if self.at_end(st, r, q):
                raise Panic('%s out of range' % what)
            acc += self.clen(st, r)
            r = st.cells[r][1]
        if acc != n:
            raise Panic('%s not on a character boundary' % what)
        return r

    def cmp_dist(self, st, p, q, n):
        """Compare the byte distance p..q (q None: to the end) with n."""
        if n < 0:
            return 1
        acc = 0
        r = p
        a = st.adj.get(p)
        while a is not None:
            k = len(a[0].encode())
            if acc + k <= n and (q is None or q == 'E' or a[1] <= q):
                acc += k
                r = a[1]
                if acc == n:
                    self.same(st, p, n, r)
                a = st.adj.get(r)
                continue
            if self.lexical and q is not None and q == a[1]:
                return 1
            break
        while True:
            if self.at_end(st, r, q):
                return (acc > n) - (acc < n)
            if acc >= n:
                return 1
            l = self.clen(st, r)
            if acc + l > n:
                self.same(st, p, n, r, n - acc)
            acc += l
            r = st.cells[r][1]
            if acc == n:
                self.same(st, p, n, r)

    # ------------------------------------------------------------ characters
    def simp(self, st, v):
        """Collapse a character-derived value that is constant."""
        if v[0] == 'ch':
            # a character that is no longer kept: only the set it was in is known
            c = (v[1][1],) if isinstance(v[1], tuple) else st.cells.get(v[1])
            if c is None or c == 'eof':
                raise Unknown('character no longer known')
            pc = P.clip(v[2], c[0])
            k = P.constant(pc)
            if k is not None:
                return ('i', k)
            return ('ch', v[1], pc)
        return v

    def concrete(self, st, v):
        """Force a value to an int, splitting the charset if it takes few values."""
        v = self.simp(st, v)
        if v[0] == 'i':
            return v[1]
        if v[0] == 'ch':
            vals = set()
            for p in v[2]:
                if p[2] != 0:
                    raise Unknown('character value needed')
                vals.add(p[3])
            if len(vals) > 300:
                raise Unknown('character value needed')
            pre, rest = P.preimages(v[2], vals)
            raise NeedSplit(v[1], [s for s in pre.values() if s])
        raise Unknown('concrete value of ' + v[0])

    def choose(self, st, n):
        """One of n ways; every way is explored."""
        if st.pick is not None:
            v = st.pick
            st.pick = None
            return v
        if self.lexical:
            raise Unknown('branch on a number nothing is known about')
        raise NeedFork(n)

    def truth(self, st, v):
        if v == ANY:
            return bool(self.choose(st, 2))
        return self.concrete(st, v) != 0

    # ------------------------------------------------------------ places
    def load_ref(self, st, r):
        f = st.fr[r[1]]
        if r[2] not in f.L:
            raise Unknown('reference to an uninitialised local')
        v = f.L[r[2]]
        for e in r[3]:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = v[0]
        if e == '*':
            if k == 'ref':
                return self.load_ref(st, v)
            if k in ('refv', 'box', 'raw'):
                return v[1]
            if k in ('s', 'lit', 'bs', 'sl', 'op', 'opx', 'opq'):
                return v
            if k == 'fn':
                return v
            raise Unknown('deref of ' + k)
        if e == 'oc':
            return v
        t = e[0]
        if t == 'd':
            if k == 'adt' and v[2] != e[1]:
                raise Unknown('downcast mismatch')
            if k == 'nt':
                raise NeedInline(v[1])
            return v
        if t == 'f':
            i = e[1]
            if k == 'adt':
                if i >= len(v[3]):
                    raise Unknown('field of uninitialised aggregate')
                return v[3][i]
            if k in ('tup', 'arr'):
                return v[1][i]
            if k == 'clo':
                return v[2][i]
            if k == 'part':
                for j, x in v[1]:
                    if j == i:
                        return x
                raise Unknown('uninitialised field')
            if k == 'box':
                return v
            if k == 'raw':
                return v
            if k in ('nt', 'fld'):
                return ('fld', v, i)
            if v in (OP, OPX, OPQ) and i in (0, 1):
                return OPK if i else v
            if k == 'ref' and v[2] >= HEAP:
                return v        # the pointer inside a box
            if k == 'i' and i == 0:
                return v        # a number in a wrapper (NonZero)
            raise Unknown('field of ' + k)
        if t == 'i':
            raise Unknown('index projection')
        if t == 'ci':
            if k == 'arr':
                n = len(v[1])
                i = n - e[1] if e[3] else e[1]
                return v[1][i]
            if k == 'bs' and not e[3]:
                return self.byte_at(st, v, ('i', e[1]))
            raise Unknown('constant index of ' + k)
        if t == 'ss':
            if k == 'bs' and not e[3]:
                return ('bs', self.byte_slice(st, v[1], ('i', e[1]), ('i', e[2])))
            if k == 'bs' and e[3] and e[2] == 0:
                return ('bs', self.byte_slice(st, v[1], ('i', e[1]), None))
            if k == 'arr':
                return ('arr', v[1][e[1]:len(v[1]) - e[2] if e[3] else e[2]])
            raise Unknown('subslice of ' + k)
        raise Unknown('projection %r' % (e,))

    def get(self, st, f, place):
        v = f.L.get(place[0])
        if v is None:
            ty = self.p.insts[f.inst]['body']['locals'][place[0]] if f.inst is not None else None
            if ty is None or self.p.nn(ty) not in ('Option<never>', 'Option<Infallible>'):
                raise Unknown('use of an uninitialised local')
            v = ('adt', ty, self.p.variant_index(ty, 'None'), ())
        for e in place[1:]:
            if isinstance(e, list) and e[0] == 'i':
                v = self.index(st, f, v, e[1])
            else:
                v = self.proj(st, v, e)
        return v

    def index(self, st, f, v, local):
        iv = f.L[local]
        if v[0] == 'arr':
            x = self.simp(st, iv)
            if x[0] == 'ch' and len(set(v[1])) < len(v[1]):
                # a table: the cases are the entries, not the indices
                vals = {}
                for j, e in enumerate(v[1]):
                    vals.setdefault(e, []).append(j)
                pre, rest = P.preimages(x[2], set(range(len(v[1]))))
                if all(e[0] == 'i' for e in vals) and not rest:
                    pc = []
                    for e, js in vals.items():
                        for a, b in cs.union(*[pre[j] for j in js]):
                            pc.append((a, b, 0, e[1]))
                    return self.simp(st, ('ch', x[1], tuple(sorted(pc))))
                sets = [cs.union(*[pre[j] for j in js]) for js in vals.values()] + [rest]
                sets = [y for y in sets if y]
                if len(sets) > 1:
                    raise NeedSplit(x[1], sets)
                if not rest:
                    for e, js in vals.items():
                        if cs.union(*[pre[j] for j in js]):
                            return e
            i = self.concrete(st, iv)
            return v[1][i]
        if v[0] in ('bs', 'sl'):
            return self.byte_at(st, v, iv)
        raise Unknown('index of ' + v[0])

    def byte_at(self, st, v, iv):
        if v[0] == 'bs' and v[1][0] == 'lit':
            return ('i', v[1][1].encode()[self.concrete(st, iv)])
        if v[0] == 'bs' and v[1][0] in ('s', 'sm'):
            r, k = self.byte_pos(st, v[1], iv)
            q = v[1][-1]
            if k == 0 and self.at_end(st, r, q):
                raise Panic('index out of bounds')
            return self.byte(st, r, k)
        raise Unknown('byte of ' + v[0])

    def byte(self, st, r, k):
        """The byte k bytes into the character at r."""
        if k == 0:
            self.need(st, r)
            return self.simp(st, ('ch', r, P.LEAD))
        return ('rng', 0x80, 0xBF)

    def bwalk(self, st, p, k, q, n, what='index'):
        """n bytes on from byte k of the character at p, inside a slice that ends at q."""
        if k == 0:
            a = st.adj.get(p)
            if a is not None and len(a[0].encode()) == n:
                return a[1], 0
        k += n
        while k > 0:
            if self.at_end(st, p, q):
                raise Panic('%s out of range' % what)
            l = self.clen(st, p)
            if k < l:
                return p, k
            k -= l
            p = st.cells[p][1]
        return p, 0

    def byte_pos(self, st, s, v, what='index'):
        """Where an offset into a byte slice points: (character, byte inside it)."""
        v = self.simp(st, v)
        p, k, q = (s[1], 0, s[2]) if s[0] == 's' else s[1:]
        if v[0] == 'ch':
            v = ('i', self.concrete(st, v))
        if v[0] == 'i':
            r = self.bwalk(st, p, k, q, v[1], what)
            if s[0] == 's' and v[1]:
                self.same(st, p, v[1], r[0], r[1])
            return r
        if k == 0 and v[0] == 'offk' and v[1] == p:
            if v[2] == 'E' or q is not None and self.pos_cmp(st, v[2], q) >= 0:
                raise Panic('%s out of range' % what)
            return v[2], v[3]
        if k == 0:
            return self.resolve(st, p, q, v, what), 0
        raise Unknown('offset into the middle of a character')

    def same(self, st, p, n, r, k=0):
        """Remember that byte k of the character at r is n bytes after p."""
        if self.widen and n:
            st.eq[(p, n)] = (r, k)

    def byte_slice(self, st, s, lo, hi, what='slice index'):
        if s[0] == 'lit':
            return self.slice(st, s, lo, hi, what)
        if s[0] == 'bcut':
            raise Unknown('part of a slice that ends inside a character')
        p, k, q = (s[1], 0, s[2]) if s[0] == 's' else s[1:]
        a, j = (p, k) if lo is None else self.byte_pos(st, s, lo, what)
        z, e = (q, 0) if hi is None else self.byte_pos(st, s, hi, what)
        if e:
            if self.pos_cmp(st, a, z) < 0 or self.pos_cmp(st, a, z) == 0 and j < e:
                return ('bcut', a, z, e)
            raise Unknown('a slice that ends inside a character')
        if lo is not None and hi is not None:
            c = self.pos_cmp(st, a, z)
            if c > 0 or c == 0 and j:
                raise Panic('%s starts after its end' % what)
        if z == 'E':
            z = None
        return ('s', a, z) if j == 0 else ('sm', a, j, z)

    def resolve(self, st, p, q, v, what='index'):
        """The position an offset into the slice (p, q) denotes."""
        if v is None:
            return q
        v = self.simp(st, v)
        k = v[0]
        if k == 'i':
            r = self.walk(st, p, q, v[1], what)
            self.same(st, p, v[1], r)
            return r
        if k == 'offk' and v[1] == p:
            if v[2] == 'E' or q is not None and self.pos_cmp(st, v[2], q) >= 0:
                raise Panic('%s out of range' % what)
            raise Panic('%s not on a character boundary' % what)
        if k == 'off' and v[1] == p:
            if q is not None and self.pos_cmp(st, v[2], q) > 0:
                raise Panic('%s out of range' % what)
            return v[2]
        if k == 'offn':
            return self.resolve(st, p, q, self.based(st, v, p), what)
        if k == 'len' and v[1] == p:
            if q is None or q == 'E':
                return 'E'
            raise Panic('%s out of range' % what)
        if k == 'ch':
            return self.walk(st, p, q, self.concrete(st, v), what)
        raise Unknown('offset %s' % (k,))

    def slice(self, st, s, lo, hi, what='slice index'):
        if s[0] == 'lit':
            b = s[1].encode()
            a = 0 if lo is None else self.concrete(st, lo)
            z = len(b) if hi is None else self.concrete(st, hi)
            if a > z or z > len(b):
                raise Panic('%s out of range' % what)
            try:
                return ('lit', b[a:z].decode())
            except UnicodeDecodeError:
                raise Panic('%s not on a character boundary' % what)
        if s[0] != 's':
            raise Unknown('slice of ' + s[0])
        _, p, q = s
        a = p if lo is None else self.resolve(st, p, q, lo, what)
        z = q if hi is None else self.resolve(st, p, q, hi, what)
        if hi is not None and lo is not None and self.pos_cmp(st, a, z) > 0:
            raise Panic('%s starts after its end' % what)
        if a == 'E' and z is None:
            return ('s', 'E', None)
        if z == 'E':
            z = None
        return ('s', a, z)

    def root(self, st, depth, place):
        """Resolve a place to (depth, local, path) by following references."""
        f = st.fr[depth]
        d, l, path = depth, place[0], ()
        val = None
        for e in place[1:]:
            if e == '*':
                v = self.load_ref(st, ('ref', d, l, path))
                if v[0] == 'ref':
                    d, l, path = v[1], v[2], v[3]
                elif v[0] in ('box', 'raw', 'refv'):
                    path = path + ('*',)
                elif v[0] in ('s', 'lit', 'bs', 'sl'):
                    path = path + ('*',)
                else:
                    raise Unknown('deref of ' + v[0])
            elif isinstance(e, list):
                if e[0] == 'i':
                    iv = st.fr[depth].L[e[1]]
                    path = path + (('ci', self.concrete(st, iv), 0, False),)
                else:
                    path = path + (tuple(e),)
            else:
                path = path + (e,)
        return d, l, path

    def store(self, st, depth, place, val):
        if len(place) == 1:
            st.fr[depth].L[place[0]] = val
            return
        d, l, path = self.root(st, depth, place)
        self.store_at(st, d, l, path, val)

    def store_at(self, st, d, l, path, val):
        L = st.fr[d].L
        L[l] = self.update(st, L.get(l), path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if v is None:
            if e == '*' or e[0] not in ('f', 'd'):
                raise Unknown('write through an uninitialised place')
            if e[0] == 'd':
                raise Unknown('write into an uninitialised enum')
            return ('part', ((e[1], self.update(st, None, path[1:], val)),))
        k = v[0]
        if e == '*':
            if k in ('box', 'refv', 'raw'):
                return (k, self.update(st, v[1], path[1:], val))
            raise Unknown('write through ' + k)
        if e[0] == 'd':
            return self.update(st, v, path[1:], val)
        if e[0] == 'f':
            i = e[1]
            if k == 'adt':
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(LOST)
                fs[i] = self.update(st, fs[i], path[1:], val)
                return (k, v[1], v[2], tuple(fs))
            if k == 'tup' or k == 'arr':
                fs = list(v[1])
                fs[i] = self.update(st, fs[i], path[1:], val)
                return (k, tuple(fs))
            if k == 'clo':
                fs = list(v[2])
                fs[i] = self.update(st, fs[i], path[1:], val)
                return (k, v[1], tuple(fs))
            if k == 'part':
                d = dict(v[1])
                d[i] = self.update(st, d.get(i), path[1:], val)
                return (k, tuple(sorted(d.items())))
        if e[0] == 'ci' and k == 'arr':
            fs = list(v[1])
            fs[e[1]] = self.update(st, fs[e[1]], path[1:], val)
            return (k, tuple(fs))
        raise Unknown('write into ' + k)

    # ------------------------------------------------------------ operands
    def const(self, ty, c):
        if 'i' in c:
            return ('i', int(c['i']))
        if 'b' in c:
            return ('i', int(c['b']))
        if 'c' in c:
            return ('i', int(c['c']))
        if 'str' in c:
            return ('lit', c['str'])
        if 'fn' in c:
            return ('fn', c['fn'])
        if 'zst' in c:
            return self.zst(c['zst'] if isinstance(c['zst'], int) else ty)
        if 'tup' in c:
            t = self.p.types[ty]
            ts = t.get('ts', [])
            return ('tup', tuple(self.const(ts[i] if i < len(ts) else None, x) for i, x in enumerate(c['tup'])))
        if 'arr' in c:
            et = self.p.types[ty].get('t') if ty is not None else None
            return ('arr', tuple(self.const(et, x) for x in c['arr']))
        if 'adt' in c:
            t = self.p.types[c['adt']]
            fs = t['vs'][c['v']]['f']
            return ('adt', c['adt'], c['v'], tuple(self.const(fs[i][1], x) for i, x in enumerate(c['f'])))
        if 'ref' in c:
            it = self.p.types[ty].get('t') if ty is not None else None
            v = self.const(it, c['ref'])
            if v[0] == 'lit':
                return v
            return ('refv', v)
        raise Unknown('constant %s' % (c.get('u') or list(c)))

    def zst(self, ty):
        t = self.p.types[ty]
        k = t['k']
        if k == 'fndef':
            cal = t['callee']
            if cal.get('inst') is not None:
                return ('fn', cal['inst'])
            return ('zst', ty)
        if k == 'tuple':
            return ('tup', tuple(self.zst(x) for x in t['ts']))
        if k == 'closure':
            return ('clo', ty, ())
        if k == 'adt' and t.get('ak') != 'enum' and len(t['vs']) == 1:
            return ('adt', ty, 0, tuple(self.zst(f[1]) for f in t['vs'][0]['f']))
        return ('zst', ty)

    def operand(self, st, f, o):
        if o[0] in ('c', 'm'):
            return self.get(st, f, o[1])
        if o[0] == 'k':
            return self.const(o[1], o[2])
        if o[0] == 'rc':
            return I0
        raise Unknown('operand ' + str(o[0]))

    # ------------------------------------------------------------ arithmetic
    def intty(self, ty):
        n = self.p.nn(ty)
        return INT_BITS.get(n, 64), n.startswith('i')

    def binop(self, st, op, x, y, ty):
        x = self.simp(st, x)
        y = self.simp(st, y)
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        if x[0] == 'i' and y[0] == 'i':
            return self.bin_ii(base, x[1], y[1], ty)
        if x == ANY or y == ANY:
            return ANY
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, base, x, y)
        if x[0] == 'ch' or y[0] == 'ch':
            return self.bin_ch(st, base, x, y, ty)
        if base == 'Add':
            return self.add(st, x, y)
        if base == 'Sub':
            try:
                return self.sub(st, x, y)
            except Panic as e:
                if 'WithOverflow' in op and not self.intty(ty)[1] and 'boundary' not in str(e):
                    raise
                raise Unknown('difference below zero, or not of whole characters')
        if LOST in (x, y):
            raise Unknown('value lost')
        raise Unknown('%s of %s and %s' % (base, x[0], y[0]))

    def bin_ii(self, base, a, b, ty):
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[base]
            return ('i', int(r))
        bits, sg = self.intty(ty)
        if base == 'Add':
            r = a + b
        elif base == 'Sub':
            r = a - b
        elif base == 'Mul':
            r = a * b
        elif base == 'Div':
            if b == 0:
                raise Panic('division by zero')
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif base == 'Rem':
            if b == 0:
                raise Panic('remainder by zero')
            r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
        elif base == 'BitAnd':
            r = a & b
        elif base == 'BitOr':
            r = a | b
        elif base == 'BitXor':
            r = a ^ b
        elif base == 'Shl':
            r = a << (b % bits)
        elif base == 'Shr':
            r = a >> (b % bits)
        elif base == 'Cmp':
            r = (a > b) - (a < b)
            raise Unknown('three way compare')
        else:
            raise Unknown('operator ' + base)
        return ('i', P.wrapi(r, bits, sg))

    def bin_ch(self, st, base, x, y, ty):
        bits, sg = self.intty(ty)
        try:
            if x[0] == 'ch' and y[0] == 'i':
                return self.simp(st, ('ch', x[1], self.ch_const(base, x[2], y[1], bits, sg, ty, False)))
            if y[0] == 'ch' and x[0] == 'i':
                return self.simp(st, ('ch', y[1], self.ch_const(base, y[2], x[1], bits, sg, ty, True)))
            if x[0] == 'ch' and y[0] == 'ch' and x[1] == y[1] and isinstance(x[1], int):
                def comb(a, b):
                    if b[2] == 0:
                        return self.ch_const(base, (a,), b[3], bits, sg, ty, False)
                    if a[2] == 0:
                        return self.ch_const(base, (b,), a[3], bits, sg, ty, True)
                    if base in ('Sub',):
                        return ((a[0], a[1], 0, P.wrapi(a[3] - b[3], bits, sg)),)
                    raise P.Cannot(base)
                return self.simp(st, ('ch', x[1], P.zipc(x[2], y[2], comb)))
        except P.Cannot as e:
            raise Unknown('character arithmetic: %s' % e)
        # offsets with a character length
        if x[0] == 'ch':
            return self.binop(st, base, ('i', self.concrete(st, x)), y, ty)
        if y[0] == 'ch':
            return self.binop(st, base, x, ('i', self.concrete(st, y)), ty)

    def ch_const(self, base, pc, k, bits, sg, ty, flipped):
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if flipped:
                base = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(base, base)
            return P.cmp(pc, base, k)
        if base == 'Add':
            return P.shift(pc, k, bits, sg)
        if base == 'Sub' and not flipped:
            return P.shift(pc, -k, bits, sg)
        if flipped:
            return P.mapc(pc, lambda v: self.bin_ii(base, k, v, ty)[1])
        return P.mapc(pc, lambda v: self.bin_ii(base, v, k, ty)[1])

    def compare(self, st, base, x, y):
        if x[0] == 'ch' or y[0] == 'ch':
            if (x[0] in ('ch', 'i')) and (y[0] in ('ch', 'i')):
                if x[0] == 'ch' and y[0] == 'ch' and (x[1] != y[1] or not isinstance(x[1], int)):
                    raise Unknown('comparison of two characters')
                try:
                    if x[0] == 'ch' and y[0] == 'ch':
                        def comb(a, b):
                            if b[2] == 0:
                                return P.cmp((a,), base, b[3])
                            if a[2] == 0:
                                fl = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(base, base)
                                return P.cmp((b,), fl, a[3])
                            r = {'Eq': a[3] == b[3], 'Ne': a[3] != b[3], 'Lt': a[3] < b[3], 'Le': a[3] <= b[3],
                                 'Gt': a[3] > b[3], 'Ge': a[3] >= b[3]}[base]
                            return ((a[0], a[1], 0, int(r)),)
                        return self.simp(st, ('ch', x[1], P.zipc(x[2], y[2], comb)))
                    if x[0] == 'ch':
                        return self.simp(st, ('ch', x[1], P.cmp(x[2], base, y[1])))
                    fl = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(base, base)
                    return self.simp(st, ('ch', y[1], P.cmp(y[2], fl, x[1])))
                except P.Cannot as e:
                    raise Unknown(str(e))
            # a character length against an offset
            if x[0] == 'ch':
                x = ('i', self.concrete(st, x))
            if y[0] == 'ch':
                y = ('i', self.concrete(st, y))
            return self.compare(st, base, x, y)
        c = self.order(st, x, y)
        r = {'Eq': c == 0, 'Ne': c != 0, 'Lt': c < 0, 'Le': c <= 0, 'Gt': c > 0, 'Ge': c >= 0}[base]
        return ('i', int(r))

    def order(self, st, x, y):
        if x[0] == 'i' and y[0] == 'i':
            return (x[1] > y[1]) - (x[1] < y[1])
        if x == y:
            return 0
        if x[0] == 'i':
            return -self.order(st, y, x)
        if x[0] == 'len' and y[0] == 'i':
            return self.cmp_dist(st, x[1], None, y[1])
        if x[0] == 'off' and y[0] == 'i':
            return self.cmp_dist(st, x[1], x[2], y[1])
        if x[0] == 'len' and y[0] == 'len':
            return -self.pos_cmp(st, x[1], y[1])
        if x[0] == 'off' and y[0] == 'off' and x[1] == y[1]:
            return self.pos_cmp(st, x[2], y[2])
        if x[0] == 'len' and y[0] == 'off' and x[1] == y[1]:
            return self.pos_cmp(st, None, y[2])
        if x[0] == 'off' and y[0] == 'len' and x[1] == y[1]:
            return self.pos_cmp(st, x[2], None)
        if x[0] == 'ptr' and y[0] == 'ptr':
            return self.pos_cmp(st, x[1], y[1])
        if x[0] == 'offk':
            if y[0] == 'i':
                return self.cmp_dist(st, x[1], x[2], y[1] - x[3])
            if y[0] == 'off' and x[1] == y[1]:
                return 1 if self.pos_cmp(st, x[2], y[2]) >= 0 else -1
            if y[0] == 'len' and x[1] == y[1]:
                return 1 if self.pos_eq(st, x[2], None) else -1
            if y[0] == 'offk' and x[1] == y[1]:
                c = self.pos_cmp(st, x[2], y[2])
                return c or (x[3] > y[3]) - (x[3] < y[3])
        elif y[0] == 'offk':
            return -self.order(st, y, x)
        if x[0] == 'rng' and y[0] == 'i' and not x[1] <= y[1] <= x[2]:
            return 1 if x[1] > y[1] else -1
        if x[0] == 'offn':
            if y[0] == 'i':
                return self.cmp_dist(st, x[2], x[3], y[1] - x[1])
            if y[0] == 'offn' and x[1:3] == y[1:3]:
                return self.pos_cmp(st, x[3], y[3])
            if y[0] in ('off', 'len', 'offk'):
                return self.order(st, self.based(st, x, y[1]), y)
        elif y[0] == 'offn':
            return -self.order(st, y, x)
        raise Unknown('comparison of %s and %s' % (x[0], y[0]))

    def add(self, st, x, y):
        if x[0] == 'i' and y[0] != 'i':
            if x[1] == 0:
                return y
            x, y = y, x
        if y == I0:
            return x
        if x[0] == 'off' and y[0] == 'i':
            # only over text that is known; otherwise the sum is kept as it is
            r = self.ahead(st, x[2], y[1])
            if r is None:
                return ('offn', y[1], x[1], x[2])
            return ('offk', x[1]) + r if r[1] else ('off', x[1], r[0])
        if x[0] == 'offk' and y[0] == 'i':
            return self.offk(st, x[1], x[2], x[3] + y[1])
        if x[0] == 'len' and y[0] == 'i':
            return ('offk', x[1], 'E', y[1])
        if x[0] == 'off' and y[0] == 'off':
            if x[2] == y[1]:
                return ('off', x[1], y[2])
            if y[2] == x[1]:
                return ('off', y[1], x[2])
        if x[0] == 'offn' and y[0] == 'i':
            return ('offn', x[1] + y[1], x[2], x[3])
        if x[0] == 'offn' and y[0] == 'off' and x[3] == y[1]:
            return ('offn', x[1], x[2], y[2])
        if x[0] == 'len':
            x, y = y, x
        if x[0] == 'off' and y[0] == 'len' and x[2] == y[1]:
            return ('len', x[1])
        if x[0] == 'offn' and y[0] == 'off':
            x, y = y, x
        if x[0] == 'off' and y[0] == 'offn':
            z = self.based(st, y, x[2])
            if z[0] == 'i':
                return self.add(st, x, z)
            return (z[0], x[1]) + z[2:]
        if x[0] == 'ptr' and y[0] == 'off':
            return ('ptr', y[2])
        raise Unknown('sum of %s and %s' % (x[0], y[0]))

    def sub(self, st, x, y):
        if y == I0:
            return x
        if x == y:
            return I0
        if x[0] == 'len' and y[0] == 'len':
            c = self.pos_cmp(st, x[1], y[1])
            if c == 0:
                return I0
            if c > 0:
                raise Panic('attempt to subtract with overflow')
            return ('off', x[1], y[1] if y[1] != 'E' else 'E')
        if x[0] == 'len' and y[0] == 'off' and x[1] == y[1]:
            return ('len', y[2])
        if x[0] == 'len' and y[0] == 'i':
            return ('len', self.walk(st, x[1], None, y[1], 'subtraction'))
        if x[0] == 'off' and y[0] == 'off':
            if x[1] == y[1]:
                c = self.pos_cmp(st, x[2], y[2])
                if c == 0:
                    return I0
                if c < 0:
                    raise Panic('attempt to subtract with overflow')
                return ('off', y[2], x[2])
            if x[2] == y[2]:
                c = self.pos_cmp(st, x[1], y[1])
                if c > 0:
                    raise Panic('attempt to subtract with overflow')
                return ('off', x[1], y[1])
        if x[0] == 'ptr' and y[0] == 'ptr':
            return self.off(st, y[1], x[1])
        if x[0] == 'off' and y[0] == 'i':
            c = self.cmp_dist(st, x[1], x[2], y[1])
            if c < 0:
                raise Panic('attempt to subtract with overflow')
            return self.off(st, self.walk(st, x[1], None, y[1]), x[2])
        if x[0] == 'offk' and y[0] == 'i' and y[1] <= x[3]:
            return ('offk', x[1], x[2], x[3] - y[1]) if y[1] < x[3] else self.off(st, x[1], x[2])
        if x[0] == 'offk' and y[0] == 'off' and x[1] == y[1] and self.pos_cmp(st, y[2], x[2]) <= 0:
            return ('i', x[3]) if self.pos_eq(st, x[2], y[2]) else ('offk', y[2], x[2], x[3])
        if x[0] == 'offn' and y[0] == 'i' and y[1] <= x[1]:
            return ('offn', x[1] - y[1], x[2], x[3]) if y[1] < x[1] else self.off(st, x[2], x[3])
        raise Unknown('difference of %s and %s' % (x[0], y[0]))

    def ahead(self, st, r, n):
        """The place n bytes after r (character, byte inside it) if the text in between is known."""
        while n > 0:
            a = st.adj.get(r)
            if a is not None and len(a[0].encode()) <= n:
                n -= len(a[0].encode())
                r = a[1]
                continue
            c = st.cells.get(r)
            if c is None or c == 'eof':
                return None
            l = self.clen(st, r)
            if l > n:
                return r, n
            n -= l
            r = c[1]
        return r, 0

    def known_dist(self, st, p, q):
        """Bytes from p to q if the text in between is known."""
        n = 0
        while p != q:
            a = st.adj.get(p)
            if a is not None and a[1] <= q:
                n += len(a[0].encode())
                p = a[1]
                continue
            c = st.cells.get(p)
            if c is None or c == 'eof' or not isinstance(q, int) or c[1] > q:
                return None
            n += self.clen(st, p)
            p = c[1]
        return n

    def based(self, st, v, p):
        """n + (b - a) as a distance from p."""
        r = self.based_on(st, v, p)
        st.eq[v] = r
        return r

    def based_on(self, st, v, p):
        _, n, a, b = v
        if a == p:
            return self.offk(st, p, b, n)
        d = self.known_dist(st, p, a) if isinstance(a, int) and isinstance(p, int) and p <= a else None
        if d is None:
            if self.walk(st, p, None, n) == a:
                return self.off(st, p, b)
            raise Unknown('offset from another base')
        if d > n:
            raise Unknown('offset from another base')
        return self.offk(st, p, b, n - d)

    def offk(self, st, base, r, k):
        """The distance from base to r, and k bytes more."""
        while k > 0:
            a = st.adj.get(r)
            if a is not None and len(a[0].encode()) == k:
                return ('off', base, a[1])
            if self.at_end(st, r, None):
                return ('offk', base, 'E', k)
            l = self.clen(st, r)
            if k < l:
                return ('offk', base, r, k)
            k -= l
            r = st.cells[r][1]
        return ('off', base, r)

    def off(self, st, p, q):
        if self.pos_eq(st, p, q):
            return I0
        return ('off', p, q)

    def rest_of(self, v):
        """A text handed on as what is left: an empty one is the end of the input."""
        return ('s', 'E', None) if v == ('lit', '') else v

    def error_place(self, st, s):
        s = self.rest_of(s)
        if s[0] == 's':
            return OP if s[2] is None or s[2] == 'E' or st.cells.get(s[2]) == 'eof' else OPQ
        return s if s in (OP, OPX, OPQ) else OPX

    def error_class(self, e, st=None):
        """Variant of a nom error, and whether the text in it is a rest of the input."""
        n = self.p.types[e[1]]['vs'][e[2]]['n']
        c = e[3][0] if e[3] else OP
        if c[0] == 'tup' and len(c[1]) == 2:
            c = self.error_place(st, c[1][0]) if c[1][0][0] in ('s', 'op', 'opx', 'opq', 'lit', 'sm') else c
        if c == OPX:
            return n + ' ' + ELSEWHERE
        if n == 'Incomplete' or c == OP:
            return n
        raise Unknown('error content %r' % (c,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, depth, f, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, f, r[1])
        if k == 'ref' or k == 'addr':
            place = r[2] if k == 'ref' else r[1]
            return self.make_ref(st, depth, place)
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, f, o) for o in r[2]]
            if kind[0] == 'tuple':
                if len(ops) == 2 and (ops[1] == OPK or ops[1][0] == 'adt' and self.p.nn(ops[1][1]) == 'ErrorKind') and \
                        ops[0][0] in ('s', 'op', 'opx', 'opq', 'lit', 'sm'):
                    if self.rest_of(ops[0])[0] == 's' and self.errors:
                        return ('tup', (self.rest_of(ops[0]), ops[1]))
                    return self.error_place(st, ops[0])
                return ('tup', tuple(ops))
            if kind[0] == 'array':
                return ('arr', tuple(ops))
            if kind[0] == 'adt':
                return ('adt', kind[1], kind[2], tuple(ops))
            if kind[0] == 'closure':
                return ('clo', kind[1], tuple(ops))
            raise Unknown('aggregate ' + str(kind[0]))
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, f, r[2]), self.operand(st, f, r[3]), r[4])
        if k == 'cbin':
            x = self.operand(st, f, r[2])
            y = self.operand(st, f, r[3])
            x = self.simp(st, x)
            y = self.simp(st, y)
            if x[0] == 'i' and y[0] == 'i':
                v = self.bin_ii(r[1].replace('WithOverflow', ''), x[1], y[1], r[4])
                exact = {'Add': x[1] + y[1], 'Sub': x[1] - y[1], 'Mul': x[1] * y[1]}.get(r[1].replace('WithOverflow', ''), v[1])
                return ('tup', (v, ('i', int(exact != v[1]))))
            if x[0] == 'ch' or y[0] == 'ch':
                bits, sg = self.intty(r[4])
                if (x[0] == 'ch') != (y[0] == 'ch') and (x[0] == 'i' or y[0] == 'i'):
                    # exact result in a wide type, then the overflow condition
                    pc = (x if x[0] == 'ch' else y)
                    kk = (y if x[0] == 'ch' else x)[1]
                    op = r[1].replace('WithOverflow', '')
                    pos = pc[1]
                    try:
                        if op == 'Add':
                            wide = P.shift(pc[2], kk, 128, True)
                        elif op == 'Sub' and x[0] == 'ch':
                            wide = P.shift(pc[2], -kk, 128, True)
                        else:
                            wide = P.mapc(pc[2], lambda v: {'Sub': kk - v, 'Mul': kk * v}[op])
                        val = P.cast(wide, bits, sg)
                        lo = -(1 << bits - 1) if sg else 0
                        hi = (1 << bits - 1) - 1 if sg else (1 << bits) - 1
                        ov = P.zipc(P.cmp(wide, 'Lt', lo), P.cmp(wide, 'Gt', hi),
                                    lambda a, b: ((a[0], a[1], 0, a[3] | b[3]),))
                    except P.Cannot as e:
                        raise Unknown(str(e))
                    return ('tup', (self.simp(st, ('ch', pos, val)), self.simp(st, ('ch', pos, ov))))
            v = self.binop(st, r[1], x, y, r[4])
            if v == ANY:
                # nothing counts up to the end of a 64 bit number
                small = next((z[1] for z in (x, y) if z[0] == 'i'), None)
                fits = r[1].startswith('Add') and self.intty(r[4])[0] >= 64 and small is not None and 0 <= small < 1 << 16
                return ('tup', (v, I0 if fits else ANY))
            return ('tup', (v, I0))
        if k == 'un':
            x = self.simp(st, self.operand(st, f, r[2]))
            if x == ANY:
                return ANY
            if r[1] == 'Not':
                isb = self.p.nn(r[3]) == 'bool'
                bits, sg = self.intty(r[3])
                fn = (lambda v: 1 - v) if isb else (lambda v: P.wrapi(~v, bits, sg))
                if x[0] == 'i':
                    return ('i', fn(x[1]))
                if x[0] == 'ch':
                    return ('ch', x[1], P.mapc(x[2], fn))
            if r[1] == 'Neg' and x[0] == 'i':
                bits, sg = self.intty(r[3])
                return ('i', P.wrapi(-x[1], bits, sg))
            if r[1] == 'PtrMetadata':
                return self.length(st, x)
            raise Unknown('%s of %s' % (r[1], x[0]))
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, f, r[2]), r[3], r[4])
        if k == 'discr':
            v = self.get(st, f, r[1])
            return self.discr(v)
        if k == 'len':
            return self.length(st, self.get(st, f, r[1]))
        if k == 'repeat':
            v = self.operand(st, f, r[1])
            return ('arr', (v,) * int(r[2]))
        raise Unknown('rvalue ' + k)

    def discr(self, v):
        if v[0] == 'adt':
            vs = self.p.types[v[1]]['vs']
            d = vs[v[2]].get('d')
            if d is not None and self.p.types[v[1]].get('path') == 'core::cmp::Ordering':
                return ('i', P.wrapi(int(d), 8, True))
            return ('i', int(d) if d is not None else v[2])
        if v[0] == 'nt':
            raise NeedInline(v[1])
        if v[0] == 'fld':
            b = v
            while b[0] == 'fld':
                b = b[1]
            raise NeedInline(b[1])
        if v[0] == 'i':
            return v
        if v[0] == 'zst' and self.p.nn(v[1]) in ('Option<never>', 'Option<Infallible>'):
            return self.discr(('adt', v[1], self.p.variant_index(v[1], 'None'), ()))
        raise Unknown('discriminant of ' + v[0])

    def length(self, st, v):
        if v[0] in ('ref', 'refv'):
            v = self.proj(st, v, '*')
        if v[0] == 'arr':
            return ('i', len(v[1]))
        if v[0] == 'bs':
            v = v[1]
        if v[0] == 'lit':
            return ('i', len(v[1].encode()))
        if v[0] == 's':
            if v[2] is None:
                return I0 if v[1] == 'E' else ('len', v[1])
            return self.off(st, v[1], v[2])
        raise Unknown('length of ' + v[0])

    def make_ref(self, st, depth, place):
        if len(place) > 1:
            # reborrow of a string or of a value behind a reference
            if place[-1] == '*':
                v = self.get(st, st.fr[depth], place[:-1])
                if v[0] in ('s', 'lit', 'bs', 'refv', 'ref', 'sl', 'fn', 'op', 'opx', 'opq'):
                    return v
                if v[0] in ('box', 'raw'):
                    pass
            try:
                d, l, path = self.root(st, depth, place)
            except Unknown:
                return ('refv', self.get(st, st.fr[depth], place))
            base = st.fr[d].L.get(l)
            if base is not None and base[0] == 'refv' and path and path[0] == '*':
                return ('refv', self.get(st, st.fr[depth], place))
            v = None
            try:
                v = self.load_ref(st, ('ref', d, l, path))
            except Unknown:
                pass
            if v is not None and v[0] in ('bs', 'sl') or (v is not None and v[0] in ('s', 'lit') and place[-1] == '*'):
                return v
            return ('ref', d, l, path)
        v = st.fr[depth].L.get(place[0])
        return ('ref', depth, place[0], ())

    def cast(self, st, kind, x, to, frm):
        x = self.simp(st, x)
        if kind.startswith('PointerCoercion'):
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind or 'UnsafeFnPointer' in kind:
                return x
            if 'Unsize' in kind:
                return x
            return x
        if kind in ('IntToInt',) or kind.startswith('IntToInt'):
            bits, sg = self.intty(to)
            if x[0] == 'i':
                return ('i', P.wrapi(x[1], bits, sg))
            if x == ANY:
                return x
            if x[0] == 'ch':
                try:
                    return self.simp(st, ('ch', x[1], P.cast(x[2], bits, sg)))
                except P.Cannot as e:
                    raise Unknown(str(e))
            if x[0] in ('off', 'len', 'offn', 'offk') and bits == 64:
                return x
            raise Unknown('integer cast of ' + x[0])
        if kind.startswith('BoxDerefTransmute') and x[0] in ('ref', 'box'):
            return x
        if kind.startswith('Transmute') or kind.startswith('PtrToPtr') or kind.startswith('Subtype'):
            tn = self.p.types[to]
            fn = self.p.types[frm]
            if x[0] in ('i', 'ch') and kind.startswith('Transmute'):
                if tn['k'] == 'adt' and self.p.nn(to).startswith('Option<NonZero'):
                    if x[0] != 'i':
                        raise Unknown('cast %s of %s' % (kind, x[0]))
                    return ('adt', to, self.p.variant_index(to, 'Some' if x[1] else 'None'), (x,) if x[1] else ())
                return x
            if x[0] in ('ref', 'box', 'refv', 'raw') and tn['k'] in ('uint', 'int') and kind.startswith('Transmute'):
                return ANY
            if x[0] in ('s', 'lit') and tn['k'] in ('ref', 'ptr'):
                tt = self.p.types[tn['t']]
                if tt['k'] == 'slice':
                    return ('bs', x)
                if tt['k'] == 'str':
                    return x
                if tt['k'] == 'uint' and x[0] == 's':
                    return ('ptr', x[1])
            if x[0] == 'bs' and tn['k'] in ('ref', 'ptr'):
                tt = self.p.types[tn['t']]
                if tt['k'] == 'str':
                    return x[1]
                if tt['k'] == 'slice':
                    return x
            if x[0] in ('box', 'ref', 'refv', 'raw') and tn['k'] in ('ref', 'ptr', 'adt'):
                return x
            raise Unknown('cast %s of %s' % (kind, x[0]))
        if kind.startswith('PointerExposeProvenance') or kind.startswith('PointerExposeAddress'):
            if x[0] == 'ptr':
                return x
        raise Unknown('cast ' + kind)

    # ------------------------------------------------------------ running
    def split(self, s, e):
        """The cases of a character, each with its own future."""
        if isinstance(e.pos, tuple):
            raise LateSplit([x for x in e.sets if cs.inter(e.pos[1], x)])
        c = s.cells[e.pos]
        out = []
        for x in e.sets:
            y = cs.inter(c[0], x)
            if y:
                s2 = s.copy()
                s2.cells[e.pos] = (y, c[1])
                out.append(s2)
        if len(out) > 1 and e.pos in self.fixed:
            # the character was read earlier: the cases have to be told apart when it is read
            raise LateSplit([x for x in e.sets if cs.inter(c[0], x)])
        return out

    def run(self, st):
        """Run to the next event. Yields (kind, data, state) leaves."""
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            k, snap, nxt = 0, None, 1024
            try:
                while True:
                    n += 1
                    k += 1
                    if n > self.limit:
                        out.append(('loop', None, s))
                        break
                    if k >= 1024:
                        # the same configuration twice, with nothing read in between: never returns
                        if snap is not None and len(s.fr) == len(snap.fr) and s.fr[-1].bb == snap.fr[-1].bb \
                                and s.fr[-1].si == snap.fr[-1].si and recurs(s, snap):
                            out.append(('loop', None, s))
                            break
                        if k >= nxt:
                            snap, nxt = s.copy(), nxt * 2
                    r = self.step(s)
                    if r is not None:
                        out.append((r, None, s))
                        break
            except NeedSplit as e:
                work += self.split(s, e)
            except NeedRead as e:
                # values that hang on known characters have to survive the loss of
                # the character: split on them now
                try:
                    if self.lexical:
                        s.hold = self.holders(s, e.pos)
                    self.settle(s)
                except NeedSplit as e2:
                    work += self.split(s, e2)
                    continue
                except Unknown as u:
                    out.append(('unknown', self.where(s) + str(u), s))
                    continue
                out.append(('read', e.pos, s))
            except NeedNT as e:
                try:
                    self.settle(s)
                except NeedSplit as e2:
                    work += self.split(s, e2)
                    continue
                except Unknown as u:
                    out.append(('unknown', self.where(s) + str(u), s))
                    continue
                out.append(('nt', (e.name, e.pos), s))
            except NeedFork as e:
                for v in range(e.n):
                    s2 = s.copy()
                    s2.pick = v
                    work.append(s2)
            except NeedInline as e:
                out.append(('inline', e.name, s))
            except Panic as e:
                out.append(('panic', self.where(s) + str(e), s))
            except Unknown as e:
                out.append(('unknown', self.where(s) + str(e), s))
            except (KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
                out.append(('unknown', self.where(s) + 'analyser: %s %s' % (type(e).__name__, e), s))
        return out

    def where(self, st):
        """Innermost frame in the analysed crate."""
        for f in reversed(st.fr):
            if f.prim is None:
                i = self.p.insts[f.inst]
                if i['crate'] == self.p.crate:
                    b = i['body']['blocks'][f.bb]
                    line = None
                    for s in b['s'][:f.si + 1]:
                        if s[0] == '=':
                            line = s[3]
                    t = b['t']
                    if f.si >= len(b['s']) or line is None:
                        line = t.get('line', i.get('line'))
                    return '%s:%s in %s: ' % (t.get('file') or i.get('file'), line, i['npath'])
        return ''

    def step(self, st):
        depth = len(st.fr) - 1
        f = st.fr[depth]
        if f.prim is not None:
            return self.prims[f.prim](self, st, f)
        body = self.p.insts[f.inst]['body']
        blk = body['blocks'][f.bb]
        ss = blk['s']
        if f.si < len(ss):
            s = ss[f.si]
            k = s[0]
            if k == '=':
                v = self.rvalue(st, depth, f, s[2])
                self.store(st, depth, s[1], v)
            elif k == 'sd':
                self.set_discr(st, depth, s[1], s[2])
            elif k == 'dead' or k == 'live':
                f.L.pop(s[1], None)
            elif k == 'copynonoverlapping':
                raise Unknown('raw copy')
            st.touch.clear()
            f.si += 1
            return None
        t = blk['t']
        k = t['k']
        if k == 'goto' or k == 'drop':
            f.bb = t['to']
            f.si = 0
            return None
        if k == 'switch':
            v = self.simp(st, self.operand(st, f, t['on']))
            if v[0] == 'i':
                tgt = t['else']
                for val, bb in t['br']:
                    if int(val) == v[1] or (v[1] < 0 and int(val) == v[1] % (1 << self.intty(t['ty'])[0])):
                        tgt = bb
                        break
                st.touch.clear()
                f.bb = tgt
                f.si = 0
                return None
            if v[0] == 'ch':
                pre, rest = P.preimages(v[2], [int(x) for x, _ in t['br']])
                groups = {}
                for val, bb in t['br']:
                    groups[bb] = cs.union(groups.get(bb, ()), pre[int(val)])
                groups[t['else']] = cs.union(groups.get(t['else'], ()), rest)
                sets = [(bb, s) for bb, s in groups.items() if s]
                if len(sets) == 1:
                    st.touch.clear()
                    f.bb = sets[0][0]
                    f.si = 0
                    return None
                raise NeedSplit(v[1], [s for _, s in sets])
            if v == ANY:
                to = [bb for _, bb in t['br']] + [t['else']]
                if self.p.nn(t['ty']) == 'bool':
                    to = [t['br'][0][1], t['else']]
                f.bb = to[self.choose(st, len(to))]
                f.si = 0
                st.touch.clear()
                return None
            if v[0] in ('len', 'off', 'offk', 'offn', 'rng'):
                # a match on a length
                for val, bb in t['br']:
                    if self.order(st, v, ('i', int(val))) == 0:
                        f.bb = bb
                        f.si = 0
                        st.touch.clear()
                        return None
                f.bb = t['else']
                f.si = 0
                st.touch.clear()
                return None
            raise Unknown('branch on ' + v[0])
        if k == 'assert':
            if (t.get('m') or '').startswith(('misaligned pointer', 'null pointer', 'null reference')):
                f.bb = t['to']
                f.si = 0
                return None
            if self.truth(st, self.operand(st, f, t['c'])) != t['e']:
                raise Panic(t.get('m') or 'assertion')
            f.bb = t['to']
            f.si = 0
            return None
        if k == 'ret':
            v = f.L.get(0, UNIT)
            return self.do_return(st, v)
        if k == 'call':
            return self.call(st, depth, f, t)
        if k == 'unreachable':
            raise Unknown('unreachable code reached')
        raise Unknown('terminator ' + k)

    def set_discr(self, st, depth, place, variant):
        v = self.get(st, st.fr[depth], place)
        if v[0] == 'adt':
            self.store(st, depth, place, ('adt', v[1], variant, v[3]))
            return
        raise Unknown('set discriminant')

    def do_return(self, st, v):
        f = st.fr.pop()
        if not st.fr:
            st.ret = v
            st.fr.append(f)
            return 'ret'
        c = st.fr[-1]
        if c.prim is not None:
            c.rv = v
            return None
        self.store(st, len(st.fr) - 1, f.dest, v)
        c.bb = f.to
        c.si = 0
        st.touch.clear()
        return None

    def finish(self, st, v):
        """A primitive frame on top returns v."""
        return self.do_return(st, v)

    # ------------------------------------------------------------ calls
    def call(self, st, depth, f, t):
        self.sites += 1
        args = [self.operand(st, f, o) for o in t['a']]
        if 'fp' in t:
            fv = self.operand(st, f, t['fp'])
            return self.invoke(st, fv, args, t['d'], t['to'], t)
        fd = t['f']
        path = fd['path']
        if path in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut',
                    'core::ops::function::FnOnce::call_once'):
            tup = args[1]
            if tup[0] != 'tup':
                raise Unknown('call arguments')
            return self.invoke(st, args[0], list(tup[1]), t['d'], t['to'], t)
        inst = fd.get('inst')
        return self.call_inst(st, inst, path, args, t['d'], t['to'], fd)

    def invoke(self, st, fv, args, dest, to, t=None):
        v = fv
        ref = None
        while v[0] in ('ref', 'refv', 'box', 'raw'):
            if v[0] == 'ref':
                ref = v
            else:
                ref = None if v[0] != 'refv' else v
            v = self.proj(st, v, '*')
        if v[0] == 'fn':
            return self.call_inst(st, v[1], None, args, dest, to, None)
        if v[0] == 'clo':
            ty = self.p.types[v[1]]
            inst = ty.get('inst')
            if inst is None or 'body' not in self.p.insts[inst]:
                raise Unknown('closure without body')
            body = self.p.insts[inst]['body']
            nf = Frame(inst, dest, to)
            envt = self.p.types[body['locals'][1]]
            if envt['k'] == 'ref':
                if ref is not None and ref[0] == 'ref':
                    nf.L[1] = ref
                else:
                    nf.L[-1] = v
                    nf.L[1] = ('ref', len(st.fr), -1, ())
            else:
                nf.L[1] = v
            if body['argc'] != len(args) + 1:
                raise Unknown('closure arity')
            for i, a in enumerate(args):
                nf.L[i + 2] = a
            self.push(st, nf)
            return None
        raise Unknown('call of ' + v[0])

    def push(self, st, nf):
        if len(st.fr) > 400:
            raise Unknown('call depth')
        self.visited.add(nf.inst)
        st.fr.append(nf)
        st.touch.clear()

    def call_inst(self, st, inst, path, args, dest, to, fd):
        if inst is None:
            raise Unknown('unresolved call ' + str(path))
        i = self.p.insts[inst]
        # a Parse impl
        name = None
        if path is not None and path.split('::')[-1] == 'parse' and path.split('::')[0] in (self.p.crate, 'crate') and \
                fd is not None and fd['args'] and path.split('::')[-2] == 'Parse':
            a = [x for x in fd['args'] if isinstance(x, int)]
            if a:
                name = self.p.nn(a[0])
        elif inst in self.p.parse_of:
            name = self.p.parse_of[inst]
        if name is not None and self.oracle(name):
            return self.ask(st, name, args[0], dest, to, inst)
        if self.helper is not None and to is not None and name is None:
            h = self.helper(inst)
            if h is not None:
                return self.ask(st, h, args[0], dest, to, inst)
        if inst in self.skippers and to is not None and args[0][0] == 's' and args[0][2] is None:
            s = args[0]
            return self.prim(st, 'trivia', (('num', 0), s, s, s, ('num', inst)), dest, to)
        m = self.model_for(self, i, inst)
        if m is not None:
            self.modelled = i
            r = m(self, st, i, args, dest, to)
            if r is not NotImplemented:
                return r
        if to is None and i['crate'] in ('core', 'std', 'alloc') and st.fr[-1].prim is None:
            raise Panic(i['npath'].split('::')[-1])
        if 'body' in i:
            body = i['body']
            nf = Frame(inst, dest, to)
            if body.get('spread') is not None:
                raise Unknown('spread arguments')
            if len(args) != body['argc']:
                raise Unknown('arity of ' + i['npath'])
            for k, a in enumerate(args):
                nf.L[k + 1] = a
            if to is None:
                nf.to = None
            self.push(st, nf)
            return None
        raise Unknown('call of %s' % i['npath'])

    def value(self, st, v, dest, to):
        """A modelled call returns v to the calling frame."""
        c = st.fr[-1]
        if c.prim is not None:
            c.rv = v
            st.touch.clear()
            return None
        if to is None:
            raise Panic('diverging call')
        self.store(st, len(st.fr) - 1, dest, v)
        c.bb = to
        c.si = 0
        st.touch.clear()
        return None

    def prim(self, st, name, v, dest, to):
        f = Frame(None, dest, to, prim=name, v=v)
        st.fr.append(f)
        st.touch.clear()
        return None

    # ------------------------------------------------------------ grammar types
    def ask(self, st, name, arg, dest, to, inst):
        s = arg
        if s[0] != 's':
            raise Unknown('grammar type on a string that is not the input')
        if s[2] is not None:
            raise Unknown('grammar type on a bounded slice')
        r = st.lookup(name, s[1])
        if r is None:
            raise NeedNT(name, s[1], inst)
        rt = self.p.insts[inst]['body']['locals'][0]
        ok, err = self.p.variant_index(rt, 'Ok'), self.p.variant_index(rt, 'Err')
        if r[0] == 'ok':
            tt = self.p.types[rt]['vs'][ok]['f'][0][1]
            vt = self.p.types[tt]['ts'][1]
            if name.startswith('$'):
                val = ('s', s[1], r[1]) if self.p.nn(vt) == '&str' else LOST
            else:
                val = self.nt_value(name, vt, s[1])
            rest = r[1]
            v = ('adt', rt, ok, (('tup', (('s', rest, None), val)),))
        else:
            et = self.p.types[rt]['vs'][err]['f'][0][1]
            v = ('adt', rt, err, (('adt', et, self.p.variant_index(et, 'Error'), (OP,)),))
        return self.value(st, v, dest, to)

    def nt_value(self, name, ty, pos):
        t = self.p.types[ty]
        if t['k'] == 'adt' and len(t['vs']) == 1 and not t['vs'][0]['f']:
            return ('adt', ty, 0, ())
        return ('nt', name, pos)

    # ------------------------------------------------------------ canonical states
    def live_locals(self, st):
        """Per frame the locals that may still be used."""
        n = len(st.fr)
        live = []
        for d, f in enumerate(st.fr):
            if f.prim is not None:
                live.append(set())
                continue
            if d == n - 1:
                l = set(self.p.live_at(f.inst, f.bb, f.si))
            else:
                # waiting for a call: what is live at the return point
                g = st.fr[d + 1]
                l = set()
                if g.to is not None:
                    l = set(self.p.live_at(f.inst, g.to, 0))
                    if len(g.dest) == 1:
                        l.discard(g.dest[0])
                    else:
                        l.add(g.dest[0])
            live.append({x for x in l if x in f.L})
        work = [(d, l) for d in range(n) for l in live[d]]
        seen = set(work)
        # values held by primitive frames
        for d, f in enumerate(st.fr):
            if f.prim is not None:
                rs = set()
                for x in f.v:
                    if isinstance(x, tuple) and x:
                        refs_in(x, rs)
                if f.rv is not None:
                    refs_in(f.rv, rs)
                for r in rs:
                    if r not in seen:
                        seen.add(r)
                        work.append(r)
        while work:
            d, l = work.pop()
            v = st.fr[d].L.get(l)
            if v is None:
                continue
            rs = set()
            refs_in(v, rs)
            for r in rs:
                if r not in seen and r[0] < n:
                    seen.add(r)
                    work.append(r)
        for d, l in seen:
            if l in st.fr[d].L:
                live[d].add(l)
        return live

    def settle(self, st):
        """Drop dead locals; make values independent of characters about to be forgotten."""
        live = self.live_locals(st)

        def fix(v):
            pos = v[1]
            if pos in st.touch:
                return self.simp(st, v)
            v = self.simp(st, v)
            if v[0] == 'i' or isinstance(pos, tuple):
                return v
            if self.gone:
                c = st.cells[pos]
                for x in self.refine:
                    a, b = cs.inter(c[0], x), cs.diff(c[0], x)
                    if a and b:
                        raise NeedSplit(pos, [a, b])
                return ('ch', ('G', c[0]), v[2])
            vals = set()
            for p in v[2]:
                if p[2] != 0 and p[1] - p[0] > 3:
                    return LOST
                if p[2] != 0:
                    vals |= set(range(p[0] + p[3], p[1] + p[3] + 1))
                else:
                    vals.add(p[3])
            if len(vals) > 4:
                return LOST
            pre, rest = P.preimages(v[2], vals)
            raise NeedSplit(pos, [s for s in pre.values() if s])
        for d, f in enumerate(st.fr):
            if f.prim is not None:
                f.v = tuple(chars_in(x, fix) if isinstance(x, tuple) and x else x for x in f.v)
                if f.rv is not None:
                    f.rv = chars_in(f.rv, fix)
                continue
            f.L = {l: chars_in(f.L[l], fix) for l in live[d]}
            if self.widen:
                tys = self.p.insts[f.inst]['body']['locals']
                same = self.const_locals(f.inst)
                f.L = {l: v if l in same else self.as_distance(st, v, tys[l]) for l, v in f.L.items()}
        st.eq = {}
        if st.head is not None and st.head in st.cells:
            st.letter = st.cells[st.head]
        if self.lexical:
            hold = set(st.touch)
            if self.keep:
                for p, n in self.kept(st):
                    for _ in range(n):
                        c = st.cells.get(p)
                        if c is None:
                            break
                        hold.add(p)
                        if c == 'eof':
                            break
                        p = c[1]
            st.cells = {p: c for p, c in st.cells.items() if p in hold}
            if self.refine:
                for p, c in st.cells.items():
                    if c == 'eof' or p in self.fixed:
                        continue
                    for x in self.refine:
                        a, b = cs.inter(c[0], x), cs.diff(c[0], x)
                        if a and b:
                            raise NeedSplit(p, [a, b])

    def kept(self, st):
        """Positions from which on characters are to be remembered, and how many."""
        if isinstance(self.keep, int):
            return [(p, self.keep) for p in self.bases(st)]
        out = []
        for f in st.fr:
            if f.prim is None:
                for l, v in f.L.items():
                    n = self.keep.get((f.inst, l))
                    if n:
                        ps = set()
                        positions(v, ps)
                        out += [(p, n) for p in ps]
        return out

    def holders(self, st, r):
        """Locals from whose positions r is reached, and over how many characters."""
        ahead = {r: 1}
        while True:
            new = {p: ahead[c[1]] + 1 for p, c in st.cells.items() if c != 'eof' and c[1] in ahead and p not in ahead}
            if not new:
                break
            ahead.update(new)
        out = {}
        for f in st.fr:
            if f.prim is None:
                for l, v in f.L.items():
                    ps = set()
                    positions(v, ps)
                    n = max((ahead[p] for p in ps if p in ahead), default=0)
                    if n:
                        out[f.inst, l] = max(n, out.get((f.inst, l), 0))
        return out

    def bases(self, st):
        """Starts of the slices of the input that are held in locals."""
        out = set()
        for f in st.fr:
            for v in f.L.values():
                if v[0] == 'bs':
                    v = v[1]
                if v[0] == 's' and isinstance(v[1], int):
                    out.add(v[1])
        return out

    def const_locals(self, inst):
        """Locals that only ever hold one constant."""
        got = self.const_cache.get(inst)
        if got is None:
            vals, bad = {}, set()
            for b in self.p.insts[inst]['body']['blocks']:
                for x in b['s']:
                    if x[0] != '=':
                        continue
                    l, r = x[1][0], x[2]
                    if len(x[1]) == 1 and (r[0] == 'use' and r[1][0] == 'k' or r[0] == 'agg' and all(o[0] == 'k' for o in r[2])):
                        vals.setdefault(l, set()).add(repr(r))
                    else:
                        bad.add(l)
                    if r[0] in ('ref', 'raw', 'addr') and r[1] is not False:
                        bad |= {q[0] for q in r[1:] if isinstance(q, list)}
                if b['t'].get('k') == 'call' and b['t'].get('d'):
                    bad.add(b['t']['d'][0])
            got = {l for l, v in vals.items() if len(v) == 1 and l not in bad}
            self.const_cache[inst] = got
        return got

    def as_distance(self, st, v, ty, depth=0):
        """An equal value in which integers that were used as offsets are distances."""
        t = self.p.types[ty]
        if v[0] == 'offn':
            return st.eq.get(v, v)
        if self.widen == 'any':
            if v[0] == 'i' and v[1] > 6 and self.p.nn(ty) in ('usize', 'u64', 'isize', 'i64'):
                return ANY
        elif v[0] == 'i' and v[1] and self.p.nn(ty) == 'usize':
            hit = [(x[0], r) for x, r in st.eq.items() if len(x) == 2 and x[1] == v[1]]
            if not hit:
                hit = []
                for p in self.bases(st):
                    r = self.ahead(st, p, v[1])
                    if r is not None:
                        hit.append((p, r))
            if not hit:
                return v
            p, (r, k) = min(hit)
            return ('offk', p, r, k) if k else ('off', p, r)
        if depth > 3:
            return v
        if v[0] == 'adt' and v[1] == ty:
            fs = t['vs'][v[2]]['f']
            if len(fs) == len(v[3]):
                return v[:3] + (tuple(self.as_distance(st, x, f[1], depth + 1) for x, f in zip(v[3], fs)),)
        if v[0] == 'tup' and t['k'] == 'tuple' and len(t['ts']) == len(v[1]):
            return ('tup', tuple(self.as_distance(st, x, y, depth + 1) for x, y in zip(v[1], t['ts'])))
        return v

    def settle_live(self, st):
        """Drop dead locals."""
        live = self.live_locals(st)
        for d, f in enumerate(st.fr):
            if f.prim is None:
                f.L = {l: f.L[l] for l in live[d]}

    def live_positions(self, st, extra=()):
        out = set()
        for f in st.fr:
            if f.prim is not None:
                for x in f.v:
                    if isinstance(x, tuple) and x:
                        positions(x, out)
                if f.rv is not None:
                    positions(f.rv, out)
            else:
                for v in f.L.values():
                    positions(v, out)
        for x in extra:
            if isinstance(x, int):
                out.add(x)
        for p, c in st.cells.items():
            out.add(p)
            if c != 'eof':
                out.add(c[1])
        base = set(out)
        st.adj = {p: a for p, a in st.adj.items() if p in base}
        for p, a in st.adj.items():
            out.add(a[1])
        return out

    def canon(self, st, m):
        """Hashable form under the position renaming m."""
        fr = []
        for f in st.fr:
            if f.prim is not None:
                v = tuple(rename(x, m) if isinstance(x, tuple) and x else x for x in f.v)
                rv = rename(f.rv, m) if f.rv is not None else None
                fr.append((f.prim, v, rv, None if f.dest is None else str(f.dest), f.to))
            else:
                fr.append((f.inst, f.bb, f.si, tuple(sorted((l, rename(v, m)) for l, v in f.L.items())),
                           None if f.dest is None else str(f.dest), f.to))
        cells = tuple(sorted((m[p], c if c == 'eof' else (c[0], m[c[1]])) for p, c in st.cells.items()))
        adj = tuple(sorted((m[p], a[0], m[a[1]]) for p, a in st.adj.items() if a[1] in m))
        return (tuple(fr), cells, adj)

    def renamed(self, st, m):
        """A copy of st with positions renamed (all positions must be in m)."""
        s = st.copy()
        for f in s.fr:
            if f.prim is not None:
                f.v = tuple(rename(x, m) if isinstance(x, tuple) and x else x for x in f.v)
                if f.rv is not None:
                    f.rv = rename(f.rv, m)
            else:
                f.L = {l: rename(v, m) for l, v in f.L.items()}
        s.cells = {m[p]: (c if c == 'eof' else (c[0], m[c[1]])) for p, c in st.cells.items()}
        s.adj = {m[p]: (a[0], m[a[1]]) for p, a in st.adj.items() if a[1] in m}
        s.touch = {m[p] for p in st.touch if p in m}
        s.nid = max(m.values(), default=-1) + 1
        return s
