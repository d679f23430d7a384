"""Extraction of the exact behaviour of a lexical parser from its MIR.

The abstract interpreter gives a graph of suspended configurations: each waits for
the character at its head and remembers some earlier positions.  Going back to an
earlier position (a failed alternative, a repetition that gives up) is an event of
the run that started there, so that the whole behaviour is an alternating automaton:
`run from here reaches the event` AND `the resumed run, from the same place, ...`.
Determinised, it gives for every kind of result the exact set of texts (with the
reported position marked) that produce it.
"""
import charset as cs
import interp
from interp import Interp, Unknown

CHK = ('chk',)       # the mark stands in front of the next letter
CHKE = ('chke',)     # the mark stands at the end of the text
SKIPPERS = set()     # functions whose exact behaviour is known to be that of the trivia reference
TRUE = frozenset([frozenset()])
FALSE = frozenset()


def reduce_dnf(clauses):
    cl = sorted(set(clauses), key=len)
    out = []
    for c in cl:
        if not any(d <= c for d in out):
            out.append(c)
    return frozenset(out)


def conj(a, b):
    if not a or not b:
        return FALSE
    return reduce_dnf([x | y for x in a for y in b])


def disj(xs):
    cl = set()
    for x in xs:
        cl |= x
    if frozenset() in cl:
        return TRUE
    return reduce_dnf(cl)


class TooLarge(Exception):
    pass


class Lex:
    """Configuration graph of one function &str -> IResult<&str, T>."""

    def __init__(self, prog, inst, shape, max_nodes=6000, seen=None, widen=False, keep=0, gone=False):
        refine = []
        for _ in range(24):
            try:
                self.build(prog, inst, shape, max_nodes, seen, widen, keep, refine, gone)
                return
            except interp.LateSplit as e:
                for x in e.sets:
                    if x not in refine:
                        refine.append(x)
        raise TooLarge('characters are told apart too late')

    def build(self, prog, inst, shape, max_nodes, seen, widen, keep, refine, gone=False):
        self.p = prog
        self.inst = inst
        self.shape_of = shape
        self.I = Interp(prog, lexical=True)
        self.I.widen = widen
        self.I.keep = keep
        self.I.refine = refine
        self.I.gone = gone
        self.I.skippers = SKIPPERS - {inst}
        if seen is not None:
            self.I.visited = seen
        self.wanted = {}
        self.nodes = []
        self.key = {}
        self.outs = []
        self.max_nodes = max_nodes
        self.notes = {'panic': [], 'unknown': [], 'loop': []}
        st = self.I.start(inst, [('s', 0, None)])
        st.nid = 1
        self.initial = []
        for kind, data, s in self.I.run(st):
            self.initial.append(self.outcome(kind, data, s, {}, None, None))
        i = 0
        while i < len(self.nodes):
            self.outs.append(self.expand(i))
            i += 1
            if i > max_nodes:
                raise TooLarge('more than %d configurations' % max_nodes)
        self.events()

    def charsets(self):
        out = set()
        for o in self.outs:
            for a, _ in o:
                if a != '$':
                    out.add(a)
        return out

    # -------------------------------------------------------- nodes
    def node_of(self, st, r):
        """Canonical node for a state suspended at reading r, and its positions."""
        # what is known about literals further on is not needed to re-read the text
        st.adj = {p: a for p, a in st.adj.items() if a[1] <= r}
        ps = self.I.live_positions(st, (r,))
        order = sorted(ps)
        if order[-1] != r:
            for k, d in st.hold.items():
                self.wanted[k] = max(d, self.wanted.get(k, 0))
            raise Unknown('a later position is still needed when the text is re-read')
        m = {p: i for i, p in enumerate(order)}
        key = (self.I.canon(st, m), len(order))
        n = self.key.get(key)
        if n is None:
            n = len(self.nodes)
            self.key[key] = n
            s = self.I.renamed(st, m)
            s.head = m[r]
            s.front = m[r]
            self.nodes.append((s, len(order) - 1))
        return n, tuple(order[:-1])

    def expand(self, n):
        st, r = self.nodes[n]
        out = []
        self.I.fixed = {p for p in st.cells if p != r}
        # the end of the text
        s = st.copy()
        s.head = r
        s.cells[r] = 'eof'
        for kind, data, s2 in self.I.run(s):
            out.append(('$', self.outcome(kind, data, s2, {i: i for i in range(r)}, r, None)))
        # a character
        s = st.copy()
        s.head = r
        s.letter = None
        nx = r + 1
        s.nid = nx + 1
        s.cells[r] = (cs.FULL, nx)
        s.front = nx
        for kind, data, s2 in self.I.run(s):
            c = s2.cells.get(r) or s2.letter
            out.append((c[0], self.outcome(kind, data, s2, {i: i for i in range(r)}, r, nx)))
        return self.single(out)

    def single(self, out):
        """A configuration has one outcome per character; where it seems to have two, nothing is known."""
        bad = set()
        for x in range(len(out)):
            for y in range(x):
                (a, o), (b, u) = out[x], out[y]
                if o != u and (a == b == '$' or a != '$' and b != '$' and cs.inter(a, b)):
                    bad |= {x, y}
        if bad:
            n = self.note('unknown', 'two outcomes on one character')
            out = [(a, n if k in bad else o) for k, (a, o) in enumerate(out)]
        return out

    def label(self, p, r, nx):
        if p == r:
            return 'h'
        if p == nx:
            return 'n'
        if p == 'E' or p is None:
            return 'E'
        return p

    def outcome(self, kind, data, st, olds, r, nx):
        if kind == 'read':
            q = data
            try:
                n, order = self.node_of(st, q)
            except Unknown as e:
                return self.note('unknown', str(e))
            if r is None:
                return ('adv', n, ())
            m = tuple(self.label(p, r, nx) for p in order)
            if q == nx:
                return ('adv', n, m)
            return ('res', q, n, m)
        if kind == 'ret':
            try:
                v = self.result(st, st.ret)
            except Unknown as e:
                return self.note('unknown', str(e))
            if v[0] == 'ok':
                return ('ok', v[1], tuple(self.label(p, r, nx) for p in v[2]))
            return v
        if kind == 'inline':
            return self.note('unknown', 'grammar type inside a token')
        if kind == 'nt':
            return self.note('unknown', 'grammar type inside a token')
        return self.note(kind, data or 'no progress')

    def note(self, kind, msg):
        if msg not in self.notes[kind]:
            self.notes[kind].append(msg)
        return (kind,)

    def result(self, st, v):
        """Classify the returned value."""
        if v[0] != 'adt':
            raise Unknown('result ' + v[0])
        t = self.p.types[v[1]]
        vn = t['vs'][v[2]]['n']
        if vn == 'Err':
            e = v[3][0]
            if e[0] != 'adt':
                raise Unknown('error value')
            return ('err', self.I.error_class(e, st))
        if vn != 'Ok':
            raise Unknown('result variant')
        tup = v[3][0]
        if tup[0] != 'tup' or len(tup[1]) != 2:
            raise Unknown('result tuple')
        rest, val = tup[1]
        rest = self.I.rest_of(rest)
        if rest[0] != 's':
            raise Unknown('rest is not the input')
        pos = [rest[1]]
        if rest[2] is not None:
            # a bounded rest: only fine if it ends at the end of the text
            if not self.I.pos_eq(st, rest[2], 'E'):
                raise Unknown('rest does not reach the end of the input')
        shape = self.shape_of(self.I, st, val, pos)
        return ('ok', shape, tuple(pos))

    # -------------------------------------------------------- resume events
    def events(self):
        n = len(self.nodes)
        ev = [set() for _ in range(n)]
        changed = True
        preds = {}
        for k in range(n):
            for _, o in self.outs[k]:
                if o[0] == 'res':
                    ev[k].add((o[1], o[2], o[3]))
        rounds = 0
        dirty = True
        while dirty:
            dirty = False
            rounds += 1
            for k in range(n - 1, -1, -1):
                s = ev[k]
                size = len(s)
                for _, o in self.outs[k]:
                    if o[0] != 'adv':
                        continue
                    _, n2, m = o
                    for (i, n3, m3) in list(ev[n2]):
                        if m[i] == 'h':
                            back = tuple(m[x] for x in m3)
                            for (i4, n4, m4) in list(ev[n3]):
                                s.add((back[i4], n4, tuple(back[x] for x in m4)))
                        else:
                            s.add((m[i], n3, tuple(m[x] for x in m3)))
                if len(s) != size:
                    dirty = True
        self.ev = ev
        self.rounds = rounds

    # -------------------------------------------------------- outcomes present
    def results(self):
        """All result kinds that occur in the graph."""
        out = set()
        for o in self.initial:
            self._res(o, out)
        for os in self.outs:
            for _, o in os:
                self._res(o, out)
        return out

    def _res(self, o, out):
        if o[0] == 'ok':
            out.add(('ok', o[1], len(o[2])))
        elif o[0] == 'err':
            out.add(o)
        elif o[0] in ('panic', 'unknown', 'loop'):
            out.add((o[0],))


class Outcome:
    """Language of the texts (with one position marked) that lead to a result.

    target: ('ok', shape, component) | ('err', class) | ('panic',) | ('unknown',) | ('loop',)
    """

    def __init__(self, lex, parts, target, bit=1):
        self.x = lex
        self.parts = parts
        self.target = target
        self.bit = bit
        self.table = []
        for os in lex.outs:
            row = {}
            for a, o in os:
                if a == '$':
                    row.setdefault('$', o)
                else:
                    for k, p in enumerate(parts):
                        if not cs.diff(p, a):
                            row[k] = o
            self.table.append(row)
        self.memo = {}
        self.active = set()
        self.hits = set()
        self._next = {}

    # formulas
    def tr(self, tgt, inv):
        """Translate a target into another node's labels."""
        if tgt[0] == 'okold':
            j = inv.get(tgt[3])
            return None if j is None else ('okold', tgt[1], tgt[2], j)
        if tgt[0] == 'res':
            j = inv.get(tgt[1])
            if j is None:
                return None
            m = tuple(inv.get(x) for x in tgt[3])
            if None in m:
                return None
            return ('res', j, tgt[2], m)
        return tgt

    def delta(self, atom, a, m):
        if atom == CHK:
            return TRUE if m else FALSE
        if atom == CHKE:
            if a == '$':
                return TRUE if m else FALSE
            return FALSE if m else frozenset([frozenset([CHKE])])
        return self.D(atom[0], atom[1], a, m)

    def D(self, n, tgt, a, m):
        key = (n, tgt, a, m)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active:
            # a run that comes back here without progress never ends
            self.hits.add(key)
            return FALSE
        self.active.add(key)
        o = self.table[n].get(a)
        r = FALSE if o is None else self.D2(o, n, tgt, a, m)
        self.active.discard(key)
        self.hits.discard(key)
        if not self.hits:
            self.memo[key] = r
        return r

    def D2(self, o, n, tgt, a, m):
        k = o[0]
        if k == 'ok':
            if tgt[0] == 'ok' and tgt[1] == o[1]:
                w = o[2][tgt[2]]
                if w == 'n':
                    return frozenset([frozenset([CHK])])
                if w == 'h' or (w == 'E' and a == '$'):
                    return TRUE if m else FALSE
                if w == 'E':
                    return FALSE if m else frozenset([frozenset([CHKE])])
                return FALSE
            if tgt[0] == 'okold' and tgt[1] == o[1] and o[2][tgt[2]] == tgt[3]:
                return TRUE
            return FALSE
        if k == 'err':
            return TRUE if tgt == o else FALSE
        if k in ('panic', 'unknown', 'loop'):
            return TRUE if tgt == (k,) else FALSE
        if k == 'res':
            return TRUE if tgt == o else FALSE
        # advance
        _, n2, mp = o
        inv = {x: j for j, x in enumerate(mp)}
        alts = []
        t2 = self.tr(tgt, inv)
        if t2 is not None:
            alts.append(frozenset([frozenset([(n2, t2)])]))
        j = inv.get('h')
        if j is not None:
            if tgt[0] == 'ok' and m:
                alts.append(frozenset([frozenset([(n2, ('okold', tgt[1], tgt[2], j))])]))
            for (i, n3, m3) in self.x.ev[n2]:
                if i != j:
                    continue
                back = {mp[x]: y for y, x in enumerate(m3)}
                t3 = self.tr(tgt, back)
                if t3 is None:
                    continue
                rest = self.D(n3, t3, a, m)
                if rest:
                    alts.append(conj(frozenset([frozenset([(n2, ('res', i, n3, m3))])]), rest))
        return disj(alts)

    # language interface
    def init(self):
        alts = []
        for o in self.x.initial:
            if o[0] == 'adv':
                alts.append(frozenset([frozenset([(o[1], self.target)])]))
            elif o[0] == 'ok' and self.target[0] == 'ok' and o[1] == self.target[1]:
                alts.append(frozenset([frozenset([CHK])]) if o[2][self.target[2]] == 0 else
                            (frozenset([frozenset([CHKE])]) if o[2][self.target[2]] == 'E' else FALSE))
            elif o == self.target:
                alts.append(TRUE)
        return disj(alts) or None

    def next(self, q, a, m):
        key = (q, a, m)
        r = self._next.get(key, 0)
        if r == 0:
            r = self.step(q, a, 1 if m & self.bit else 0) or None
            self._next[key] = r
        return r

    def step(self, q, a, m):
        alts = []
        for cl in q:
            cur = TRUE
            for at in cl:
                cur = conj(cur, self.delta(at, a, m))
                if not cur:
                    break
            if cur:
                alts.append(cur)
                if cur == TRUE:
                    return TRUE
        return disj(alts)

    def acc(self, q, m):
        return self.step(q, '$', 1 if m & self.bit else 0) == TRUE
