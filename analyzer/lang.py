"""Languages of marked texts, as lazily determinised automata.

A letter is a class of characters (an index into a common partition) or '$', the end
of the text, together with a set of marks (a bit mask) that stand in front of it.
A language object has  init(), next(q, a, m) -> state or None (dead), acc(q, m) -> bool
where acc reads the final '$' letter with marks m.
"""
import charset as cs


# ---------------------------------------------------------------- regular expressions
def seq(*xs):
    return ('seq', xs)


def alt(*xs):
    return ('alt', xs)


def star(x):
    return ('star', x)


def plus(x):
    return ('seq', (x, ('star', x)))


def opt(x):
    return ('alt', (x, ('seq', ())))


def ch(s):
    return ('set', s)


def lit(s):
    return ('seq', tuple(('set', cs.single(c)) for c in s))


def mark(bit):
    return ('mark', bit)


ANY = ('set', cs.FULL)
END = ('end',)          # only at the end of the text; consumes nothing


def sets_of(r, out):
    k = r[0]
    if k == 'set':
        out.add(r[1])
    elif k in ('seq', 'alt'):
        for x in r[1]:
            sets_of(x, out)
    elif k == 'star':
        sets_of(r[1], out)


class NFA:
    """Thompson automaton; a path reads letters and sets marks in between."""

    def __init__(self, regex, parts):
        self.parts = parts
        self.eps = []
        self.mk = []
        self.tr = []
        self.endok = []
        self.cls = {}
        a, b = self.build(regex)
        self.start, self.final = a, b
        self._next = {}

    def node(self):
        self.eps.append([])
        self.mk.append([])
        self.tr.append([])
        self.endok.append([])
        return len(self.eps) - 1

    def classes(self, s):
        r = self.cls.get(s)
        if r is None:
            r = frozenset(i for i, p in enumerate(self.parts) if not cs.diff(p, s))
            self.cls[s] = r
        return r

    def build(self, r):
        k = r[0]
        a, b = self.node(), self.node()
        if k == 'set':
            self.tr[a].append((self.classes(r[1]), b))
        elif k == 'seq':
            cur = a
            for x in r[1]:
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            self.eps[cur].append(b)
        elif k == 'alt':
            for x in r[1]:
                s, e = self.build(x)
                self.eps[a].append(s)
                self.eps[e].append(b)
        elif k == 'star':
            s, e = self.build(r[1])
            self.eps[a] += [s, b]
            self.eps[e] += [s, b]
        elif k == 'mark':
            self.mk[a].append((r[1], b))
        elif k == 'end':
            self.endok[a].append(b)
        return a, b

    def close(self, items, atend=False):
        """items: (node, marks set since the last letter)."""
        seen = set(items)
        work = list(items)
        while work:
            q, m = work.pop()
            nx = [(e, m) for e in self.eps[q]]
            nx += [(e, m | b) for b, e in self.mk[q] if not m & b]
            if atend:
                nx += [(e, m) for e in self.endok[q]]
            for x in nx:
                if x not in seen:
                    seen.add(x)
                    work.append(x)
        return seen

    def init(self):
        return frozenset([self.start])

    def next(self, q, a, m):
        key = (q, a, m)
        r = self._next.get(key, 0)
        if r == 0:
            out = set()
            for s, mm in self.close([(x, 0) for x in q]):
                if mm == m:
                    for c, e in self.tr[s]:
                        if a in c:
                            out.add(e)
            r = frozenset(out) or None
            self._next[key] = r
        return r

    def acc(self, q, m):
        return any(s == self.final and mm == m for s, mm in self.close([(x, 0) for x in q], True))


class And:
    def __init__(self, *ls):
        self.ls = ls

    def init(self):
        q = tuple(l.init() for l in self.ls)
        return None if None in q else q

    def next(self, q, a, m):
        out = []
        for l, x in zip(self.ls, q):
            y = l.next(x, a, m)
            if y is None:
                return None
            out.append(y)
        return tuple(out)

    def acc(self, q, m):
        return all(l.acc(x, m) for l, x in zip(self.ls, q))


class Or:
    def __init__(self, *ls):
        self.ls = ls

    def init(self):
        return tuple(l.init() for l in self.ls)

    def next(self, q, a, m):
        out = tuple(None if x is None else l.next(x, a, m) for l, x in zip(self.ls, q))
        return None if all(x is None for x in out) else out

    def acc(self, q, m):
        return any(x is not None and l.acc(x, m) for l, x in zip(self.ls, q))


class Not:
    """Complement (over all marked words)."""

    def __init__(self, l):
        self.l = l

    def init(self):
        return (self.l.init(),)

    def next(self, q, a, m):
        return (None if q[0] is None else self.l.next(q[0], a, m),)

    def acc(self, q, m):
        return q[0] is None or not self.l.acc(q[0], m)


class Only:
    """Ignore marks other than the given ones: l read with marks & keep."""

    def __init__(self, l, keep):
        self.l = l
        self.keep = keep

    def init(self):
        return self.l.init()

    def next(self, q, a, m):
        return self.l.next(q, a, m & self.keep)

    def acc(self, q, m):
        return self.l.acc(q, m & self.keep)


class Project:
    """Forget marks: there is a way to place the given bits."""

    def __init__(self, l, bits, limit=200000):
        self.l = l
        self.bits = bits
        self.subs = []
        n = 0
        while True:
            self.subs.append(n)
            n = (n - bits) & bits
            if n == 0:
                break
        self._next = {}

    def init(self):
        q = self.l.init()
        return None if q is None else frozenset([q])

    def next(self, q, a, m):
        key = (q, a, m)
        r = self._next.get(key, 0)
        if r == 0:
            out = set()
            for x in q:
                for s in self.subs:
                    y = self.l.next(x, a, m | s)
                    if y is not None:
                        out.add(y)
            r = frozenset(out) or None
            self._next[key] = r
        return r

    def acc(self, q, m):
        return any(self.l.acc(x, m | s) for x in q for s in self.subs)


class Empty:
    def init(self):
        return None

    def next(self, q, a, m):
        return None

    def acc(self, q, m):
        return False


class Table:
    """An explicit automaton with integer states."""

    def __init__(self, trans, accs):
        self.trans = trans
        self.accs = accs

    def init(self):
        return 0 if self.trans else None

    def next(self, q, a, m):
        return self.trans[q].get((a, m))

    def acc(self, q, m):
        return m in self.accs[q]


def tabulate(l, nclasses, masks, once=True, limit=20000):
    """Explicit form over words in which each mark occurs at most once; trims dead states."""
    init = l.init()
    if init is None:
        return Table([], [])
    init = (init, 0)
    ids = {init: 0}
    order = [init]
    trans = []
    accs = []
    i = 0
    while i < len(order):
        q, used = order[i]
        t = {}
        for a in range(nclasses):
            for m in masks:
                if used & m:
                    continue
                y = l.next(q, a, m)
                if y is not None:
                    y = (y, used | m)
                    k = ids.get(y)
                    if k is None:
                        k = ids[y] = len(order)
                        order.append(y)
                        if k > limit:
                            raise MemoryError('automaton too large')
                    t[(a, m)] = k
        trans.append(t)
        accs.append({m for m in masks if not m & used and l.acc(q, m)})
        i += 1
    # trim states that cannot accept
    n = len(order)
    good = {k for k in range(n) if accs[k]}
    pred = {}
    for k, t in enumerate(trans):
        for y in t.values():
            pred.setdefault(y, []).append(k)
    work = list(good)
    while work:
        k = work.pop()
        for p in pred.get(k, ()):
            if p not in good:
                good.add(p)
                work.append(p)
    if 0 not in good:
        return Table([], [])
    trans = [{l_: y for l_, y in t.items() if y in good} if k in good else {} for k, t in enumerate(trans)]
    return minimise(trans, accs)


def minimise(trans, accs):
    n = len(trans)
    part = {}
    cls = []
    for k in range(n):
        key = frozenset(accs[k])
        cls.append(part.setdefault(key, len(part)))
    while True:
        part = {}
        new = []
        for k in range(n):
            key = (cls[k], frozenset((l, cls[y]) for l, y in trans[k].items()))
            new.append(part.setdefault(key, len(part)))
        if len(part) == len(set(cls)):
            cls = new
            break
        cls = new
    # renumber in BFS order from the start
    order = [cls[0]]
    rep = {}
    for k in range(n):
        rep.setdefault(cls[k], k)
    ids = {cls[0]: 0}
    out_t, out_a = [], []
    i = 0
    while i < len(order):
        k = rep[order[i]]
        t = {}
        for l, y in sorted(trans[k].items()):
            c = cls[y]
            if c not in ids:
                ids[c] = len(order)
                order.append(c)
            t[l] = ids[c]
        out_t.append(t)
        out_a.append(set(accs[k]))
        i += 1
    return Table(out_t, out_a)


def difference(x, y, nclasses, bit, limit=400000):
    """A shortest marked word on which the two languages differ, or None.

    bit: the single mark (0 for unmarked languages); it occurs exactly once.
    Result: (list of (class, mark)), mark at '$' flag, side that accepts).
    """
    start = (x.init(), y.init(), bit == 0)
    prev = {start: None}
    work = [start]
    i = 0
    pairs = 0
    while i < len(work):
        cur = work[i]
        i += 1
        p, q, used = cur
        if p is None and q is None:
            continue
        fin = 0 if used else bit
        ax = p is not None and x.acc(p, fin)
        ay = q is not None and y.acc(q, fin)
        if ax != ay:
            word = []
            k = cur
            while prev[k] is not None:
                k, l = prev[k]
                word.append(l)
            word.reverse()
            return word, (not used), ('first' if ax else 'second'), len(work)
        for a in range(nclasses):
            for m in ((0,) if used else (0, bit)):
                np = x.next(p, a, m) if p is not None else None
                nq = y.next(q, a, m) if q is not None else None
                if np is None and nq is None:
                    continue
                n = (np, nq, used or m != 0)
                if n not in prev:
                    prev[n] = (cur, (a, m))
                    work.append(n)
                    if len(work) > limit:
                        raise MemoryError('product too large')
    return None, False, None, len(work)


def witness(l, nclasses, bit=0, limit=400000):
    w, e, side, n = difference(l, Empty(), nclasses, bit, limit)
    return (w, e, n)
