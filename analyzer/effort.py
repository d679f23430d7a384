"""Repeated work: which nested constructs are parsed again from the same place of the text.

Every grammar type that can contain itself is run alone on an unknown text, as in compose: the
outcomes of the types it asks for are taken in every possible way.  Each question is noted
with the place it is asked at, written as the sequence of constructs consumed since the start.
If on one run two questions lead (directly, or through the questions their own parsers ask) to
the same nested construct at the same place, that construct is parsed twice there; as it can
contain the same situation again, the work doubles with every level of nesting.
"""
import time

import compose
import interp
import limits
import spec
from compose import FactState, Product, Restart, first_chars

CAP = 5                 # constructs in a place
DEEP = 5                # constructs in a place reached through other parsers


class Noted(FactState):
    __slots__ = ('log', 'where', 'nest')

    @staticmethod
    def wrap(s, prod, alias, log, where):
        f = Noted.__new__(Noted)
        for a in interp.St.__slots__:
            setattr(f, a, getattr(s, a))
        f.prod, f.alias, f.log, f.where = prod, alias, log, where
        return f

    def copy(self):
        return Noted.wrap(interp.St.copy(self), self.prod, self.alias, self.log, self.where)

    def lookup(self, name, p):
        r = self.prod.answer(self.facts, self.cells, self.alias, name, p)
        if r is not None and name in self.prod.nest:
            w = self.where.get(self.alias.get(p, p))
            if w is not None:
                n = 2 if (w, name, 1) in self.log else 1
                self.log = self.log | {(w, name, n)}
        return r


def empty(b, e):
    return ('any',), ()


class Alone(Product):
    def __init__(self, prog, root, inst, nest, inline=(), helper=None, max_states=6000):
        Product.__init__(self, prog, root, inst, ('eof',), inline, helper, max_states)
        self.nest = nest

    def explore(self, V):
        st = self.I.start(self.inst, [('s', 0, None)])
        st.nid = 1
        seen = set()
        work = []
        self.logs = set()
        self.open = set()
        self.V = V
        END = ('err', 'Error')

        def run(st, facts, alias, nid, log):
            s = st.copy()
            s.facts = dict(facts)
            s.nid = nid
            where = {p: n for (n, p), r in facts.items() if n[0] == '@'}
            for kind, data, s in self.I.run(Noted.wrap(s, self, alias, log, where)):
                if kind == 'ret' or kind in ('panic', 'loop'):
                    self.logs.add(s.log)
                    continue
                if kind == 'inline':
                    raise Restart(data)
                if kind == 'unknown':
                    self.logs.add(s.log)
                    self.undecided(V, data)
                    continue
                cq = data if kind == 'nt' else ('$eof', data)
                if cq[0][0] != '$':
                    self.q_code.add(cq[0])
                lg = s.log
                t = interp.St.copy(s)
                for f in t.fr:
                    if f.prim is not None:
                        f.v = tuple(compose.map_vecs(x, empty) if isinstance(x, tuple) and x else x for x in f.v)
                        if f.rv is not None:
                            f.rv = compose.map_vecs(f.rv, empty)
                    else:
                        f.L = {l: compose.map_vecs(v, empty) for l, v in f.L.items()}
                key, ps = self.canonical((t, None, None, END, facts, alias, max(s.nid, nid), cq, None))
                key = (key, lg)
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > self.max_states:
                    raise MemoryError('more than %d states' % self.max_states)
                work.append((ps, lg))
        run(st, {(('@',), 0): ('fail',)}, {'start': 0}, 1, frozenset())
        while work:
            ps, log = work.pop()
            st, facts, alias = ps[0], ps[4], ps[5]
            nid = ps[6]
            for nps, event in self.fork(ps):
                st2, f2, al2, nid2 = nps[0], nps[4], nps[5], nps[6]
                if event[1] not in ('fail', 'eof') and event[0][0][0] != '$':
                    name, p0 = event[0]
                    for (n, p), r in list(f2.items()):
                        if n[0] == '@' and p == p0 and len(n) <= CAP:
                            f2[(n + (name,), event[1])] = ('fail',)
                run(st2, f2, al2, nid2, log)
        V.states += len(seen)


def check(prog, root, inst, nest, helper=None, limit=30.0):
    t0 = time.time()
    V = compose.Verdict(root)
    V.logs = set()
    V.complete = False
    inline = set()
    for rnd in range(6):
        P = Alone(prog, root, inst, nest - inline, inline, helper)
        V.undecided = []
        V.asks = set()
        try:
            with limits.limit(limit):
                P.explore(V)
            V.complete = not V.undecided
        except Restart as r:
            if r.name in inline or r.name not in spec.NAMES or r.name in spec.TOKENS:
                V.undecided.append('value of %s inspected' % r.name)
                break
            inline.add(r.name)
            continue
        except (MemoryError, limits.Timeout) as e:
            V.undecided.append(str(e) or 'time')
        break
    V.logs = maximal(getattr(P, 'logs', set()))
    V.functions = set(P.I.visited)
    V.wall = time.time() - t0
    return V


def maximal(logs):
    out = []
    for l in sorted(logs, key=lambda l: -len(l)):
        if not any(l <= m for m in out):
            out.append(l)
    return out


def nesting():
    """Grammar types that can contain themselves, from the reference grammar."""
    def uses(e, out):
        if isinstance(e, tuple):
            if len(e) == 2 and e[0] == 'nt':
                out.add(e[1])
            for x in e:
                uses(x, out)
    g = {}
    for n in spec.COMPOSITE:
        s = set()
        uses(spec.expr_of(n), s)
        g[n] = {x for x in s if x in spec.COMPOSITE}
    out = set()
    for n in g:
        seen, work = set(), list(g[n])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += g[x]
        if n in seen:
            out.add(n)
    return out


class Count:
    """How often a nested construct is parsed at one place while a type is parsed, at most."""

    def __init__(self, verdicts):
        self.runs = {}
        for n, v in verdicts.items():
            self.runs[n] = [[(w[1:], c, k) for w, c, k in l if k == 2 or (w, c, 2) not in l] for l in v.logs]
        self.memo = {}

    def of(self, n, room):
        """{(place, construct): times}, for places of at most `room` constructs"""
        r = self.memo.get((n, room))
        if r is None:
            self.memo[(n, room)] = {}    # a type that asks for itself at its own start is left recursion (C03)
            r = {}
            for run in self.runs.get(n, ()):
                for k, t in self.sum(run, room).items():
                    if t > r.get(k, 0):
                        r[k] = t
            self.memo[(n, room)] = r
        return r

    def sum(self, run, room):
        t = {}
        for w, c, k in run:
            if len(w) > room:
                continue
            t[(w, c)] = t.get((w, c), 0) + k
            for (w2, c2), m in self.of(c, room - len(w)).items():
                t[(w + w2, c2)] = t.get((w + w2, c2), 0) + m * k
        return t


def repeated(verdicts):
    """[(type, construct, times, place)]: the type itself, not one it asks for, causes the repetition."""
    C = Count(verdicts)
    out = {}
    for n in sorted(verdicts):
        for run in C.runs[n]:
            total = C.sum(run, DEEP)
            own = {}
            for (w, y), t in total.items():
                if t < 2:
                    continue
                # the most that a single question accounts for
                most = 0
                for w1, c, k in run:
                    if (w1, c) == (w, y):
                        most = max(most, 1)
                    elif w[:len(w1)] == w1:
                        most = max(most, C.of(c, DEEP - len(w1)).get((w[len(w1):], y), 0))
                if t > most:
                    own[(w, y)] = t
            for (w, y), t in own.items():
                # explained by something around it that is repeated: no news
                if any((w1, y1) != (w, y) and w[:len(w1)] == w1 and t1 * C.of(y1, DEEP - len(w1)).get((w[len(w1):], y), 0) >= t
                       for (w1, y1), t1 in own.items()):
                    continue
                k = (n, y)
                if k not in out or (-t, len(w), w) < (-out[k][0], len(out[k][1]), out[k][1]):
                    out[k] = (t, w)
    return [(n, y, t, w) for (n, y), (t, w) in sorted(out.items())]
