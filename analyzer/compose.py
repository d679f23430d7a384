"""Compares a composite parser (structure over other grammar types) with the reference, for all inputs.

Both sides are run as machines that ask for the outcome of other grammar types at
positions of an unknown text.  Every possible pattern of answers is explored; states
are put into a canonical form (dead positions forgotten, equal list prefixes folded), so
that lists of any length are covered by finitely many states.  Where both machines have
returned, the results must be the same tree with the same end.
"""
import random
import re
import time
import charset as cs
import interp
import limits
import point
import refparse
import spec
from interp import Interp, Unknown, positions, rename

SPACE = cs.union(spec.WS, cs.of('/'))


# ------------------------------------------------------------------ reference machine
# config: ('e', expr, pos, stack) | ('v', value, pos, stack) | ('x', stack); stack = (frame, rest) or None
class Ref:
    def __init__(self, oracle):
        self.oracle = oracle

    def start(self, expr, pos):
        return ('e', expr, pos, None)

    def run(self, c, answer):
        """answer(name, pos) -> ('ok', p) | ('fail',) | None.  Returns ('q', name, pos, c) or ('r', outcome)."""
        steps = 0
        while True:
            steps += 1
            if steps > 20000:
                return ('u', 'reference machine does not stop')
            if c[0] == 'e':
                _, e, p, st = c
                k = e[0]
                if k == 'nt':
                    if self.oracle(e[1]):
                        a = answer(e[1], p)
                        if a is None:
                            return ('q', e[1], p, c)
                        if a[0] == 'ok':
                            v = ('unit', e[1]) if (e[1] in spec.PUNCT or e[1] in spec.KEYWORDS) else ('nt', e[1], p)
                            c = ('v', v, a[1], st)
                        else:
                            c = ('x', st)
                    else:
                        if depth(st) > 300:
                            return ('u', 'reference nesting')
                        c = ('e', spec.expr_of(e[1]), p, st)
                elif k == 'opt':
                    c = ('e', e[1], p, (('opt', p), st))
                elif k == 'box':
                    c = ('e', e[1], p, (('box',), st))
                elif k == 'vec':
                    c = ('e', e[1], p, (('vec', e[1], None, (), p), st))
                elif k == 'tup':
                    c = ('e', e[1][0], p, (('tup', e[1], ()), st))
                elif k == 'br':
                    fs = ((e[2][0], spec.nt(e[2][1])), ('body', e[3]), (e[4][0], spec.nt(e[4][1])))
                    c = ('e', ('struct', e[1], fs), p, st)
                elif k == 'struct':
                    c = ('e', e[2][0][1], p, (('st', e[1], e[2], ()), st))
                elif k == 'choice':
                    c = ('e', e[2][0][1], p, (('ch', e[1], e[2], 0, p), st))
                elif k == 'bool':
                    c = ('e', spec.nt(e[1]), p, (('bool', e[2], 1, p), st))
                elif k == 'sep':
                    c = ('e', e[2], p, (('sep', e, None, (), p, 'first'), st))
                elif k == 'document':
                    c = ('e', e[1], p, (('doc',), st))
                elif k == 'sp':
                    a = answer('$sp', p)
                    if a is None:
                        return ('q', '$sp', p, c)
                    c = ('e', ('eof',), a[1], st)
                elif k == 'eof':
                    a = answer('$eof', p)
                    if a is None:
                        return ('q', '$eof', p, c)
                    if a[0] != 'ok':
                        return ('r', ('ok', p, ('const', (REJECTED, 'Eof'))))
                    c = ('v', ('unit', ''), p, st)
                continue
            if c[0] == 'x':
                st = c[1]
                if st is None:
                    return ('r', ('err', 'Error'))
                f, st = st
                k = f[0]
                if k == 'opt':
                    c = ('v', ('none',), f[1], st)
                elif k == 'vec':
                    c = ('v', ('vec', f[2], f[3]), f[4], st)
                elif k == 'ch':
                    i = f[3] + 1
                    if i < len(f[2]):
                        c = ('e', f[2][i][1], f[4], (('ch', f[1], f[2], i, f[4]), st))
                    else:
                        c = ('x', st)
                elif k == 'bool':
                    if f[2]:
                        c = ('e', spec.nt(f[1]), f[3], (('bool', f[1], 0, f[3]), st))
                    else:
                        c = ('x', st)
                elif k == 'sep':
                    _, e, base, elts, p, ph = f
                    if ph == 'first':
                        if e[1] == 'PunctuatedNonEmpty':
                            c = ('x', st)
                        else:
                            c = ('v', self.sep_value(e, base, elts), p, st)
                    elif ph == 'trail' or e[1] == 'Punctuated':
                        c = ('v', self.sep_value(e, base, elts), p, st)
                    else:
                        c = ('e', e[3], p, (('sep', e, base, elts, p, 'trail'), st))
                else:
                    c = ('x', st)
                continue
            _, v, p, st = c
            if st is None:
                return ('r', ('ok', p, v))
            f, st = st
            k = f[0]
            if k == 'opt':
                c = ('v', ('some', v), p, st)
            elif k == 'box':
                c = ('v', ('box', v), p, st)
            elif k == 'vec':
                c = ('e', f[1], p, (('vec', f[1], f[2], f[3] + (v,), p), st))
            elif k == 'tup':
                vs = f[2] + (v,)
                if len(vs) == len(f[1]):
                    c = ('v', ('t', vs), p, st)
                else:
                    c = ('e', f[1][len(vs)], p, (('tup', f[1], vs), st))
            elif k == 'st':
                vs = f[3] + (v,)
                c = self.next_field(f[1], f[2], vs, p, st)
            elif k == 'ch':
                c = ('v', ('V', f[1], f[2][f[3]][0], v), p, st)
            elif k == 'bool':
                c = ('v', ('b', f[2]), p, st)
            elif k == 'sep':
                _, e, base, elts, q, ph = f
                if ph in ('first', 'item'):
                    c = ('e', e[3], p, (('sep', e, base, elts + (v,), p, 'sep'), st))
                elif ph == 'sep':
                    c = ('e', e[2], p, (('sep', e, base, elts, q, 'item'), st))
                else:
                    c = ('v', self.sep_value(e, base, elts), p, st)
            elif k == 'doc':
                c = ('e', ('sp',), p, (('doc2', v), st))
            elif k == 'doc2':
                c = ('v', f[1], p, st)
            else:
                raise ValueError(k)

    def next_field(self, name, fields, vs, p, st):
        while len(vs) < len(fields):
            e = fields[len(vs)][1]
            if e[0] == 'if':
                j = [x for x, _ in fields].index(e[1])
                if vs[j] == ('none',):
                    vs = vs + (('none',),)
                    continue
                e = e[2]
            return ('e', e, p, (('st', name, fields, vs), st))
        return ('v', ('S', name, tuple(sorted((fields[i][0], vs[i]) for i in range(len(vs))))), p, st)

    def sep_value(self, e, base, elts):
        return ('S', e[1], (('list', ('vec', base, elts)), ('separator', ('unit', e[3][1]))))


def depth(st):
    n = 0
    while st is not None:
        n += 1
        st = st[1]
    return n


# structure-generic walks over reference configurations: positions occur at known places
def ref_map(c, f, g):
    """f: position -> position, g: vec (base, elts) -> (base, elts) applied first."""
    def val(v):
        k = v[0]
        if k == 'nt':
            return ('nt', v[1], f(v[2]))
        if k in ('some', 'box'):
            return (k, val(v[1]))
        if k == 't':
            return (k, tuple(val(x) for x in v[1]))
        if k == 'S':
            return (k, v[1], tuple((n, val(x)) for n, x in v[2]))
        if k == 'V':
            return (k, v[1], v[2], val(v[3]))
        if k == 'vec':
            b, e = g(v[1], v[2])
            return (k, b, tuple(val(x) for x in e))
        return v

    def stack(st):
        fs = []
        while st is not None:
            fs.append(st[0])
            st = st[1]
        out = None
        for fr in reversed(fs):
            k = fr[0]
            if k == 'opt':
                fr = (k, f(fr[1]))
            elif k == 'vec':
                b, e = g(fr[2], fr[3])
                fr = (k, fr[1], b, tuple(val(x) for x in e), f(fr[4]))
            elif k == 'tup':
                fr = (k, fr[1], tuple(val(x) for x in fr[2]))
            elif k == 'st':
                fr = (k, fr[1], fr[2], tuple(val(x) for x in fr[3]))
            elif k == 'ch':
                # a choice with nothing left to try is only a wrapper
                fr = (k, fr[1], fr[2], fr[3], f(fr[4]) if fr[3] + 1 < len(fr[2]) else 0)
            elif k == 'bool':
                fr = (k, fr[1], fr[2], f(fr[3]) if fr[2] else 0)
            elif k == 'sep':
                b, e = g(fr[2], fr[3])
                fr = (k, fr[1], b, tuple(val(x) for x in e), f(fr[4]), fr[5])
            elif k == 'doc2':
                fr = (k, val(fr[1]))
            out = (fr, out)
        return out
    if c[0] == 'e':
        return ('e', c[1], f(c[2]), stack(c[3]))
    if c[0] == 'v':
        return ('v', val(c[1]), f(c[2]), stack(c[3]))
    if c[0] == 'x':
        return ('x', stack(c[1]))
    if c[0] == 'ok':
        return ('ok', f(c[1]), val(c[2]))
    return c


# ------------------------------------------------------------------ code values in reference form
REJECTED = 'rejected'
ERROR_USED = re.compile(r'\bop[xqk]?\b')


def rejected(o):
    return o[0] == 'err' or o[0] == 'ok' and o[2][0] == 'const' and o[2][1][0] == REJECTED


class Norm:
    def __init__(self, prog, I):
        self.p = prog
        self.I = I
        self.unit = set(spec.PUNCT) | set(spec.KEYWORDS)
        self.errors = False       # an error is compared by what it holds

    def rejection(self, st, e):
        n = self.p.types[e[1]]['vs'][e[2]]['n']
        c = e[3][0] if e[3] else interp.OP
        place = self.I.rest_of(c[1][0]) if c[0] == 'tup' and len(c[1]) == 2 else c
        if n == 'Error' and place[0] == 's' and self.I.error_place(st, place) == interp.OP:
            return ('ok', place[1], ('const', (REJECTED, self.p.types[c[1][1][1]]['vs'][c[1][1][2]]['n'])))
        return ('err', self.I.error_class(e, st))

    def name(self, ty):
        return self.p.nn(ty).split('<')[0]

    def __call__(self, v):
        k = v[0]
        if k == 'nt':
            if v[1] in self.unit:
                return ('unit', v[1])
            return v
        if k == 'adt':
            t = self.p.types[v[1]]
            n = self.name(v[1])
            var = t['vs'][v[2]]
            if n == 'Option':
                return ('none',) if var['n'] == 'None' else ('some', self(v[3][0]))
            if t.get('ak') == 'enum' or len(t['vs']) > 1:
                if len(v[3]) != 1:
                    return ('V', n, var['n'], ('t', tuple(self(x) for x in v[3])))
                return ('V', n, var['n'], self(v[3][0]))
            if not v[3]:
                return ('unit', n)
            return ('S', n, tuple(sorted((var['f'][i][0], self(x)) for i, x in enumerate(v[3]))))
        if k == 'box':
            return ('box', self(v[1]))
        if k == 'vec':
            return ('vec', v[1], tuple(self(x) for x in v[2]))
        if k == 'tup':
            return ('t', tuple(self(x) for x in v[1]))
        if k == 'i':
            return ('b', v[1])
        if k == 's':
            return ('str', v[1], v[2])
        if k == 'lit':
            return ('const', v[1])
        if k == 'fld':
            return ('fld', self(v[1]), v[2])
        raise Unknown('value ' + k)

    def outcome(self, st, v):
        if v[0] != 'adt':
            raise Unknown('result ' + v[0])
        t = self.p.types[v[1]]
        vn = t['vs'][v[2]]['n']
        if vn == 'Err':
            e = v[3][0]
            if e[0] != 'adt':
                raise Unknown('error value')
            if self.errors:
                return self.rejection(st, e)
            return ('err', self.I.error_class(e, st))
        if vn != 'Ok':
            raise Unknown('result variant')
        tup = v[3][0]
        if tup[0] == 'tup' and len(tup[1]) == 2 and self.I.rest_of(tup[1][0])[0] == 's':
            rest, val = self.I.rest_of(tup[1][0]), tup[1][1]
            if rest[2] is not None:
                raise Unknown('rest does not reach the end of the input')
            return ('ok', rest[1], self(val))
        return ('ok', None, self(tup))


def map_vecs(v, g):
    """Rewrite every vector inside a code value."""
    k = v[0]
    if k == 'vec':
        b, e = g(v[1], v[2])
        return ('vec', b, tuple(map_vecs(x, g) for x in e))
    if k in ('tup', 'arr'):
        return (k, tuple(map_vecs(x, g) for x in v[1]))
    if k == 'adt':
        return (k, v[1], v[2], tuple(map_vecs(x, g) for x in v[3]))
    if k == 'clo':
        return (k, v[1], tuple(map_vecs(x, g) for x in v[2]))
    if k in ('refv', 'box', 'bs', 'raw'):
        return (k, map_vecs(v[1], g))
    if k == 'it':
        return v[:2] + tuple(map_vecs(x, g) if isinstance(x, tuple) and x else x for x in v[2:])
    if k == 'part':
        return (k, tuple((i, map_vecs(x, g)) for i, x in v[1]))
    return v


class Restart(Exception):
    def __init__(self, name):
        self.name = name


class Verdict:
    def __init__(self, root):
        self.root = root
        self.states = 0
        self.forks = 0
        self.agree = 0
        self.mismatches = []       # unconfirmed
        self.confirmed = []        # dicts
        self.undecided = []
        self.functions = set()
        self.inlined = []
        self.start_asks = set()
        self.asks = set()
        self.wall = 0.0


class Product:
    def __init__(self, prog, root, inst, expr, inline=(), helper=None, max_states=4000):
        self.p = prog
        self.root = root
        self.inst = inst
        self.expr = expr
        self.inline = set(inline)
        self.I = Interp(prog, oracle=self.oracle, lexical=False, helper=helper)
        self.helper = helper
        self.ref = Ref(self.oracle)
        self.norm = Norm(prog, self.I)
        self.norm.errors = self.I.errors = root == 'parse'
        self.max_states = max_states
        self.q_code = set()
        self.q_ref = set()

    def oracle(self, name):
        return name in spec.NAMES and name not in self.inline

    # ---------------------------------------------------- facts
    def answer(self, facts, cells, alias, name, p):
        if name == '$eof':
            c = cells.get(p)
            if c is None:
                for (n, q), r in facts.items():
                    if q == p and r[0] == 'ok' and n[0] != '$':
                        return ('fail',)
                return None
            return ('ok', p) if c == 'eof' else ('fail',)
        if name == '$sp':
            if p != alias.get('start'):
                return ('ok', p)           # trivia after a token is taken by the token
            return facts.get((name, p))
        q = alias.get(p, p)
        r = facts.get((name, q))
        if r is not None:
            return r if r[0] == 'fail' or r[1] is not None else None
        c = cells.get(p)
        if c == 'eof':
            return ('fail',)
        if c is not None and not cs.inter(c[0], first_chars(name)):
            return ('fail',)
        for (n, q2), r in facts.items():
            if q2 == q and r[0] == 'ok' and n[0] != '$':
                if not refparse.may_both(n, name):
                    return ('fail',)
                if name == 'Identifier' and n in spec.KEYWORDS and r[1] is not None:
                    return ('ok', r[1])
        return None

    # ---------------------------------------------------- exploration
    def explore(self, V):
        st = self.I.start(self.inst, [('s', 0, None)])
        st.nid = 1
        self.key = {}
        self.preds = []
        self.bad = []
        self.V = V
        work = []

        def add(ps, pred, event):
            key, ps = self.canonical(ps)
            i = self.key.get(key)
            if i is None:
                i = len(self.preds)
                self.key[key] = i
                self.preds.append([])
                work.append((i, ps))
                if i > self.max_states:
                    raise MemoryError('more than %d states' % self.max_states)
            if pred is not None and len(self.preds[i]) < 6:
                self.preds[i].append((pred, event))

        def step(pred, event, *ps):
            for kind, x in self.advance(*ps):
                if kind == 'state':
                    add(x, pred, event)
                else:
                    self.bad.append((pred, event, x))
        step(None, None, st, None, self.ref.start(self.expr, 0), None, {}, {'start': 0}, 1)
        while work:
            i, ps = work.pop()
            for nps, event in self.fork(ps):
                step(i, event, *nps)
        V.states += len(self.preds)

    def advance(self, st, cout, rc, rout, facts, alias, nid):
        """Run both machines to their next questions."""
        V = self.V
        out = []
        leaves = []
        if cout is None:
            s = st.copy()
            s.facts = dict(facts)
            s.nid = nid
            leaves = self.I.run(FactState.wrap(s, self, alias))
        else:
            leaves.append(('done', None, st))
        for kind, data, s in leaves:
            co = cout
            cq = None
            cells = s.cells
            if kind == 'nt':
                if data[0][0] != '$':
                    self.q_code.add(data[0])
                cq = data
            elif kind == 'read':
                cq = ('$eof', data)
            elif kind == 'ret':
                try:
                    co = self.norm.outcome(s, s.ret)
                except Unknown as e:
                    self.undecided(V, str(e))
                    continue
            elif kind == 'inline':
                raise Restart(data)
            elif kind == 'unknown':
                self.undecided(V, data)
                continue
            elif kind in ('panic', 'loop'):
                co = (kind, data)
            ro = rout
            rq = None
            rc2 = rc
            if ro is None:
                r = self.ref.run(rc, lambda n, p: self.answer(facts, cells, alias, n, p))
                if r[0] == 'q':
                    rq = (r[1], r[2])
                    rc2 = r[3]
                    if r[1][0] != '$':
                        self.q_ref.add(r[1])
                elif r[0] == 'u':
                    self.undecided(V, r[1])
                    continue
                else:
                    ro = r[1]
                    rc2 = None
            if co is not None and co[0] in ('panic', 'loop'):
                V.forks += 1
                out.append(('bad', (co, ro or ('result',))))
                continue
            if co is not None and ro is not None:
                V.forks += 1
                if self.same(co, ro):
                    V.agree += 1
                else:
                    out.append(('bad', (co, ro)))
                continue
            out.append(('state', (s, co, rc2, ro, facts, alias, max(s.nid, nid), cq, rq)))
        return out

    def fork(self, ps):
        """The possible answers to the next question."""
        st, co, rc, ro, facts, alias, nid, cq, rq = ps
        V = self.V
        # the machine that is behind goes first
        if cq is not None and rq is not None:
            q = rq if (isinstance(rq[1], int) and isinstance(cq[1], int) and rq[1] < cq[1]) else cq
        else:
            q = cq or rq
        name, p = q
        V.asks.add(name)
        p0 = alias.get(p, p)
        if q == cq and name[0] != '$' and p0 == alias.get('start'):
            V.start_asks.add(name)
        out = []
        if name == '$eof':
            must = None
            for (n, q2), r in facts.items():
                if q2 == p0 and r[0] == 'ok' and n[0] != '$':
                    must = first_chars(n)
            if must is None:
                s1 = st.copy()
                s1.cells[p] = 'eof'
                out.append(((s1, co, rc, ro, facts, alias, nid), (q, 'eof')))
            s1 = st.copy()
            s1.cells[p] = (cs.FULL if must is None else must, nid)
            out.append(((s1, co, rc, ro, facts, alias, nid + 1), (q, nid)))
        elif name == '$sp':
            f1 = dict(facts)
            f1[(name, p)] = ('ok', nid)
            al = dict(alias)
            al[nid] = p
            out.append(((st, co, rc, ro, f1, al, nid + 1), (q, nid)))
        else:
            if facts.get((name, p0), ('fail',))[0] == 'fail':
                f2 = dict(facts)
                f2[(name, p0)] = ('fail',)
                out.append(((st, co, rc, ro, f2, alias, nid), ((name, p0), 'fail')))
            f1 = dict(facts)
            f1[(name, p0)] = ('ok', nid)
            out.append(((st, co, rc, ro, f1, alias, nid + 1), ((name, p0), nid)))
        return out

    def undecided(self, V, msg):
        if msg not in V.undecided and len(V.undecided) < 20:
            V.undecided.append(msg)

    def same(self, co, ro):
        if co[0] != ro[0]:
            return False
        if co[0] == 'err':
            return co[1] == ro[1]
        if co[1] is not None and co[1] != ro[1]:
            return False
        return co[2] == ro[2]

    # ---------------------------------------------------- canonical product states
    def canonical(self, ps):
        st, cout, rc, rout, facts, alias, nid, cq, rq = ps
        # fold equal list prefixes
        cv, rv = [], []

        def seec(b, e):
            if e:
                cv.append((b, e))
            return b, e

        def seer(b, e):
            if e:
                rv.append((b, e))
            return b, e

        def code_map(g):
            nonlocal st, cout
            if cout is not None:
                cout = ref_map(cout, lambda p: p, g)
                return
            st = st.copy()
            for f in st.fr:
                if f.prim is not None:
                    f.v = tuple(map_vecs(x, g) if isinstance(x, tuple) and x else x for x in f.v)
                    if f.rv is not None:
                        f.rv = map_vecs(f.rv, g)
                else:
                    f.L = {l: map_vecs(v, g) for l, v in f.L.items()}

        code_map(seec)
        if rout is not None:
            ref_map(rout, lambda p: p, seer)
        elif rc is not None:
            ref_map(rc, lambda p: p, seer)
        if cv and rv:
            used = set()
            for b, e in cv + rv:
                bases(b, used)
            tc, tr = {}, {}
            for b, e in cv:
                if (b, e) in tc:
                    continue
                try:
                    ne = tuple(x if cout is not None else self.norm(x) for x in e)
                except Unknown:
                    continue
                for b2, e2 in rv:
                    if b2 != b or (b2, e2) in tr:
                        continue
                    n = 0
                    while n < len(ne) and n < len(e2) and ne[n] == e2[n]:
                        n += 1
                    if n == 0:
                        continue
                    if isinstance(b, tuple) and b[0] == 'sync':
                        nb = b
                    else:
                        k = 0
                        while k in used:
                            k += 1
                        used.add(k)
                        nb = ('sync', k)
                    tc[(b, e)] = (nb, e[n:])
                    tr[(b2, e2)] = (nb, e2[n:])
                    break
            if tc:
                code_map(lambda b, e: tc.get((b, e), (b, e)))
                fr = lambda b, e: tr.get((b, e), (b, e))
                if rout is not None:
                    rout = ref_map(rout, lambda p: p, fr)
                elif rc is not None:
                    rc = ref_map(rc, lambda p: p, fr)
        # live positions
        live = set()
        if cout is None:
            st = st.copy()
            keep = st.cells
            st.cells = {}
            self.I.settle_live(st)
            live |= self.I.live_positions(st)
            st.cells = keep
        elif cout[0] == 'ok':
            ref_map(cout, lambda p: (live.add(p), p)[1], lambda b, e: (b, e))
        if rout is not None:
            if rout[0] == 'ok':
                ref_map(rout, lambda p: (live.add(p), p)[1], lambda b, e: (b, e))
        else:
            ref_map(rc, lambda p: (live.add(p), p)[1], lambda b, e: (b, e))
        for q in (cq, rq):
            if q is not None:
                live.add(q[1])
        live.discard(None)
        live.discard('E')
        for p in list(live):
            if p in alias and p != 'start':
                live.add(alias[p])
        if cq is not None and cq[0] == '$eof':
            # in the middle of looking ahead: what has been read on the way is still part of it
            for p in list(live):
                c = st.cells.get(p)
                while c is not None and c != 'eof' and c[1] not in live:
                    live.add(c[1])
                    c = st.cells.get(c[1])
        # cells: of live positions
        cells = {p: c for p, c in st.cells.items() if p in live}
        for p, c in cells.items():
            if c != 'eof':
                live.add(c[1])
        order = sorted(live)
        m = {p: i for i, p in enumerate(order)}
        st.cells = cells
        f2 = {}
        for (n, p), r in facts.items():
            if p in live:
                if r[0] == 'ok':
                    f2[(n, m[p])] = ('ok', m.get(r[1]))
                else:
                    f2[(n, m[p])] = r
        al = {}
        for p, q in alias.items():
            if p == 'start':
                if q in m:
                    al['start'] = m[q]
            elif p in m and q in m:
                al[m[p]] = m[q]
        fm = lambda p: m.get(p, p)
        if cout is None:
            ck = self.I.canon(st, m)
            st2 = self.I.renamed(st, m)
        else:
            cout = ref_map(cout, fm, lambda b, e: (b, e)) if cout[0] == 'ok' else cout
            ck = cout
            st2 = st.copy()
            st2.fr = []
            st2.cells = {m[p]: (c if c == 'eof' else (c[0], m[c[1]])) for p, c in cells.items()}
            st2.nid = len(order)
        if rout is not None:
            rout = ref_map(rout, fm, lambda b, e: (b, e)) if rout[0] == 'ok' else rout
            rk = rout
        else:
            rc = ref_map(rc, fm, lambda b, e: (b, e))
            rk = rc
        key = (ck, rk, tuple(sorted(f2.items(), key=str)), tuple(sorted(al.items(), key=str)),
               tuple(sorted(st2.cells.items(), key=str)))
        qm = lambda q: None if q is None else (q[0], m.get(q[1], q[1]))
        return key, (st2, cout, rc, rout, f2, al, len(order), qm(cq), qm(rq))

    # ---------------------------------------------------- counterexamples
    def paths(self, i, last, rng, n):
        """Some ways from the start to state i, as lists of events."""
        seen = set()
        if i is None:
            yield []
            return
        for _ in range(n * 3):
            ev = [last]
            cur = i
            guard = 0
            while self.preds[cur] and cur != 0:
                pr = self.preds[cur]
                k = 0 if guard == 0 and not seen else rng.randrange(len(pr))
                if guard > 40:
                    k = 0
                guard += 1
                cur, e = pr[k]
                ev.append(e)
                if guard > 400:
                    break
            ev.reverse()
            t = tuple(x for x in ev)
            if t not in seen:
                seen.add(t)
                yield ev
            if len(seen) >= n:
                return

    def concrete(self, text):
        """Outcome of the code on a text, given the reference outcome of the other types."""
        I = point.PointInterp(self.p, text, self.oracle, self.helper)
        I.errors = self.I.errors
        norm = Norm(self.p, I)
        norm.errors = I.errors
        o = point.outcome(I, norm, self.inst)
        if o[0] == 'unknown' and ERROR_USED.search(o[1]):
            # looks into the error of another type: nothing but that type's own code tells what it holds
            J = point.PointInterp(self.p, text, lambda n: False, None)
            J.errors = True
            norm = Norm(self.p, J)
            norm.errors = I.errors
            o = point.outcome(J, norm, self.inst)
        return o, I.pk

    def reference(self, pk):
        r = pk.expr(self.expr, 0) if self.expr[0] != 'nt' else pk.nt(self.expr[1], 0)
        return ('err', 'Error') if r is None else ('ok', r[0], r[1])

    def check_text(self, text):
        """None if code and reference agree on the text (or it cannot be told), else both outcomes."""
        co, pk = self.concrete(text)
        if co[0] == 'unknown' or co[0] == 'inline':
            return None
        ro = self.reference(pk)
        if co[0] == 'ok' and ro[0] == 'ok':
            if co[1] is not None and co[1] != ro[1]:
                return co, ro
            return None if norm_tree(co[2]) == norm_tree(ro[2]) else (co, ro)
        if co[0] == 'err' and ro[0] == 'err':
            return None if co[1] == ro[1] else (co, ro)
        return co, ro

    def confirm(self, V, budget=6.0, tries=4000):
        """Look for texts that realise the disagreements that were found."""
        t0 = time.time()
        rng = random.Random(1)
        kinds = {}
        tested = set()

        def test(text):
            if text in tested or len(text) > 200000:
                return False
            tested.add(text)
            r = self.check_text(text)
            if r is None:
                return False
            k = classify(r[0], r[1])
            kinds.setdefault(k, []).append((text, r))
            kinds[k].sort(key=lambda x: len(x[0]))
            del kinds[k][5:]
            return True
        for rnd in range(2):
            for i, last, what in sorted(self.bad, key=lambda x: -1 if x[0] is None else x[0]):
                n = 0
                for ev in self.paths(i, last, rng, 6 if rnd else 2):
                    for text in self.texts(ev, rng, 60):
                        n += 1
                        if test(text) and n > 20:
                            break
                    if time.time() - t0 > budget:
                        break
                if time.time() - t0 > budget:
                    break
            if kinds:
                break
        ints, strs, chars = point.harvest(self.p, self.I.visited)
        t1 = time.time()
        n = 0
        for text in point.composite_texts(self.root, self.expr, ints, strs, chars, self.inline, self.q_code - self.q_ref):
            if time.time() - t1 > 2 * budget:
                break
            n += 1
            if test(text) and len(kinds) > 2 and n > 200:
                break
        V.harvest = (len(ints), len(strs), len(chars))
        for k, ts in sorted(kinds.items(), key=str):
            about = set()
            for text, r in ts:
                if len(text) < 5000:
                    about |= what_matters(text, lambda t: self.check_text(t) is not None)
            text, r = ts[0]
            V.confirmed.append(dict(kind=k, text=text, code=short(r[0]), reference=short(r[1]), out=r[0], ref=r[1], about=about))
        V.tested = len(tested)
        return bool(kinds)

    def texts(self, events, rng, n):
        """Texts that could realise a path: along its successful questions."""
        succ = {}
        cur = {}
        # events use canonical numbering of the state they leave; rebuild global names by order only
        chain = []
        for (q, r) in events:
            name, p = q
            if name == '$eof':
                chain.append((name, p, r))
            elif r != 'fail':
                chain.append((name, p, r))
        fails = [q[0] for q, r in events if r == 'fail' and q[0][0] != '$']
        toks = []
        for name, p, r in chain:
            toks.append(name)
        for k in range(n):
            parts = []
            # successive successes; a success at a position already used replaces the text
            seq = []
            last = None
            for name, p, r in chain:
                if name == '$eof':
                    continue
                seq.append((name, p))
            use = []
            for j, (name, p) in enumerate(seq):
                if use and p == use[-1][1] and rng.random() < (0.9 if k else 1):
                    # asked at the same place as the previous success: keep one of both
                    if rng.random() < 0.5:
                        use[-1] = (name, p)
                    continue
                use.append((name, p))
            for name, p in use:
                ss = refparse.samples(name)
                s = ss[0] if k == 0 else rng.choice(ss[:max(1, min(len(ss), 1 + k))])
                parts += s
            r = rng.random()
            if k == 0:
                pass
            elif r < 0.3:
                parts += rng.choice(SUFFIX)
            elif r < 0.5 and fails:
                parts += refparse.samples(rng.choice(fails))[0]
            elif r < 0.6 and parts:
                parts = parts[:-1]
            elif r < 0.75 and fails:
                f = refparse.samples(rng.choice(fails))
                parts += rng.choice(f)[:rng.randrange(1, 5)]
            elif r < 0.85 and fails:
                # several of what failed, one after the other
                for _ in range(2):
                    parts += refparse.samples(rng.choice(fails))[0]
            yield ' '.join(parts)


SUFFIX = [[t] for t in (';', ',', ')', ']', '}', '>', '?', '=', '...', '(', '[', '{', '<', ':', '"s"', '1', '1.5', 'or',
                        '*', 'x', '@', '\u00e9', 'long', 'null')] + [[',', 'x'], [',', ')'], ['or', 'long'], ['?', '?'],
                                                                       [',', ','], ['=', '1'], ['/*'], ['-'], ['.']]


TOK = re.compile(r'"[^"]*"|-?(?:(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+)'
                 r'|-?0[xX][0-9A-Fa-f]+|-?[0-9]+|-Infinity|_?[A-Za-z][0-9A-Za-z_-]*|\.\.\.|\S')
COMMENT = re.compile(r'"[^"]*"|//[^\n]*|/\*(?:.|\n)*?\*/')
WORD = re.compile(r'"[^"]*"|_?[A-Za-z][0-9A-Za-z_-]*')
NUMBER = re.compile(r'"[^"]*"|_?[A-Za-z][0-9A-Za-z_-]*|-?[0-9.][0-9A-Fa-f.xX+-]*')
GLUED = re.compile(r'(?<![0-9A-Za-z_-])(?:%s)(?=[^\s/(){}\[\]<>,;:?=".*])' % '|'.join(sorted((re.escape(k) for k in spec.KEYWORDS.values()), key=lambda x: -len(x))))


# characters of no token (or a string, or a comment)
JUNK = re.compile(r'"[^"]*"|//[^\n]*|/\*(?:.|\n)*?\*/|[^\x21-\x7e \t\r\n]|[@#$%^&!~`|\\]')


def what_matters(text, differs):
    """Which part of the spelling a disagreement hinges on: it goes away when that part is made plain."""
    out = set()
    words = set(spec.KEYWORDS.values())

    def plain(t, what):
        if t != text and not differs(t):
            out.add(what)
    plain(' '.join(TOK.findall(COMMENT.sub(lambda m: m.group() if m.group()[0] == '"' else ' ', text))), 'trivia')
    plain(WORD.sub(lambda m: 'a' if m.group()[0] != '"' and m.group() not in words and GLUED.match(m.group()) else m.group(), text), 'word end')
    if 'trivia' in out and GLUED.search(text):
        out.add('word end')
    plain(WORD.sub(lambda m: m.group() if m.group()[0] == '"' or m.group() in words else 'a', text), 'identifier')
    plain(re.sub(r'"[^"]*"', '"s"', text), 'string')
    plain(JUNK.sub(lambda m: m.group() if m.group()[0] in '"/' else ' ', text), 'junk')
    plain(NUMBER.sub(lambda m: m.group() if m.group()[0] in '"_' or m.group()[0].isalpha() else '1', text), 'number')
    return out


def norm_tree(v):
    """A literal and the structure around its text are the same thing."""
    k = v[0]
    if k == 'lit':
        return ('S', v[1], (('0', ('str', v[2], v[3])),))
    if k in ('some', 'box'):
        return (k, norm_tree(v[1]))
    if k == 't' or k == 'vec':
        return (k, tuple(norm_tree(x) for x in v[1]))
    if k == 'S':
        return (k, v[1], tuple((f, norm_tree(x)) for f, x in v[2]))
    if k == 'V':
        return (k, v[1], v[2], norm_tree(v[3]))
    return v


def bases(b, used):
    if isinstance(b, tuple):
        if b[0] == 'sync':
            used.add(b[1])
        else:
            for x in b[1:]:
                bases(x, used)


def classify(co, ro):
    if co[0] in ('panic', 'loop'):
        return co[0]
    if rejected(co) and rejected(ro):
        return 'errclass' if co[0] == 'err' and interp.ELSEWHERE not in co[1] else 'errplace'
    if rejected(ro):
        return 'accepts'
    if rejected(co):
        return 'rejects' if co[0] == 'ok' or co[1] == 'Error' else 'errclass'
    if co[1] is not None and co[1] != ro[1]:
        return 'end'
    return 'tree'


def short(o):
    s = repr(o)
    return s if len(s) < 600 else s[:600] + '...'


_first_chars = {}


def first_chars(name):
    r = _first_chars.get(name)
    if r is None:
        r = SPACE
        for t in refparse.first_tokens()[name]:
            if t in spec.PUNCT:
                r = cs.union(r, cs.single(spec.PUNCT[t][0]))
            elif t in spec.KEYWORDS:
                r = cs.union(r, cs.single(spec.KEYWORDS[t][0]))
            elif t == 'Identifier':
                r = cs.union(r, spec.LETTER, cs.of('_'))
            elif t == 'StringLit':
                r = cs.union(r, cs.of('"'))
            else:
                r = cs.union(r, spec.DIGIT, cs.of('-.'))
        _first_chars[name] = r
    return r


class FactState(interp.St):
    """State whose questions are answered by the product."""
    __slots__ = ('prod', 'alias')

    @staticmethod
    def wrap(s, prod, alias):
        f = FactState.__new__(FactState)
        for a in interp.St.__slots__:
            setattr(f, a, getattr(s, a))
        f.prod = prod
        f.alias = alias
        return f

    def copy(self):
        s = interp.St.copy(self)
        return FactState.wrap(s, self.prod, self.alias)

    def lookup(self, name, p):
        return self.prod.answer(self.facts, self.cells, self.alias, name, p)


def check(prog, root, inst, expr, helper=None, budget=6.0, explore_limit=40.0):
    t0 = time.time()
    V = Verdict(root)
    V.tested = 0
    inline = set()
    for rnd in range(8):
        P = Product(prog, root, inst, expr, inline, helper)
        V.undecided = []
        V.agree = V.forks = V.states = 0
        V.asks = set()
        try:
            with limits.limit(explore_limit):
                P.explore(V)
        except Restart as r:
            if r.name in inline or r.name not in spec.NAMES or r.name in spec.TOKENS:
                V.undecided.append('value of %s inspected' % r.name)
                P.confirm(V, budget)
                break
            inline.add(r.name)
            continue
        except (MemoryError, limits.Timeout) as e:
            V.undecided.append(str(e))
            P.bad = getattr(P, 'bad', [])
        V.functions |= set(P.I.visited)
        if not P.bad and not V.undecided:
            break
        if P.confirm(V, budget):
            break
        if not P.bad:
            break
        more = {n for n in (P.q_code ^ P.q_ref) if n in spec.COMPOSITE and n not in inline}
        if not more:
            V.mismatches = [(short(c), short(r)) for _, _, (c, r) in P.bad[:5]]
            break
        inline |= more
    V.inlined = sorted(inline)
    V.wall = time.time() - t0
    return V
