"""Witness values for methods of tree types that the path analysis leaves undecided.

Small values of a type are enumerated (texts come from the constants of the analysed functions),
and the MIR is evaluated on them; a result that differs from the required one is a witness.
Finding none proves nothing: the method stays undecided.
"""
import itertools

import limits
import point
from interp import Unknown

BASE = ['a', 'b', '', 'A', 'ab', '_a', ' ', '"', '1', '-1', '0x1F', 'aé', 'length']


def texts(prog, insts):
    ints, strs, chars = point.harvest(prog, insts)
    out = list(BASE)
    for c in sorted(chars) + sorted(strs):
        if len(c) < 60:
            out += [c, c + 'a', 'a' + c, 'a' + c + 'a', c + c]
    for n in sorted(ints):
        if n < 400:
            out += ['a' * n, 'a' * (n - 1), 'a' * (n + 1)]
    return list(dict.fromkeys(out))[:80]


class Values:
    def __init__(self, prog, insts):
        self.p = prog
        self.t = texts(prog, insts)
        self.text = ''.join(self.t)
        at = 0
        self.slices = []
        for s in self.t:
            self.slices.append(('s', at, at + len(s)))
            at += len(s)
        self.memo = {}

    def gen(self, ty, depth=0):
        """Values of a type, plainest first."""
        key = (ty, depth)
        if key not in self.memo:
            self.memo[key] = []
            self.memo[key] = self.make(ty, depth)
        return self.memo[key]

    def product(self, ts, depth):
        cs = [self.gen(t, depth) for t in ts]
        if not all(cs):
            return []
        first = tuple(c[0] for c in cs)
        out = [first]
        for i, c in enumerate(cs):
            for x in c[1:]:
                out.append(first[:i] + (x,) + first[i + 1:])
        return out[:120]

    def make(self, ty, depth):
        if depth > 7:
            return []
        t = self.p.types[ty]
        k = t['k']
        if k == 'ref':
            u = self.p.types[t['t']]
            if u['k'] == 'str':
                return self.slices
            raise Unknown('value of a reference')
        if k == 'tuple':
            return [('tup', x) for x in self.product(t['ts'], depth + 1)]
        n = self.p.nn(ty)
        if k == 'adt':
            if n.startswith('Vec<'):
                e = self.gen(t['args'][0], depth + 1)
                return [('vec', None, ())] + [('vec', None, (x,)) for x in e[:40]] + [('vec', None, (e[0], x)) for x in e[:2]]
            if n.startswith('Box<'):
                return [('box', x) for x in self.gen(t['args'][0], depth + 1)]
            if t['crate'] != self.p.crate and not n.startswith('Option<'):
                raise Unknown('values of ' + n)
            per = []
            for j, v in enumerate(t['vs']):
                per.append([('adt', ty, j, x) for x in self.product([f[1] for f in v['f']], depth + 1)])
            # one of each variant first
            return [x for row in itertools.zip_longest(*per) for x in row if x is not None][:120]
        if n == 'bool':
            return [('i', 0), ('i', 1)]
        if n in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
            return [('i', 0), ('i', 1), ('i', 7)]
        raise Unknown('values of ' + n)

    def call(self, inst, args):
        """('ret', value, interp) | ('panic', why) | None."""
        I = point.PointInterp(self.p, self.text, lambda x: False, None, limit=20000)
        st = I.start(inst, args)
        st.cells = I.tape
        st.nid = I.n + 1
        leaves = I.run(st)
        if len(leaves) != 1:
            return None
        kind, data, st = leaves[0]
        if kind == 'ret':
            return ('ret', st.ret, I)
        if kind == 'panic':
            return ('panic', data)
        return None

    def plain(self, v):
        """The value with its texts written out."""
        k = v[0]
        if k == 's':
            return ('text', self.text[v[1] if v[1] != 'E' else len(self.text):len(self.text) if v[2] in (None, 'E') else v[2]])
        if k == 'lit':
            return ('text', v[1] if isinstance(v[1], str) else v[1].decode())
        if k == 'adt':
            return (k, self.p.nn(v[1]), v[2], tuple(self.plain(x) for x in v[3]))
        if k in ('tup', 'arr'):
            return (k, tuple(self.plain(x) for x in v[1]))
        if k in ('box', 'refv'):
            return (k, self.plain(v[1]))
        if k == 'vec':
            if v[1] is not None:
                raise Unknown('vector')
            return (k, tuple(self.plain(x) for x in v[2]))
        if k == 'i':
            return v
        raise Unknown('value ' + k)

    def show(self, v):
        return render(self.plain(v), self.p)


def render(v, p=None):
    k = v[0]
    if k == 'text':
        return '"%s"' % v[1]
    if k == 'adt':
        n = v[1].split('<')[0]
        if n == 'Option':
            return 'None' if not v[3] else 'Some(%s)' % render(v[3][0])
        return n + ('(%s)' % ', '.join(render(x) for x in v[3]) if v[3] else '')
    if k in ('tup', 'vec', 'arr'):
        return '(%s)' % ', '.join(render(x) for x in v[1])
    if k in ('box', 'refv'):
        return render(v[1])
    return str(v[1])


def reached(prog, inst):
    """Functions of the crate that a function calls, directly or not."""
    seen = {inst}
    work = [inst]
    while work:
        i = prog.insts[work.pop()]
        if i is None or 'body' not in i:
            continue
        for b in i['body']['blocks']:
            t = b['t']
            x = t['f'].get('inst') if t['k'] == 'call' and 'f' in t else None
            if isinstance(x, int) and x not in seen:
                seen.add(x)
                work.append(x)
    return seen


def conversion(prog, inst, variants, budget=15):
    """An argument that From does not wrap unchanged in its variant, or None."""
    try:
        with limits.limit(budget):
            V = Values(prog, reached(prog, inst))
            ty = prog.insts[inst]['body']['locals'][1]
            for a in V.gen(ty):
                r = V.call(inst, [a])
                if r is None:
                    continue
                if r[0] == 'panic':
                    return 'panics on %s' % V.show(a)
                try:
                    got = V.plain(r[1])
                except Unknown:
                    continue
                want = V.plain(a)
                if got[0] != 'adt' or got[2] not in variants or got[3] != (want,):
                    return 'turns %s into %s' % (render(want), render(got))
    except (Unknown, limits.Timeout):
        pass
    return None


def order_of(v, p):
    """-1, 0, 1 or 'none' for an Ordering or Option<Ordering>."""
    if v[0] == 'adt':
        n = p.nn(v[1])
        if n.startswith('Option'):
            return order_of(v[3][0], p) if v[3] else 'none'
        return {'Less': -1, 'Equal': 0, 'Greater': 1}[p.types[v[1]]['vs'][v[2]]['n']]
    raise Unknown('order')


def trait(prog, tr, ms, ty, budget=15):
    """Values on which a hand-written trait method is not structural, or None."""
    names = {'PartialEq': ('eq', 'ne'), 'Clone': ('clone',), 'Ord': ('cmp',), 'PartialOrd': ('partial_cmp', 'lt', 'le', 'gt', 'ge')}.get(tr, ())
    try:
        with limits.limit(budget):
            for name in names:
                inst = ms.get(name)
                if inst is None:
                    continue
                V = Values(prog, reached(prog, inst))
                vals = V.gen(ty)[:60]
                keys = [V.plain(v) for v in vals]
                if name == 'clone':
                    for v, k in zip(vals, keys):
                        r = V.call(inst, [('refv', v)])
                        if r is None or r[0] != 'ret':
                            continue
                        got = V.plain(r[1])
                        if got != k:
                            return 'clone of %s is %s' % (render(k), render(got))
                    continue
                ord_ = {}
                n = len(vals)
                pairs = [(i, j) for i in range(n) for j in range(n) if i == j or i < 3 or j < 3] + [
                    (i, j) for i in range(n) for j in range(n) if i >= 3 and j >= 3 and i != j]
                for i, j in pairs[:1500]:
                    r = V.call(inst, [('refv', vals[i]), ('refv', vals[j])])
                    if r is None or r[0] != 'ret':
                        continue
                    same = keys[i] == keys[j]
                    if name in ('eq', 'ne'):
                        if r[1][0] == 'i' and bool(r[1][1]) != (same if name == 'eq' else not same):
                            return '%s of %s and %s is %s' % (name, render(keys[i]), render(keys[j]), bool(r[1][1]))
                        continue
                    if name in ('cmp', 'partial_cmp'):
                        o = order_of(r[1], prog)
                        if (o == 0) != same:
                            return '%s of %s and %s is %s' % (name, render(keys[i]), render(keys[j]), {0: 'Equal', 'none': 'None'}.get(o, 'not Equal'))
                        ord_[i, j] = o
                        if (j, i) in ord_ and ord_[j, i] != -o:
                            return '%s of %s and %s is the same both ways round' % (name, render(keys[i]), render(keys[j]))
                m = [i for i in range(min(n, 12)) if all((i, j) in ord_ for j in range(min(n, 12)))]
                for a, b, c in itertools.permutations(m, 3):
                    if ord_[a, b] == ord_[b, c] == -1 and ord_[a, c] != -1:
                        return '%s is not transitive: %s, %s, %s' % (name, render(keys[a]), render(keys[b]), render(keys[c]))
    except (Unknown, limits.Timeout, KeyError):
        pass
    return None
