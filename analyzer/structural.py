"""Hand-written PartialEq/Ord/PartialOrd/Clone/Hash impls, decided by path-sensitive dataflow.

Every path through the method's MIR is followed with symbolic fields: a comparison of the same
field of both operands splits the path into its outcomes, a discriminant read into its variants.
What each path returns is then held against what it has established about the fields.
Anything that is not understood makes the impl undecided, never wrong.
"""


class Undecided(Exception):
    pass


VIEW = ('as_bytes', 'as_str', 'deref', 'borrow', 'as_ref', 'clone', 'to_owned', 'as_slice', 'into', 'from', 'to_string',
        'to_vec', 'iter', 'chars', 'bytes', 'into_iter', 'as_deref', 'cloned', 'copied', 'by_ref', 'must_use')
LOSSY = ('len', 'is_empty', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim',
         'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'first', 'last', 'is_some',
         'is_none', 'count', 'starts_with', 'ends_with', 'next', 'nth', 'get', 'rev', 'char_indices',
         'is_ascii', 'split_at', 'strip_prefix', 'find')
LOSSY_EQ = ('eq_ignore_ascii_case',)
IDENT = ('as_ptr',)


class Leaf:
    def __init__(self, facts, order, ret, lossy_ne, writes):
        self.facts = facts
        self.order = order
        self.ret = ret
        self.lossy_ne = lossy_ne
        self.writes = writes


class State:
    def __init__(self):
        self.facts = {}
        self.order = []
        self.lossy_ne = False
        self.writes = []

    def copy(self):
        s = State()
        s.facts = dict(self.facts)
        s.order = list(self.order)
        s.lossy_ne = self.lossy_ne
        s.writes = list(self.writes)
        return s


def base(v):
    """Behind references."""
    while v[0] == 'r':
        v = v[1]
    return v


class Sym:
    def __init__(self, prog, traits=None):
        self.prog = prog
        self.steps = 0

    # ---------------------------------------------------------------- running
    def run(self, inst, args, st=None, depth=0):
        """Yields (state, returned value)."""
        i = self.prog.insts[inst]
        if i is None or 'body' not in i:
            raise Undecided('no body for %s' % (i and i['path']))
        if depth > 12:
            raise Undecided('call depth')
        body = i['body']
        env = {}
        for k, a in enumerate(args):
            env[k + 1] = a
        work = [(0, 0, env, st or State())]
        out = []
        while work:
            bb, si, env, s = work.pop()
            while True:
                self.steps += 1
                if self.steps > 60000:
                    raise Undecided('too many paths')
                b = body['blocks'][bb]
                if si < len(b['s']):
                    forks = self.stmt(body, b['s'][si], env, s)
                    si += 1
                    if forks is not None:
                        for e2, s2 in forks[1:]:
                            work.append((bb, si, e2, s2))
                        env, s = forks[0]
                    continue
                t = b['t']
                k = t['k']
                if k == 'goto' or k == 'drop':
                    bb, si = t['to'], 0
                elif k == 'ret':
                    out.append((s, env.get(0, ('unk',))))
                    break
                elif k == 'assert':
                    c = self.operand(t['c'], env)
                    if c[0] == 'k' and bool(c[1]) == t['e']:
                        bb, si = t['to'], 0
                    else:
                        raise Undecided('assertion')
                elif k == 'switch':
                    v = base(self.operand(t['on'], env))
                    if v[0] != 'k':
                        raise Undecided('branch on a value that is not understood')
                    to = t['else']
                    for val, blk in t['br']:
                        if int(val) == v[1]:
                            to = blk
                    bb, si = to, 0
                elif k == 'call':
                    a = [self.operand(x, env) for x in t['a']]
                    rs = self.call(t, a, s, body, depth)
                    if t['to'] is None:
                        break
                    rs = list(rs)
                    if not rs:
                        break
                    for s2, v in rs[1:]:
                        e2 = dict(env)
                        self.assign(t['d'], v, e2)
                        work.append((t['to'], 0, e2, s2))
                    s, v = rs[0]
                    env = dict(env)
                    self.assign(t['d'], v, env)
                    bb, si = t['to'], 0
                elif k == 'unreachable':
                    break
                else:
                    raise Undecided('terminator ' + k)
        return out

    def assign(self, place, v, env):
        if len(place) == 1:
            env[place[0]] = v
            return
        cur = env.get(place[0], ('unk',))
        if len(place) == 2 and isinstance(place[1], list) and place[1][0] == 'f' and cur[0] == 'agg':
            fs = list(cur[2])
            if place[1][1] < len(fs):
                fs[place[1][1]] = v
                env[place[0]] = ('agg', cur[1], tuple(fs))
                return
        raise Undecided('assignment through a place')

    def stmt(self, body, x, env, s):
        if x[0] != '=':
            if x[0] in ('dead', 'live'):
                return None
            raise Undecided('statement ' + x[0])
        place, r = x[1], x[2]
        k = r[0]
        if k == 'discr':
            v = base(self.place(r[1], env))
            if v[0] == 'p':
                ty = self.prog.types[r[2]]
                if ty['k'] != 'adt':
                    raise Undecided('discriminant')
                key = ('var', v[1], v[2])
                out = []
                for n, vr in enumerate(ty['vs']):
                    if key in s.facts and s.facts[key] != n:
                        continue
                    e2, s2 = dict(env), s.copy()
                    s2.facts[key] = n
                    self.assign(place, ('k', int(vr['d'])), e2)
                    out.append((e2, s2))
                if not out:
                    raise Undecided('discriminant without variants')
                return out
            if v[0] == 'agg' and v[1][0] == 'adt':
                ty = self.prog.types[v[1][1]]
                self.assign(place, ('k', int(ty['vs'][v[1][2]]['d'])), env)
                return None
            raise Undecided('discriminant of an unknown value')
        if k == 'bin':
            a, b = base(self.operand(r[2], env)), base(self.operand(r[3], env))
            op = r[1]
            if a[0] == 'k' and b[0] == 'k':
                f = {'Eq': lambda p, q: p == q, 'Ne': lambda p, q: p != q, 'Lt': lambda p, q: p < q,
                     'Le': lambda p, q: p <= q, 'Gt': lambda p, q: p > q, 'Ge': lambda p, q: p >= q,
                     'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q,
                     'Sub': lambda p, q: p - q, 'Add': lambda p, q: p + q}.get(op)
                if f is None:
                    raise Undecided('operator ' + op)
                self.assign(place, ('k', int(f(a[1], b[1]))), env)
                return None
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                out = []
                for s2, o in self.compare(a, b, s, ordered=op not in ('Eq', 'Ne')):
                    e2 = dict(env)
                    r2 = {'Eq': o == 'eq', 'Ne': o != 'eq', 'Lt': o == 'lt', 'Le': o in ('lt', 'eq'),
                          'Gt': o == 'gt', 'Ge': o in ('gt', 'eq')}[op]
                    self.assign(place, ('k', int(r2)), e2)
                    out.append((e2, s2))
                return out
            if a[0] == 'p' and b[0] == 'k' or a[0] == 'k' and b[0] == 'p':
                p = a if a[0] == 'p' else b
                if op in ('BitAnd', 'BitOr', 'BitXor'):
                    self.assign(place, ('lossy', op, (p,)), env)
                    return None
            raise Undecided('operator ' + op)
        self.assign(place, self.rvalue(body, r, env), env)
        return None

    def rvalue(self, body, r, env):
        k = r[0]
        if k == 'use':
            return self.operand(r[1], env)
        if k == 'ref':
            if r[1]:
                v = self.place(r[2], env)
                if base(v)[0] in ('state', 'p'):
                    return ('r', v)
                raise Undecided('mutable borrow')
            return ('r', self.place(r[2], env))
        if k == 'agg':
            h = r[1]
            ops = tuple(self.operand(o, env) for o in r[2])
            if h[0] == 'adt':
                return ('agg', ('adt', h[1], h[2]), ops)
            if h[0] in ('tuple', 'array'):
                return ('agg', (h[0],), ops)
            if h[0] == 'closure':
                return ('agg', ('closure', h[1]), ops)
            raise Undecided('aggregate')
        if k == 'un':
            v = self.operand(r[2], env)
            if r[1] == 'Not' and v[0] == 'k':
                return ('k', int(not v[1]))
            raise Undecided('operator ' + r[1])
        if k == 'cast':
            v = self.operand(r[2], env)
            if v[0] == 'k' or 'Unsize' in r[1] or 'Transmute' not in r[1] and 'Expose' not in r[1]:
                return v
            if 'Expose' in r[1] or v[0] == 'lossy':
                return ('lossy', 'as_ptr', (v,))
            raise Undecided('cast')
        if k == 'addr':
            return ('r', self.place(r[1], env))
        if k == 'len':
            return ('lossy', 'len', (base(self.place(r[1], env)),))
        raise Undecided('expression ' + k)

    def operand(self, o, env):
        if o[0] in ('c', 'm'):
            return self.place(o[1], env)
        if o[0] == 'k':
            c = o[2]
            ty = self.prog.types[o[1]]
            return self.const(c, ty)
        raise Undecided('operand')

    def const(self, c, ty):
        if isinstance(c, dict):
            if 'static' in c:
                return ('static', c['static'])
            if 'adt' in c:
                return ('agg', ('adt', c['adt'], c['v']), tuple(self.const(x, None) for x in c['f']))
            for q in ('b', 'n', 'i', 'u', 'int', 'bool'):
                if q in c:
                    return ('k', int(c[q]))
            return ('const', repr(c))
        if isinstance(c, bool):
            return ('k', int(c))
        if isinstance(c, int):
            return ('k', c)
        if isinstance(c, str):
            try:
                return ('k', int(c))
            except ValueError:
                return ('const', c)
        return ('const', repr(c))

    def place(self, p, env):
        v = env.get(p[0], ('unk',))
        for e in p[1:]:
            if e == '*':
                if v[0] == 'r':
                    v = v[1]
                elif v[0] == 'p':
                    pass              # a reference field: the value behind it
                elif v[0] in ('state', 'const', 'lossy'):
                    pass
                else:
                    raise Undecided('dereference')
            elif e[0] == 'd':
                if v[0] == 'p':
                    v = ('p', v[1], v[2] + (('d', e[1]),))
            elif e[0] == 'f':
                if v[0] == 'p':
                    path = v[2]
                    vr = 0
                    if path and path[-1][0] == 'd':
                        vr = path[-1][1]
                        path = path[:-1]
                    v = ('p', v[1], path + (('f', vr, e[1]),))
                elif v[0] == 'agg' and e[1] < len(v[2]):
                    v = v[2][e[1]]
                else:
                    raise Undecided('field of an unknown value')
            else:
                raise Undecided('projection')
        return v

    # ------------------------------------------------------------ comparisons
    def compare(self, a, b, s, ordered):
        """Yields (state, 'eq'|'ne'|'lt'|'gt')."""
        a, b = base(a), base(b)
        if a[0] == 'agg' and b[0] == 'agg' and len(a[2]) == len(b[2]) and a[1] == b[1]:
            todo = [(s, 'eq')]
            for x, y in zip(a[2], b[2]):
                nxt = []
                for s1, o in todo:
                    if o != 'eq':
                        nxt.append((s1, o))
                    else:
                        nxt += list(self.compare(x, y, s1, ordered))
                todo = nxt
            return todo
        if a[0] == 'agg' and b[0] == 'agg' and a[1][0] == 'adt' and b[1][0] == 'adt' and a[1][1] == b[1][1] and a[1][2] != b[1][2]:
            return [(s, 'lt' if a[1][2] < b[1][2] else 'gt')]
        if a[0] == 'k' and b[0] == 'k':
            return [(s, 'eq' if a[1] == b[1] else 'lt' if a[1] < b[1] else 'gt')]
        if a[0] == 'p' and b[0] == 'p' and a[2] == b[2] and a[1] != b[1]:
            key = ('cmp', a[2])
            flip = a[1] == 1
            m = {'lt': 'gt', 'gt': 'lt'}
            if key in s.facts and not (s.facts[key] == 'ne' and ordered):
                o = s.facts[key]
                return [(s, m.get(o, o) if flip else o)]
            outs = ['lt', 'gt'] if s.facts.get(key) == 'ne' else ['eq', 'lt', 'gt'] if ordered else ['eq', 'ne']
            r = []
            for o in outs:
                s2 = s.copy()
                s2.facts[key] = m.get(o, o) if flip else o
                s2.order.append(a[2])
                r.append((s2, o))
            return r
        if a[0] == 'lossy' and b[0] == 'lossy' and a[1] == b[1] and len(a[2]) == len(b[2]) \
                and all(x[0] == y[0] and (x == y or x[0] == 'p' and x[2] == y[2]) for x, y in zip(a[2], b[2])):
            key = ('lossy', a[1], tuple(x[2] if x[0] == 'p' else x for x in a[2]))
            r = []
            flip = any(x[0] == 'p' and x[1] == 1 for x in a[2])
            m = {'lt': 'gt', 'gt': 'lt'}
            if key in s.facts and not (s.facts[key] == 'ne' and ordered):
                o = s.facts[key]
                return [(s, m.get(o, o) if flip else o)]
            for o in (['eq', 'lt', 'gt'] if ordered else ['eq', 'ne']):
                s2 = s.copy()
                s2.facts[key] = m.get(o, o) if flip else o
                if o != 'eq' and a[1] not in IDENT:
                    s2.lossy_ne = True
                r.append((s2, o))
            return r
        if a[0] == 'lossy' and b[0] in ('k', 'const') or b[0] == 'lossy' and a[0] in ('k', 'const'):
            if 0 in (a[1], b[1]) or any(x[1] in ('is_empty', 'is_some', 'is_none') for x in (a, b)):
                raise Undecided('comparison with nothing')
            key = ('opaque', repr((a, b)))
            r = []
            for o in ('eq', 'lt', 'gt'):
                s2 = s.copy()
                s2.facts[key] = o
                r.append((s2, o))
            return r
        raise Undecided('comparison of %s with %s' % (a[0], b[0]))

    def discr_value(self, v, s):
        v = base(v)
        if v[0] == 'p':
            return ('p', v[1], v[2] + (('disc',),))
        raise Undecided('discriminant')

    # ------------------------------------------------------------------- calls
    def call(self, t, a, s, body, depth):
        if 'f' not in t:
            raise Undecided('indirect call')
        c = t['f']
        path = c['path']
        name = path.split('::')[-1]
        dty = self.prog.types[body['locals'][t['d'][0]]]
        did = body['locals'][t['d'][0]]
        if path.endswith('cmp::PartialEq::eq') or path.endswith('cmp::PartialEq::ne'):
            return [(s2, ('k', int((o == 'eq') == (name == 'eq')))) for s2, o in self.compare(a[0], a[1], s, False)]
        if path.endswith('cmp::Ord::cmp') or path.endswith('cmp::PartialOrd::partial_cmp'):
            r = []
            for s2, o in self.compare(a[0], a[1], s, True):
                r.append((s2, self.ordering(o, did)))
            return r
        if '::PartialOrd::' in path and name in ('lt', 'le', 'gt', 'ge'):
            ok = {'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[name]
            return [(s2, ('k', int(o in ok))) for s2, o in self.compare(a[0], a[1], s, True)]
        if path.startswith('core::cmp::Ordering::'):
            return [(s, self.ord_method(name, a, did, s, body, depth, t))] if name in ('reverse', 'then', 'is_eq', 'is_ne', 'is_lt', 'is_gt', 'is_le', 'is_ge') \
                else self.then_with(a, s, depth) if name == 'then_with' else self.fail(path)
        if path.endswith('mem::discriminant') or name == 'discriminant_value':
            return [(s, self.discr_value(a[0], s))]
        if path.endswith('ptr::eq') or path.endswith('ptr::addr_eq'):
            x, y = base(a[0]), base(a[1])
            r = []
            for o in ('eq', 'ne'):
                s2 = s.copy()
                s2.facts[('lossy', 'as_ptr', (x[2] if x[0] == 'p' else x,))] = o
                if o == 'eq' and x[0] == 'p' and y[0] == 'p' and x[2] == y[2] and x[1] != y[1]:
                    s2.facts[('cmp', x[2])] = 'eq'
                r.append((s2, ('k', int(o == 'eq'))))
            return r
        if name in LOSSY_EQ:
            return self.bool_lossy(name, a, s)
        if path.endswith('hash::Hash::hash') or '::Hasher::write' in path or path.endswith('Hash::hash_slice'):
            vals = a[:1] if path.endswith('hash::Hash::hash') or path.endswith('hash_slice') else a[1:]
            s2 = s.copy()
            s2.writes += [base(v) for v in vals]
            return [(s2, ('agg', ('tuple',), ()))]
        if path.endswith('clone::Clone::clone'):
            return [(s, base(a[0]))]
        if path.startswith('core::panicking') or path.startswith('std::panicking'):
            return []
        inst = c.get('inst')
        i = self.prog.insts[inst] if inst is not None else None
        if i is not None and i['crate'] == self.prog.crate and 'body' in i:
            return self.run(inst, a, s, depth + 1)
        if name in VIEW and a and base(a[0])[0] in ('p', 'agg', 'lossy', 'k'):
            return [(s, base(a[0]))]
        if name in LOSSY + IDENT and a:
            return [(s, ('lossy', name, tuple(base(x) for x in a)))]
        if name == 'eq' and 'Iterator' in path:
            return [(s2, ('k', int(o == 'eq'))) for s2, o in self.compare(a[0], a[1], s, False)]
        if name in ('cmp', 'partial_cmp') and 'Iterator' in path:
            return [(s2, self.ordering(o, did)) for s2, o in self.compare(a[0], a[1], s, True)]
        raise Undecided('call of ' + path)

    def fail(self, path):
        raise Undecided('call of ' + path)

    def bool_lossy(self, name, a, s):
        x, y = base(a[0]), base(a[1])
        if not (x[0] == 'p' and y[0] == 'p' and x[2] == y[2] and x[1] != y[1]):
            raise Undecided(name)
        r = []
        for o in ('eq', 'ne'):
            s2 = s.copy()
            s2.facts[('lossy', name, (x[2],))] = o
            if o == 'ne':
                s2.lossy_ne = True
            r.append((s2, ('k', int(o == 'eq'))))
        return r

    def ordering(self, o, ty):
        t = self.prog.types[ty]
        if t['path'].endswith('Option'):
            inner = next(x for x in t['args'] if isinstance(x, int))
            return ('agg', ('adt', ty, 1), (self.ordering(o, inner),))
        return ('agg', ('adt', ty, {'lt': 0, 'eq': 1, 'gt': 2}[o]), ())

    def ord_of(self, v):
        v = base(v)
        if v[0] == 'agg' and v[1][0] == 'adt' and len(v[2]) == 1:
            v = base(v[2][0])
        if v[0] == 'agg' and v[1][0] == 'adt' and not v[2]:
            return v[1][2] - 1
        raise Undecided('ordering')

    def ord_method(self, name, a, did, s, body, depth, t):
        o = self.ord_of(a[0])
        w = {-1: 'lt', 0: 'eq', 1: 'gt'}
        if name == 'reverse':
            return self.ordering(w[-o], did)
        if name == 'then':
            return a[1] if o == 0 else a[0]
        return ('k', int({'is_eq': o == 0, 'is_ne': o != 0, 'is_lt': o < 0, 'is_gt': o > 0, 'is_le': o <= 0,
                          'is_ge': o >= 0}[name]))

    def then_with(self, a, s, depth):
        if self.ord_of(a[0]) != 0:
            return [(s, a[0])]
        f = base(a[1])
        if f[0] != 'agg' or f[1][0] != 'closure':
            raise Undecided('closure')
        ct = self.prog.types[f[1][1]]
        inst = ct.get('inst')
        if inst is None and 'callee' in ct:
            inst = ct['callee'].get('inst')
        if inst is None:
            raise Undecided('closure')
        return self.run(inst, [f], s, depth + 1)


# ------------------------------------------------------------------- verdicts
def is_zst(prog, ty):
    t = prog.types[ty]
    if t['k'] == 'tuple':
        return all(is_zst(prog, x) for x in t['ts'])
    if t['k'] == 'adt':
        if t['path'].endswith('PhantomData'):
            return True
        return len(t.get('vs') or ()) == 1 and all(is_zst(prog, f[1]) for f in t['vs'][0]['f']) and t['crate'] == prog.crate
    return False


def covered(prog, ty, path, facts, missing, name):
    """Is equality at this path established?"""
    if facts.get(('cmp', path)) == 'eq' or is_zst(prog, ty):
        return True
    t = prog.types[ty]
    if t['k'] == 'ref':
        return covered(prog, t['t'], path, facts, missing, name)
    if t['k'] == 'tuple':
        return all([covered(prog, x, path + (('f', 0, i),), facts, missing, name + '.%d' % i) for i, x in enumerate(t['ts'])])
    if t['k'] == 'adt' and t.get('vs') and (t['crate'] == prog.crate or t['path'].endswith('Option')):
        if len(t['vs']) == 1:
            vr = 0
        else:
            x, y = facts.get(('var', 0, path)), facts.get(('var', 1, path))
            if facts.get(('cmp', path + (('disc',),))) == 'eq':
                vr = x if x is not None else y
                if vr is None:
                    if all(all(is_zst(prog, f[1]) for f in v['f']) for v in t['vs']):
                        return True
                    missing.append(name + ' (the fields of its variants)')
                    return False
            elif x is None or x != y:
                missing.append(name + ' (its variant)')
                return False
            else:
                vr = x
        fs = t['vs'][vr]['f']
        ok = True
        for i, f in enumerate(fs):
            vn = t['vs'][vr]['n']
            nm = '%s.%s' % (name, f[0]) if len(t['vs']) == 1 else '%s::%s.%s' % (name, vn, f[0])
            if not covered(prog, f[1], path + (('f', vr, i),), facts, missing, nm):
                ok = False
        if ok:
            return True
        if not fs:
            return True
        return False
    missing.append(name)
    return False


def differs(facts):
    for k, v in facts.items():
        if k[0] == 'cmp' and v in ('ne', 'lt', 'gt'):
            return True
        if k[0] == 'var' and k[1] == 0 and facts.get(('var', 1, k[2]), v) != v:
            return True
    return False


def has_lossy(facts):
    return sorted({k[1] for k in facts if k[0] == 'lossy'})


def check_eq(prog, ty, inst, negate=False):
    """Problems of a PartialEq::eq (or ne)."""
    sy = Sym(prog)
    a, b = ('r', ('p', 0, ())), ('r', ('p', 1, ()))
    out = []
    nm = prog.nn(ty)
    leaves = sy.run(inst, [a, b])
    for s, v in leaves:
        v = base(v)
        if v[0] != 'k':
            raise Undecided('result')
        r = bool(v[1]) != negate
        if r:
            miss = []
            if not covered(prog, ty, (), s.facts, miss, nm):
                why = 'a path reports two values equal without comparing %s' % ', '.join(miss[:3])
                l = has_lossy(s.facts)
                if l:
                    why += ' (only %s)' % ', '.join(l)
                out.append(why)
        else:
            if not differs(s.facts) and not s.lossy_ne:
                miss = []
                if covered(prog, ty, (), s.facts, miss, nm) or has_lossy(s.facts) and all(x in IDENT for x in has_lossy(s.facts)) \
                        or not s.facts:
                    out.append('a path reports two values different although nothing it compared differs')
                else:
                    out.append('a path reports two values different although nothing it compared differs')
    return sorted(set(out)), len(leaves)


def mirror(facts):
    m = {'lt': 'gt', 'gt': 'lt'}
    out = {}
    for k, v in facts.items():
        if k[0] == 'var':
            out[('var', 1 - k[1], k[2])] = v
        else:
            out[k] = m.get(v, v)
    return out


def order_table(prog, inst):
    sy = Sym(prog)
    a, b = ('r', ('p', 0, ())), ('r', ('p', 1, ()))
    t = []
    for s, v in sy.run(inst, [a, b]):
        v = base(v)
        none = v[0] == 'agg' and v[1][0] == 'adt' and v[1][2] == 0 and not v[2] and prog.types[v[1][1]]['path'].endswith('Option')
        t.append((s, None if none else sy.ord_of(v)))
    return t


def check_order(prog, ty, inst, other_derived):
    out = []
    nm = prog.nn(ty)
    t = order_table(prog, inst)
    for s, o in t:
        if o is None:
            out.append('a path leaves two values unordered')
            continue
        if o == 0:
            miss = []
            if not covered(prog, ty, (), s.facts, miss, nm):
                l = has_lossy(s.facts)
                out.append('a path orders two values as equal without comparing %s%s' % (', '.join(miss[:3]), ' (only %s)' % ', '.join(l) if l else ''))
        else:
            if not differs(s.facts) and not s.lossy_ne:
                out.append('a path orders two values as different although nothing it compared differs')
            m = mirror(s.facts)
            for s2, o2 in t:
                if s2.facts == m and o2 is not None and o2 != -o:
                    out.append('comparing the other way round does not give the opposite order')
            if other_derived and whole(s.facts) is not None and whole(s.facts) != o:
                out.append('PartialOrd and Ord disagree')
            elif other_derived:
                e = lexicographic(prog, ty, s.facts)
                if e is not None and e != o:
                    out.append('PartialOrd and Ord disagree')
                elif e is None and s.lossy_ne and not any(k[0] == 'cmp' for k in s.facts):
                    out.append('PartialOrd and Ord disagree (one goes by %s)' % ', '.join(has_lossy(s.facts)))
    return sorted(set(out)), len(t)


def whole(facts):
    v = facts.get(('cmp', ()))
    return {'lt': -1, 'gt': 1, 'eq': 0}.get(v)


def lexicographic(prog, ty, facts):
    """Order that derive would give, if the facts tell."""
    t = prog.types[ty]
    if t['k'] != 'adt':
        return None
    vr = 0
    if len(t['vs']) > 1:
        x, y = facts.get(('var', 0, ())), facts.get(('var', 1, ()))
        if x is None or y is None:
            return None
        if x != y:
            return -1 if x < y else 1
        vr = x
    for i, f in enumerate(t['vs'][vr]['f']):
        if is_zst(prog, f[1]):
            continue
        v = facts.get(('cmp', (('f', vr, i),)))
        if v in ('lt', 'gt'):
            return -1 if v == 'lt' else 1
        if v != 'eq':
            return None
    return 0


def check_clone(prog, ty, inst):
    sy = Sym(prog)
    out = []
    leaves = sy.run(inst, [('r', ('p', 0, ()))])
    for s, v in leaves:
        p = same(prog, ty, base(v), (), s.facts, prog.nn(ty))
        if p:
            out.append(p)
    return sorted(set(out)), len(leaves)


def same(prog, ty, v, path, facts, name):
    v = base(v)
    if v == ('p', 0, path):
        return None
    if is_zst(prog, ty):
        return None
    if v[0] == 'agg' and v[1][0] == 'adt':
        t = prog.types[v[1][1]]
        if len(t['vs']) > 1:
            f = facts.get(('var', 0, path))
            if f is None:
                raise Undecided('variant')
            if f != v[1][2]:
                return '%s: the copy has variant %s where the original has %s' % (name, t['vs'][v[1][2]]['n'], t['vs'][f]['n'])
        for i, x in enumerate(v[2]):
            fd = t['vs'][v[1][2]]['f'][i]
            r = same(prog, fd[1], x, path + (('f', v[1][2], i),), facts, name + '.' + fd[0])
            if r:
                return r
        return None
    if v[0] == 'agg':
        t = prog.types[ty]
        for i, x in enumerate(v[2]):
            r = same(prog, t['ts'][i], x, path + (('f', 0, i),), facts, name + '.%d' % i)
            if r:
                return r
        return None
    if v[0] == 'p':
        return '%s of the copy is taken from another place of the original' % name
    if v[0] == 'k' or v[0] == 'const':
        return '%s of the copy is a constant' % name
    if v[0] == 'lossy':
        return '%s of the copy is only %s of the original' % (name, v[1])
    raise Undecided('copied value')


def check_hash(prog, ty, inst, eq_structural=True):
    sy = Sym(prog)
    out = []
    leaves = sy.run(inst, [('r', ('p', 0, ())), ('r', ('state',))])
    n = 0
    for s, v in leaves:
        for w in s.writes:
            n += 1
            if mentions(w, IDENT):
                out.append('the hash depends on an address')
            elif w[0] == 'static':
                out.append('the hash depends on %s' % w[1])
    return sorted(set(out)), len(leaves)


def mentions(v, names):
    if v[0] == 'lossy':
        return v[1] in names or any(mentions(x, names) for x in v[2] if isinstance(x, tuple))
    if v[0] == 'agg':
        return any(mentions(x, names) for x in v[2])
    if v[0] == 'r':
        return mentions(v[1], names)
    return False
