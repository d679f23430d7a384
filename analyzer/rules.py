"""Rules over the type-checked program: purity (C20), structural traits (C19), borrowed text (C17)."""
import re

import structural
import values


class Rule:
    """Outcome of one rule family: what was looked at, what is wrong, what is not understood."""

    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.problems = []      # (root, kind, detail, where)
        self.undecided = []     # (root, why)
        self.looked = {}


# ------------------------------------------------------------------- C20
DENY = (
    ('std::env::', 'the environment'), ('std::fs::', 'the file system'), ('std::net::', 'the network'),
    ('std::os::', 'the operating system'), ('std::process::', 'processes'), ('std::thread::', 'threads or thread-local state'),
    ('std::time::', 'the clock'), ('std::sys::', 'the operating system'), ('std::io::stdio', 'standard streams'),
    ('std::io::Stdin', 'standard streams'), ('std::backtrace', 'the call stack'), ('std::panic::set_hook', 'the panic hook'),
    ('std::panicking::set_hook', 'the panic hook'), ('std::panic::take_hook', 'the panic hook'),
    ('std::panicking::take_hook', 'the panic hook'), ('std::panicking::panicking', 'the state of the thread'),
    ('std::hash::random::RandomState::new', 'randomness'), ('core::core_arch::', 'processor state'),
    ('std::random', 'randomness'),
) + tuple(('std::path::Path::' + m, 'the file system') for m in (
    'exists', 'try_exists', 'is_file', 'is_dir', 'is_symlink', 'metadata', 'symlink_metadata', 'canonicalize', 'read_dir', 'read_link'))
HASH_ITER = re.compile(r'std::collections::hash::(map|set)::.*::(iter|keys|values|into_iter|drain|into_keys|into_values|next|retain)$')
LAZY = ('LazyLock', 'Once')
ONCE = ('OnceLock', 'OnceCell')


def refs(prog, x, out, statics):
    """Instances and statics mentioned in a body."""
    if isinstance(x, dict):
        if 'static' in x and isinstance(x['static'], str):
            statics.add(x['static'])
        if 'inst' in x and isinstance(x['inst'], int):
            out.add(x['inst'])
        for v in x.values():
            refs(prog, v, out, statics)
    elif isinstance(x, list):
        for v in x:
            refs(prog, v, out, statics)


def callees(prog, k):
    """(instances, statics, callee paths, oddities) of one body."""
    body = prog.insts[k]['body']
    out, statics = set(), set()
    refs(prog, body['blocks'], out, statics)
    odd = set()
    paths = []
    for b in body['blocks']:
        t = b['t']
        if t['k'] == 'asm':
            odd.add('asm')
        if t['k'] == 'call' and 'f' in t:
            paths.append((t['f'], t))
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'tls':
                odd.add('tls')
    for ty in body['locals']:
        types_in(prog, ty, out, set())
    return out, statics, paths, odd


def types_in(prog, ty, out, seen):
    if ty in seen or len(seen) > 200:
        return
    seen.add(ty)
    t = prog.types[ty]
    if t['k'] == 'closure':
        if t.get('inst') is not None:
            out.add(t['inst'])
    elif t['k'] == 'fndef':
        i = t['callee'].get('inst')
        if i is not None:
            out.add(i)


def purity(prog, roots):
    r = Rule()
    statics = {s['path']: s for s in prog.d['statics']}
    drops = [m['inst'] for t in prog.d['trait_impls'] if t['trait'].endswith('ops::Drop') or t['trait'].endswith('::Drop')
             for m in t['methods'] if 'inst' in m]
    parent = {}
    work = []
    for k in list(roots) + drops:
        if k is not None and k not in parent:
            parent[k] = None
            work.append(k)
    calls = 0
    seen_static = set()
    oncecalls = []

    def trace(k):
        p = []
        while k is not None:
            p.append(prog.insts[k]['npath'])
            k = parent[k]
        return ' <- '.join(p[:6])
    while work:
        k = work.pop()
        i = prog.insts[k]
        if i is None:
            continue
        why = denied(i['npath'])
        if why:
            who = parent[k]
            r.problems.append((prog.insts[who]['npath'] if who is not None else i['npath'], 'effect',
                               'calls %s, so parsing touches %s; reached by %s' % (i['npath'], why, trace(k)), loc(prog, who if who is not None else k)))
            continue
        if 'body' not in i:
            continue
        out, st, paths, odd = callees(prog, k)
        own = i['crate'] not in ('core', 'alloc', 'std')
        for p, t in paths:
            calls += 1
            if any('::' + o + '::' in p['path'] or '::' + o + '<' in p['path'] for o in ONCE):
                oncecalls.append((k, p, t))
            if own and p.get('inst') is None:
                why = denied(p['path'])
                if why:
                    r.problems.append((i['npath'], 'effect', 'calls %s, so parsing touches %s; reached by %s' % (p['path'], why, trace(k)), loc(prog, k)))
        for s in st:
            seen_static.add(s)
            info = statics.get(s)
            if info is None:
                continue
            bad = None
            if info['mut']:
                bad = 'a mutable static'
            elif not info['freeze']:
                tn = info['tpath'].split('::')[-1]
                if tn in LAZY:
                    pass
                elif tn in ONCE:
                    pass
                else:
                    bad = 'a static with interior mutability (%s)' % tn
            if bad:
                r.problems.append((i['npath'], 'state', 'uses %s, %s, so parsers share state between calls; reached by %s' % (s, bad, trace(k)), loc(prog, k)))
        if own and 'asm' in odd:
            r.problems.append((i['npath'], 'effect', 'inline assembly', loc(prog, k)))
        if own and 'tls' in odd:
            r.problems.append((i['npath'], 'state', 'uses thread-local state; reached by %s' % trace(k), loc(prog, k)))
        if i['crate'] == prog.crate:
            for what in addresses(prog, i['body']):
                r.problems.append((i['npath'], 'effect', '%s, so the outcome depends on where things lie in memory; reached by %s' % (what, trace(k)), loc(prog, k)))
        for c in out:
            if c not in parent:
                parent[c] = k
                work.append(c)
    # a cell written once must be filled from nothing but constants
    if any(statics[s]['tpath'].split('::')[-1] in ONCE for s in seen_static if s in statics):
        for k, p, t in oncecalls:
            n = p['path'].split('::')[-1]
            if prog.insts[k]['crate'] != prog.crate:
                continue
            if n in ('get_or_init', 'get_or_try_init'):
                tys = [x for x in p['args'] if isinstance(x, int)]
                cl = [x for x in tys if prog.types[x]['k'] == 'closure']
                if any(upvars(prog, x) for x in cl):
                    r.problems.append((prog.insts[k]['npath'], 'state', 'a static cell is filled from a value of one call; reached by %s' % trace(k), loc(prog, k)))
            elif n in ('set', 'take', 'try_insert', 'get_mut_or_init'):
                r.problems.append((prog.insts[k]['npath'], 'state', 'a static cell is written by a call; reached by %s' % trace(k), loc(prog, k)))
    for f in prog.d['foreign']:
        r.undecided.append((f, 'foreign functions are declared'))
    # auto traits
    tree = tree_types(prog)
    for a in prog.d['adts']:
        if a['ty'] not in tree and prog.nn(a['ty']) not in {prog.nn(x) for x in tree}:
            continue
        r.obligations += 2
        for tr in ('send', 'sync'):
            if a[tr]:
                r.discharged += 1
            else:
                r.problems.append((prog.nn(a['ty']), 'auto trait', '%s is not %s' % (a['path'], tr.capitalize()), a['path']))
    r.obligations += len(parent)
    r.discharged += len(parent) - len({p[0] for p in r.problems if p[1] != 'auto trait'})
    r.looked = {'functions reached': len(parent), 'call sites': calls, 'statics': len(prog.d['statics']),
                'statics reached': len(seen_static), 'tree types': len(tree)}
    return r


def denied(path):
    for p, why in DENY:
        if path.startswith(p) or path.startswith('<' + p):
            return why
    if HASH_ITER.match(path):
        return 'the random iteration order of a hash table'
    return None


ADDR_CALL = re.compile(r'core::ptr::.*::(addr|expose_provenance|expose_addr)$')
COMPARE = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp')
DIGEST = ('BitAnd', 'BitXor', 'Rem', 'Div', 'Shr', 'ShrUnchecked')


def addresses(prog, body):
    """Uses of an address as a number, other than the distance or order of two addresses.
    A function that reads through raw pointers may look at alignment, and is left alone."""
    boxes = {s[1][0] for b in body['blocks'] for s in b['s'] if s[0] == '=' and s[2][0] == 'cast' and str(s[2][1]).startswith('BoxDeref')}

    def mentions_deref(x):
        return isinstance(x, list) and x and isinstance(x[0], int) and any(
            e == 'deref' or e == '*' or (isinstance(e, list) and e and e[0] in ('deref', '*')) for e in x[1:]) and \
            prog.types[body['locals'][x[0]]]['k'] == 'ptr' and x[0] not in boxes

    def places(x):
        if mentions_deref(x):
            return True
        return isinstance(x, list) and any(places(y) for y in x)
    addr = set()
    out = set()

    def whole(op):
        return op[1][0] if op[0] in ('c', 'm') and len(op[1]) == 1 else None
    for _ in range(20):
        n = len(addr)
        for b in body['blocks']:
            for s in b['s']:
                if s[0] != '=' or len(s[1]) != 1:
                    continue
                d, rv = s[1][0], s[2]
                if rv[0] == 'cast':
                    if str(rv[1]).startswith('PointerExpose') or whole(rv[2]) in addr and str(rv[1]).startswith('IntToInt'):
                        addr.add(d)
                elif rv[0] == 'use' and whole(rv[1]) in addr:
                    addr.add(d)
                elif rv[0] == 'bin' and rv[1] in ('Add', 'Sub') and (whole(rv[2]) in addr) != (whole(rv[3]) in addr):
                    addr.add(d)
            t = b['t']
            if t['k'] == 'call' and 'f' in t:
                p = t['f']['path']
                if ADDR_CALL.match(p) and 'd' in t and len(t['d']) == 1:
                    addr.add(t['d'][0])
                if re.search(r'fmt::rt::Argument.*::new_pointer$', p):
                    out.add('formats an address')
        if len(addr) == n:
            break
    if addr and not any(places(s) for b in body['blocks'] for s in b['s']) and not any(
            b['t']['k'] == 'call' and 'f' in b['t'] and re.match(r'core::ptr::.*(read|write|copy)', b['t']['f']['path']) for b in body['blocks']):
        for b in body['blocks']:
            for s in b['s']:
                if s[0] != '=' or s[2][0] not in ('bin', 'cbin'):
                    continue
                op = s[2][1]
                x, y = whole(s[2][2]) in addr, whole(s[2][3]) in addr
                if op in DIGEST and (x or y) or op in COMPARE and x != y and not zero(s[2][3 if x else 2]):
                    out.add('computes %s of an address' % op)
    return sorted(out)


def zero(op):
    return op[0] == 'k' and re.search(r"\b0\b", str(op[2])) is not None and re.search(r'[1-9]', str(op[2])) is None


def upvars(prog, ty):
    t = prog.types[ty]
    u = t.get('up')
    if u is None:
        return True
    return bool(prog.types[u].get('ts'))


def loc(prog, k):
    i = prog.insts[k]
    return '%s:%s' % (i.get('file'), i.get('line'))


# ------------------------------------------------------------- tree types
def tree_types(prog):
    """Type ids of everything a parser can return, through fields."""
    seen = {}
    work = []
    for p in prog.d['parse_impls']:
        if isinstance(p.get('ty'), int):
            work.append((p['ty'], prog.nn(p['ty'])))
    while work:
        t, via = work.pop()
        if t in seen:
            continue
        seen[t] = via
        ty = prog.types[t]
        k = ty['k']
        nxt = []
        if k == 'adt':
            nxt += [(x, prog.nn(t)) for x in ty['args'] if isinstance(x, int)]
            if ty['crate'] == prog.crate:
                for v in ty['vs']:
                    nxt += [(f[1], '%s.%s' % (prog.nn(t), f[0])) for f in v['f']]
        elif k == 'tuple':
            nxt += [(x, via) for x in ty['ts']]
        elif k in ('ref', 'ptr', 'slice', 'array'):
            nxt.append((ty['t'], via))
        work += nxt
    return seen


OWNED = ('String', 'Cow', 'OsString', 'CString', 'PathBuf', 'Rc', 'Arc')


def borrowed(prog):
    """Every text in the tree is a borrowed &str."""
    r = Rule()
    for t, via in sorted(tree_types(prog).items()):
        ty = prog.types[t]
        k = ty['k']
        if k == 'adt' and ty['crate'] != prog.crate:
            r.obligations += 1
            n = ty['path'].split('::')[-1]
            a = [prog.nn(x) for x in ty['args'] if isinstance(x, int)]
            if n in ('String', 'OsString', 'CString', 'PathBuf') or n in ('Box', 'Rc', 'Arc', 'Cow') and a and a[0] == 'str':
                r.problems.append((via, 'owned text', '%s holds a %s: a copy of the text, not a slice of the input' % (via, prog.nn(t)), via))
            elif n in ('Option', 'Vec', 'Box', 'PhantomData', 'Global'):
                r.discharged += 1
            else:
                r.undecided.append((via, 'holds a ' + prog.nn(t)))
        elif k in ('ptr', 'fnptr', 'dyn'):
            r.obligations += 1
            r.undecided.append((via, 'holds a ' + prog.nn(t)))
        elif k == 'str':
            r.obligations += 1
            r.discharged += 1
    r.looked = {'types': len(tree_types(prog))}
    return r


# ------------------------------------------------------------------- C19
TRAITS = ('PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash', 'Clone')


def structure(prog):
    r = Rule()
    tree = tree_types(prog)
    bypath = {}
    for t in tree:
        ty = prog.types[t]
        if ty['k'] == 'adt' and ty['crate'] == prog.crate:
            p = ty['path']
            p = p.replace('crate::', prog.crate + '::', 1) if p.startswith('crate::') else p
            bypath.setdefault(p, t)
    impls = {}
    for i in prog.d['trait_impls']:
        n = i['trait'].split('::')[-1]
        if n in TRAITS and i['tcrate'] in ('core', 'std', 'alloc'):
            impls.setdefault((i['self'], n), []).append(i)
    derived = manual = 0
    for p, t in sorted(bypath.items()):
        for tr in TRAITS:
            r.obligations += 1
            c = impls.get((p, tr), [])
            own = [i for i in c if i['builtin']]
            hand = [i for i in c if not i['builtin']]
            # comparisons with other types (PartialEq<str>) are not this property
            if tr in ('PartialEq', 'PartialOrd') and own:
                hand = []
            if not c:
                r.problems.append((prog.nn(t), tr, '%s does not implement %s' % (p, tr), p))
                continue
            if own and not hand:
                derived += 1
                r.discharged += 1
                continue
            manual += 1
            i = hand[0]
            where = '%s:%s' % (i['file'], i['line'])
            try:
                bad = decide_manual(prog, t, tr, hand, impls, p)
            except Exception as e:
                why = str(e) if isinstance(e, structural.Undecided) else '%s: %s' % (type(e).__name__, e)
                bad = None
                for h in hand:
                    ms = {m['name']: m.get('inst') for m in h['methods']}
                    first = next((x for x in ms.values() if x is not None), None)
                    if not rhs_differs(prog, first):
                        bad = bad or values.trait(prog, tr, ms, self_type(prog, first, t))
                if bad:
                    r.problems.append((prog.nn(t), tr, 'impl %s for %s: %s; the path analysis stops at: %s' % (tr, p, bad, why), where))
                else:
                    r.undecided.append(('%s for %s' % (tr, prog.nn(t)), why))
                continue
            if bad:
                for b in bad:
                    r.problems.append((prog.nn(t), tr, 'impl %s for %s: %s' % (tr, p, b), where))
            else:
                r.discharged += 1
    # what the fields bottom out in
    for t, via in sorted(tree.items()):
        ty = prog.types[t]
        k = ty['k']
        r.obligations += 1
        if k == 'ptr':
            r.problems.append((via, 'pointer', '%s holds a raw pointer, which compares by address' % via, via))
        elif k in ('fnptr', 'dyn', 'float', 'closure'):
            r.undecided.append((via, 'holds a ' + prog.nn(t)))
        elif k == 'adt' and ty['crate'] != prog.crate and ty['path'].split('::')[-1] not in (
                'Option', 'Vec', 'Box', 'PhantomData', 'Global', 'String', 'Cow', 'Rc', 'Arc'):
            if ty['path'].split('::')[-1] in ('NonNull', 'AtomicPtr'):
                r.problems.append((via, 'pointer', '%s holds a raw pointer, which compares by address' % via, via))
            else:
                r.undecided.append((via, 'holds a ' + prog.nn(t)))
        else:
            r.discharged += 1
    r.looked = {'tree types': len(bypath), 'derived impls': derived, 'hand-written impls': manual}
    return r


def decide_manual(prog, t, tr, hand, impls, p):
    bad = []
    for i in hand:
        ms = {m['name']: m.get('inst') for m in i['methods']}
        if tr == 'PartialEq':
            ty = self_type(prog, ms.get('eq'), t)
            if rhs_differs(prog, ms.get('eq')):
                continue
            bad += structural.check_eq(prog, ty, need(ms, 'eq'))[0]
            if 'ne' in ms:
                bad += structural.check_eq(prog, ty, need(ms, 'ne'), negate=True)[0]
        elif tr in ('Ord', 'PartialOrd'):
            m = 'cmp' if tr == 'Ord' else 'partial_cmp'
            if rhs_differs(prog, ms.get(m)):
                continue
            other = 'PartialOrd' if tr == 'Ord' else 'Ord'
            od = any(x['builtin'] for x in impls.get((p, other), []))
            ty = self_type(prog, ms.get(m), t)
            bad += structural.check_order(prog, ty, need(ms, m), od)[0]
            extra = set(ms) - {m}
            if extra:
                raise structural.Undecided('overrides ' + ', '.join(sorted(extra)))
            if not od and tr == 'Ord':
                o = impls.get((p, 'PartialOrd'), [])
                for x in o:
                    for q in x['methods']:
                        if q['name'] == 'partial_cmp' and q.get('inst') is not None:
                            bad += agree(prog, need(ms, 'cmp'), q['inst'])
        elif tr == 'Clone':
            ty = self_type(prog, ms.get('clone'), t)
            bad += structural.check_clone(prog, ty, need(ms, 'clone'))[0]
        elif tr == 'Hash':
            ty = self_type(prog, ms.get('hash'), t)
            bad += structural.check_hash(prog, ty, need(ms, 'hash'))[0]
    return sorted(set(bad))


def agree(prog, cmp_, partial):
    a = structural.order_table(prog, cmp_)
    b = structural.order_table(prog, partial)
    for s, o in b:
        w = structural.whole(s.facts)
        if w is not None:
            if o != w:
                return ['PartialOrd and Ord disagree']
            continue
        for s2, o2 in a:
            if s2.facts == s.facts and o2 != o:
                return ['PartialOrd and Ord disagree']
    return []


def need(ms, n):
    if ms.get(n) is None:
        raise structural.Undecided('no body for ' + n)
    return ms[n]


def self_type(prog, inst, t):
    if inst is None or prog.insts[inst] is None or 'body' not in prog.insts[inst]:
        return t
    a = prog.types[prog.insts[inst]['body']['locals'][1]]
    return a['t'] if a['k'] == 'ref' else t


def rhs_differs(prog, inst):
    if inst is None or prog.insts[inst] is None or 'body' not in prog.insts[inst]:
        return False
    l = prog.insts[inst]['body']['locals']
    return len(l) > 2 and l[1] != l[2]


# ------------------------------------------------------------------- C24
def conversions(prog):
    """From<member> of every choice type wraps its argument, unchanged, in the variant for that member."""
    r = Rule()
    tree = tree_types(prog)
    enums = {}
    for t in tree:
        ty = prog.types[t]
        if ty['k'] == 'adt' and ty['crate'] == prog.crate and ty.get('ak') == 'enum':
            enums.setdefault(prog.nn(t), ty)
    done = set()
    for i in prog.d['trait_impls']:
        if i['trait'].split('::')[-1] != 'From':
            continue
        for m in i['methods']:
            k = m.get('inst')
            if m['name'] != 'from' or k is None or prog.insts[k] is None or 'body' not in prog.insts[k]:
                continue
            body = prog.insts[k]['body']
            to, frm = prog.nn(body['locals'][0]), prog.nn(body['locals'][1])
            if to not in enums:
                continue
            vs = [j for j, v in enumerate(enums[to]['vs']) if len(v['f']) == 1 and prog.nn(v['f'][0][1]) == frm]
            if not vs:
                continue
            where = '%s:%s' % (i['file'], i['line'])
            done.add((to, frm))
            r.obligations += 1
            try:
                outs = structural.Sym(prog).run(k, [('whole',)])
                bad = None
                for s, v in outs:
                    if v[0] != 'agg' or v[1][0] != 'adt':
                        raise structural.Undecided('result is not understood')
                    if v[1][2] not in vs:
                        bad = 'yields %s' % enums[to]['vs'][v[1][2]]['n']
                    elif v[2] != (('whole',),):
                        raise structural.Undecided('content is not understood')
                if not outs:
                    raise structural.Undecided('never returns')
                if bad:
                    r.problems.append((to, 'From<%s>' % frm, 'impl From<%s> for %s %s, not %s' % (frm, to, bad, enums[to]['vs'][vs[0]]['n']), where))
                else:
                    r.discharged += 1
            except Exception as e:
                why = str(e) if isinstance(e, structural.Undecided) else '%s: %s' % (type(e).__name__, e)
                bad = values.conversion(prog, k, vs)
                if bad:
                    r.problems.append((to, 'From<%s>' % frm, 'impl From<%s> for %s %s; the path analysis stops at: %s' % (frm, to, bad, why), where))
                else:
                    r.undecided.append(('From<%s> for %s' % (frm, to), why))
    for n, ty in sorted(enums.items()):
        pay = [prog.nn(v['f'][0][1]) for v in ty['vs'] if len(v['f']) == 1]
        for p in pay:
            if (n, p) not in done and pay.count(p) == 1:
                r.obligations += 1
                r.problems.append((n, 'From<%s>' % p, '%s has no conversion from %s' % (n, p), ty['path']))
    r.looked = {'choice types': len(enums), 'conversions': len(done)}
    return r


# ------------------------------------------------------------------- C22
OPENS = {'OpenParen', 'OpenBracket', 'OpenBrace', 'LessThan'}
CLOSES = {'CloseParen', 'CloseBracket', 'CloseBrace', 'GreaterThan'}


def cycles(g):
    """Strongly connected parts with a cycle, without recursion."""
    idx, low, on, st, out = {}, {}, set(), [], []
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(sorted(g[r])))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for c in it:
                if c not in g:
                    continue
                if c not in idx:
                    idx[c] = low[c] = len(idx)
                    st.append(c)
                    on.add(c)
                    work.append((c, iter(sorted(g[c]))))
                    break
                if c in on:
                    low[v] = min(low[v], idx[c])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        s.append(x)
                        if x == v:
                            break
                    if len(s) > 1 or v in g[v]:
                        out.append(s)
    return out


def shortest(g, part):
    """A shortest cycle inside a part, as a list of nodes."""
    best = None
    s = set(part)
    for r in sorted(part)[:50]:
        prev = {r: None}
        work = [r]
        hit = None
        while work and hit is None:
            nxt = []
            for v in work:
                for c in sorted(g[v]):
                    if c == r:
                        hit = v
                        break
                    if c in s and c not in prev:
                        prev[c] = v
                        nxt.append(c)
                if hit is not None:
                    break
            work = nxt
        if hit is not None:
            p = []
            while hit is not None:
                p.append(hit)
                hit = prev[hit]
            p.reverse()
            if best is None or len(p) < len(best):
                best = p
    return best or list(part)


def recursion(prog, roots, nest, asked):
    """Calls come back to a function only by way of a construct nested in brackets."""
    r = Rule()
    g = {}
    work = [k for k in roots if k is not None]
    seen = set(work)
    while work:
        k = work.pop()
        i = prog.insts[k]
        if i is None or 'body' not in i:
            continue
        out, _, _, _ = callees(prog, k)
        if i['npath'].endswith('}') and not any(t['k'] == 'call' and t.get('f', {}).get('inst') == k for t in (b['t'] for b in i['body']['blocks'])):
            out.discard(k)           # a closure mentions its own type
        g[k] = out
        for c in out:
            if c not in seen:
                seen.add(c)
                work.append(c)
    legit = {prog.parse_inst[n] for n in nest if n in prog.parse_inst}
    cut = {k: {c for c in v if c in g and c not in legit} for k, v in g.items() if k not in legit}
    r.obligations = len(g)
    bad = 0
    for part in cycles(cut):
        if not any(prog.insts[k]['crate'] == prog.crate for k in part):
            continue
        p = shortest(cut, part)
        names = [prog.insts[k]['npath'] for k in p]
        own = [k for k in p if prog.insts[k]['crate'] == prog.crate]
        bad += len(part)
        r.problems.append((prog.insts[own[0] if own else p[0]]['npath'], 'recursion',
                           'calls itself (%s) without entering a nested construct, so the stack grows with the length of the text' % ' -> '.join(names + names[:1]),
                           loc(prog, own[0] if own else p[0])))
    # grammar types that come back to themselves without a bracket having been opened
    flat = {n: set() for n in nest}
    edges = 0
    for n, log in asked:
        for w, c in log:
            edges += 1
            d = sum(1 for t in w if t in OPENS) - sum(1 for t in w if t in CLOSES)
            if d <= 0 and w:
                flat.setdefault(n, set()).add(c)
            elif not w:
                flat.setdefault(n, set()).add(c)
    for part in cycles(flat):
        p = shortest(flat, part)
        r.problems.append((p[0], 'recursion', '%s: each asks for the next outside any bracket, so the stack grows with the length of the text' % ' -> '.join(p + p[:1]),
                           loc(prog, prog.parse_inst[p[0]]) if p[0] in prog.parse_inst else ''))
    r.obligations += len(flat)
    r.discharged = r.obligations - bad - sum(1 for x in r.problems if x[1] == 'recursion' and x[0] in flat)
    r.looked = {'functions': len(g), 'calls': sum(len(v) for v in g.values()), 'grammar_recursion_points': len(legit), 'grammar_edges': edges}
    return r
