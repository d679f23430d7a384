"""All comparisons for one tree, in parallel, and their attribution to properties."""
import multiprocessing as mp
import os
import re
import sys
import time

import compose
import effort
import interp
import lexcheck
import lexical
import limits
import mir
import refparse
import rules
import spec

sys.setrecursionlimit(20000)
PROG = None
HELPERS = {}


def helper(inst):
    return HELPERS.get(inst)


def sp_candidates(prog):
    """Free functions &str -> IResult<&str, &str> (or unit) of the crate."""
    out = []
    for f in prog.d['fns']:
        k = f.get('inst')
        if k is None or f['generic'] or f['trait_impl'] or prog.insts[k] is None or 'body' not in prog.insts[k]:
            continue
        b = prog.insts[k]['body']
        if b['argc'] != 1 or prog.nn(b['locals'][1]) != '&str':
            continue
        r = prog.nn(b['locals'][0])
        if r.startswith('Result<(&str,&str)') or r.startswith('Result<(&str,())'):
            out.append(k)
    return out


def reachable(prog, k):
    seen = set()
    todo = [k]
    while todo:
        k = todo.pop()
        if k in seen or prog.insts[k] is None or 'body' not in prog.insts[k]:
            continue
        seen.add(k)
        todo.extend(rules.callees(prog, k)[0])
    return seen


DEADLINE = None
TASK_LIMIT = 150
SIDE = set()              # candidates no punctuation symbol uses: not the trivia skipper in use
NEST = effort.nesting()
SLOW = False              # the trivia skipper alone already exhausts its limit, and everything uses it


def task(t):
    kind, name, inst = t
    left = TASK_LIMIT if DEADLINE is None else min(TASK_LIMIT, DEADLINE - time.time())
    if name == 'sp' and inst in SIDE:
        left = min(left, 20)
    if left < 1:
        return kind, name, 'not analysed: the time for this run is used up'
    try:
        with limits.limit(left):
            if kind == 'lex':
                r = lexcheck.compare(PROG, name, inst, lexcheck.expected_shape(name), **(dict(budget=6.0, exact_limit=10.0) if SLOW else {}))
                return kind, name, r
            if kind == 'eff':
                return kind, name, effort.check(PROG, name, inst, NEST, helper)
            if kind == 'com':
                expr = spec.DOCUMENT if name == 'parse' else spec.GENERIC.get(name) or spec.expr_of(name)
                return kind, name, compose.check(PROG, name, inst, expr, helper, **(dict(budget=3.0, explore_limit=12.0) if SLOW else {}))
    except (Exception, RecursionError) as e:
        return kind, name, '%s: %s' % (type(e).__name__, e)


class Finding:
    def __init__(self, root, kind, props, text, detail, where=''):
        self.root = root
        self.kind = kind
        self.props = set(props)
        self.text = text
        self.detail = detail
        self.where = where

    def key(self, prop):
        return '%s|%s|%s' % (prop, self.root, self.kind)


# ------------------------------------------------------------------ attribution
FILE_PROPS = {}
for _n in ('CallbackDefinition CallbackInterfaceDefinition InterfaceDefinition InterfaceMixinDefinition '
           'NamespaceDefinition DictionaryDefinition PartialInterfaceDefinition PartialInterfaceMixinDefinition '
           'PartialDictionaryDefinition PartialNamespaceDefinition EnumDefinition TypedefDefinition '
           'IncludesStatementDefinition ImplementsDefinition Inheritance Definition').split():
    FILE_PROPS[_n] = {'C10'}
for _n in ('ConstMember AttributeInterfaceMember ConstructorInterfaceMember OperationInterfaceMember '
           'SingleTypedIterable DoubleTypedIterable SingleTypedAsyncIterable DoubleTypedAsyncIterable '
           'MaplikeInterfaceMember SetlikeInterfaceMember StringifierMember OperationMixinMember '
           'AttributeMixinMember ConstNamespaceMember OperationNamespaceMember AttributeNamespaceMember '
           'DictionaryMember InterfaceMember IterableInterfaceMember AsyncIterableInterfaceMember Special '
           'StringifierOrInheritOrStatic StringifierOrStatic MixinMember NamespaceMember').split():
    FILE_PROPS[_n] = {'C11'}
for _n in ('SequenceType FrozenArrayType PromiseType LongLongType LongType ShortType FloatType DoubleType '
           'RecordType AttributedType AttributedNonAnyType Type SingleType NonAnyType IntegerType '
           'FloatingPointType RecordKeyType UnionMemberType ConstType ReturnType').split():
    FILE_PROPS[_n] = {'C12'}
for _n in ('ExtendedAttributeArgList ExtendedAttributeNamedArgList ExtendedAttributeIdentList '
           'ExtendedAttributeIdent ExtendedAttributeWildCard ExtendedAttributeNoArgs ExtendedAttribute '
           'IdentifierOrString').split():
    FILE_PROPS[_n] = {'C13'}
for _n in 'SingleArgument VariadicArgument Argument Default EmptyArrayLit EmptyDictionaryLit BooleanLit'.split():
    FILE_PROPS[_n] = {'C14'}
for _n in 'DefaultValue ConstValue'.split():
    FILE_PROPS[_n] = {'C14', 'C07'}
for _n in 'IntegerLit FloatLit'.split():
    FILE_PROPS[_n] = {'C07', 'C14'}
FILE_PROPS['DictionaryMember'] = {'C11', 'C14'}
FILE_PROPS['ConstMember'] = {'C11', 'C14'}
FILE_PROPS['EnumDefinition'] = {'C10', 'C16'}
for _n in spec.GENERIC:
    FILE_PROPS[_n] = {'C16'}
FILE_PROPS['MayBeNull<Identifier>'] = {'C12', 'C16'}
FILE_PROPS['parse'] = {'C01'}
assert set(spec.COMPOSITE) <= set(FILE_PROPS)

CORE = {'Identifier': 'C06', 'StringLit': 'C08', 'DecLit': 'C07', 'HexLit': 'C07', 'OctLit': 'C07',
        'FloatValueLit': 'C07'}


def tokens_used(e, out):
    k = e[0]
    if k == 'nt':
        out.add(e[1])
    elif k in ('opt', 'box', 'vec'):
        tokens_used(e[1], out)
    elif k == 'if':
        tokens_used(e[2], out)
    elif k == 'tup':
        for x in e[1]:
            tokens_used(x, out)
    elif k == 'br':
        out.add(e[2][1])
        out.add(e[4][1])
        tokens_used(e[3], out)
    elif k in ('struct', 'choice'):
        for _, x in e[2]:
            tokens_used(x, out)
    elif k == 'bool':
        out |= {e[1], e[2]}
    elif k == 'sep':
        tokens_used(e[2], out)
        tokens_used(e[3], out)


USERS = {}
for _n in spec.COMPOSITE:
    _s = set()
    tokens_used(spec.expr_of(_n), _s)
    for _t in _s:
        USERS.setdefault(_t, set()).update(FILE_PROPS[_n] - {'C16', 'C07'})


def lex_props(name, d, diffs):
    k = d['kind']
    if k == 'errplace':
        return {'C23'}
    if k in ('panic', 'loop', 'errclass'):
        props = {{'panic': 'C02', 'loop': 'C03', 'errclass': 'C18'}[k]}
        if name != 'sp' and refparse.Packrat(d['text']).nt(name, 0) is not None:
            props.add(CORE.get(name, 'C09'))
        return props
    if name == 'sp':
        return {'C05'}
    scope = d.get('scope')
    props = set()
    if scope == 'trivia':
        props.add('C05')
        if name in spec.KEYWORDS and d['text'].startswith(spec.KEYWORDS[name]):
            props.add('C04')
        if name in CORE and name == 'Identifier':
            props.add('C06')
    elif scope == 'inside':
        props.add('C05')
        props.add(CORE.get(name, 'C09'))
    elif scope == 'boundary':
        if not any(x.get('scope') == 'spelling' for x in diffs):
            props |= {'C04', 'C15'}
    elif scope == 'keyword prefix':
        props |= {'C04', 'C06'}
    else:
        if name in CORE:
            props.add(CORE[name])
        elif scope == 'spelling' or not any(x.get('scope') in ('spelling', 'boundary') for x in diffs):
            props.add('C09')
        if name in ('FloatValueLit', 'HexLit'):
            props.add('C15')
        if name in ('NegInfinity', 'Infinity', 'NaN'):
            props.add('C07')
        props |= USERS.get(name, set())
    if k == 'value':
        props.add('C17')
    if d.get('more'):
        props.add('C01')
    if 'inner trivia' in d.get('about', ()):
        props.add('C05')
    return props


TOK = compose.TOK
ABOUT = {'trivia': 'C05', 'word end': 'C04', 'identifier': 'C06', 'string': 'C08', 'number': 'C07'}


def weight(v):
    """Number of tokens a tree accounts for (least, most)."""
    k = v[0]
    if k in ('unit', 'lit', 'b'):
        return 1
    if k in ('some', 'box'):
        return weight(v[1])
    if k == 't':
        return sum(weight(x) for x in v[1])
    if k == 'vec':
        return sum(weight(x) for x in v[1])
    if k == 'V':
        return weight(v[3])
    if k == 'S':
        if v[1].startswith('Punctuated'):
            l = dict(v[2])['list'][1]
            return sum(weight(x) for x in l) + max(0, len(l) - 1)
        return sum(weight(x) for _, x in v[2])
    return 0


def com_props(name, c, r):
    """c: confirmed disagreement."""
    k = c['kind']
    about = {ABOUT[x] for x in c.get('about', ()) if x in ABOUT}
    if 'junk' in c.get('about', ()) and k in ('accepts', 'end') and c['out'][0] == 'ok':
        about.add('C05')           # skipped like trivia
    if k == 'errplace':
        return {'C23'}
    if k == 'panic':
        return {'C02'} | (FILE_PROPS[name] if not compose.rejected(c['ref']) else set())
    if k == 'loop':
        return {'C03'} | (FILE_PROPS[name] if not compose.rejected(c['ref']) else set())
    if k == 'errclass':
        return {'C18'} | (FILE_PROPS[name] if not compose.rejected(c['ref']) else set())
    props = set(FILE_PROPS[name]) | about
    if name in spec.ENUMS:
        props.add('C15')
    if k == 'tree':
        props.add('C17')
    if k in ('accepts', 'end', 'tree') and c['out'][0] == 'ok':
        try:
            text = c['text'] if c['out'][1] is None else c['text'][:c['out'][1]]
            n = len(TOK.findall(re.sub(r'//[^\n]*|/\*(?:.|\n)*?\*/', ' ', text)))
            w = weight(c['out'][2])
            slack = 1 if 'PunctuatedNonEmpty' in repr(c['out'][2]) else 0
            if n > w + slack or n < w:
                props.add('C01')
        except Exception:
            pass
    return props


def left_recursion(prog, verdicts):
    """Cycles among the types asked for at the very start of each other, with a text that drives one."""
    g = {n: set(v.start_asks) & set(verdicts) for n, v in verdicts.items() if n in spec.COMPOSITE}
    # nodes on cycles
    out = []
    seen = set()
    for n in sorted(g):
        # shortest cycle through n
        prev = {n: None}
        work = [n]
        i = 0
        hit = None
        while i < len(work) and hit is None:
            for m in sorted(g.get(work[i], ())):
                if m == n:
                    hit = work[i]
                    break
                if m not in prev:
                    prev[m] = work[i]
                    work.append(m)
            i += 1
        if hit is not None:
            cyc = [hit]
            while prev[cyc[-1]] is not None:
                cyc.append(prev[cyc[-1]])
            cyc.reverse()
            k = frozenset(cyc)
            if k not in seen:
                seen.add(k)
                out.append(cyc)
    found = []
    for cyc in out:
        text = recursion_text(prog, cyc, verdicts)
        found.append((cyc, text))
    return g, found


def recursion_text(prog, cyc, verdicts):
    texts = ['', 'x', ';', '(', '[', '{', '1', '"s"', '@']
    for n in cyc:
        texts += [' '.join(s) for s in refparse.samples(n)[:20]]
    for text in texts:
        ok = True
        for i, n in enumerate(cyc):
            nxt = cyc[(i + 1) % len(cyc)]
            if nxt not in asks_at_start(prog, n, text):
                ok = False
                break
        if ok:
            return text
    return None


def asks_at_start(prog, name, text):
    P = compose.Product(prog, name, prog.parse_inst[name], spec.expr_of(name), (), helper)
    asked = set()
    pk = refparse.Packrat(text)
    st = P.I.start(P.inst, [('s', 0, None)])
    st.nid = 10 ** 6
    start = {0, pk.sp(0)}
    for _ in range(3000):
        leaves = P.I.run(st)
        if len(leaves) != 1:
            return asked
        kind, data, st = leaves[0]
        if kind == 'nt':
            n, p = data
            p = len(text) if p == 'E' else p
            if n == '$sp':
                st.facts[data] = ('ok', pk.sp(p))
                continue
            if p in start:
                asked.add(n)
            r = pk.nt(n, p)
            st.facts[data] = ('fail',) if r is None else ('ok', r[0])
        elif kind == 'read':
            st.cells[data] = 'eof' if data >= len(text) else (compose.cs.single(text[data]), data + 1)
        else:
            return asked
    return asked


class Analysis:
    pass


def analyse(dump, jobs=8, limit=450, only=None):
    global PROG, DEADLINE, SLOW
    t0 = time.time()
    DEADLINE = t0 + limit
    HELPERS.clear()
    lexical.SKIPPERS.clear()
    A = Analysis()
    PROG = prog = mir.Prog(dump)
    A.prog = prog
    A.findings = []
    A.undecided = []          # (properties, root, why)
    A.lex = {}
    A.com = {}
    A.eff = {}
    # functions that behave as the trivia skipper, by their behaviour
    sps = sp_candidates(prog)
    used = set()
    for n in ('Comma', 'SemiColon', 'OpenParen'):
        if n in prog.parse_inst:
            used |= reachable(prog, prog.parse_inst[n])
    SIDE.clear()
    SIDE.update(k for k in sps if k not in used)
    pool = mp.Pool(jobs)
    A.sp = {}
    for k, (_, _, r) in zip(sps, pool.map(task, [('lex', 'sp', k) for k in sps])):
        A.sp[k] = r
        if not isinstance(r, str) and not r.diffs and not r.undecided:
            HELPERS[k] = '$sp'
            lexical.SKIPPERS.add(k)
    pool.close()
    pool.join()
    SLOW = any(isinstance(r, str) or r.wall > 20 for k, r in A.sp.items() if k not in HELPERS and k not in SIDE)
    tasks = []
    missing = []
    for n in sorted(spec.TOKENS):
        if n in prog.parse_inst:
            tasks.append(('lex', n, prog.parse_inst[n]))
        else:
            missing.append(n)
    for n in sorted(spec.COMPOSITE) + sorted(spec.GENERIC):
        if n in prog.parse_inst:
            tasks.append(('com', n, prog.parse_inst[n]))
        else:
            missing.append(n)
    for n in sorted(NEST):
        if n in prog.parse_inst:
            tasks.append(('eff', n, prog.parse_inst[n]))
    docs = [k for k, i in enumerate(prog.insts) if i is not None and i['npath'] == prog.crate + '::parse']
    if docs:
        tasks.append(('com', 'parse', docs[0]))
    else:
        missing.append('parse')
    A.missing = missing
    if only:
        tasks = [t for t in tasks if t[0] == only]
        missing = []
    # long ones first
    tasks.sort(key=lambda t: (t[1] != 'Identifier', t[0] != 'lex', t[1] not in spec.LITERALS))
    pool = mp.Pool(jobs)
    for kind, name, r in pool.imap_unordered(task, tasks, chunksize=1):
        {'lex': A.lex, 'com': A.com, 'eff': A.eff}[kind][name] = r
    pool.close()
    pool.join()
    for n in missing:
        if n in spec.GENERIC:
            A.undecided.append((props_of_root(n), n, 'no parser for this type in the tree'))
        else:
            A.findings.append(Finding(n, 'missing', {CORE[n]} if n in CORE else {'C09'} if n in spec.TOKENS else FILE_PROPS[n], '',
                                      'nothing in the tree parses %s any more' % n, 'src'))
    A.roots = {n for n in list(A.lex) + list(A.com)}
    A.instances = sorted(set(prog.parse_inst.values()) | set(docs) | set(sps))
    for k, r in A.sp.items():
        # only the skipper in use matters; tokens show what it does
        if isinstance(r, str) or not (r.diffs or r.undecided):
            continue
        if prog.insts[k]['npath'].endswith('::sp'):
            for d in r.diffs:
                A.findings.append(Finding('sp', d['kind'], lex_props('sp', d, r.diffs), d['text'], d['detail'], where(prog, k)))
    for n, r in sorted(A.lex.items()):
        if isinstance(r, str):
            A.undecided.append((props_of_root(n), n, r))
            continue
        for u in r.undecided:
            A.undecided.append((props_of_root(n), n, u))
        for d in r.diffs:
            ps = lex_props(n, d, r.diffs)
            if ps:
                A.findings.append(Finding(n, d['kind'] + '/' + d.get('scope', '-'), ps, d['text'], d['detail'],
                                          where(prog, prog.parse_inst[n])))
    verd = {}
    for n, r in sorted(A.com.items()):
        if isinstance(r, str):
            A.undecided.append((props_of_root(n), n, r))
            continue
        verd[n] = r
        for u in r.undecided:
            A.undecided.append((props_of_root(n), n, u))
        for c, rr in r.mismatches:
            A.undecided.append((props_of_root(n), n, 'possible difference without a text that shows it: code %s, reference %s' % (c[:120], rr[:120])))
        for c in r.confirmed:
            A.findings.append(Finding(n, c['kind'], com_props(n, c, r), c['text'],
                                      'code: %s; reference: %s' % (c['code'], c['reference']),
                                      where(prog, prog.parse_inst.get(n, docs[0] if docs else None))))
    eff = {}
    for n, r in sorted(A.eff.items()):
        if isinstance(r, str):
            A.undecided.append(({'C21', 'C22'}, n, r))
            continue
        eff[n] = r
        for u in r.undecided:
            A.undecided.append(({'C21', 'C22'}, n, u))
    for n, y, t, w in effort.repeated(eff):
        A.findings.append(Finding(n, '%s x%d' % (y, t), {'C21'}, '',
                                  'the %s %s is parsed %d times over while one %s is parsed, and can hold another %s in turn' % (
                                      y, 'after ' + ' '.join(w) if w else 'at the start', t, n, n),
                                  where(prog, prog.parse_inst[n])))
    if only == 'eff':
        A.graph = {}
        return A
    A.graph, cycles = left_recursion(prog, verd)
    for cyc, text in cycles:
        if text is not None:
            A.findings.append(Finding(' -> '.join(cyc + [cyc[0]]), 'left recursion', {'C03'}, text,
                                      'each asks for the next before anything is consumed',
                                      where(prog, prog.parse_inst[cyc[0]])))
        else:
            A.undecided.append(({'C03'}, ' -> '.join(cyc), 'cycle at the start without a text that drives it'))
    A.wall = time.time() - t0
    return A


def recursion(A):
    docs = [k for k, i in enumerate(A.prog.insts) if i is not None and i['npath'] == A.prog.crate + '::parse']
    asked = [(n, {(w[1:], c) for l in r.logs for w, c, _ in l}) for n, r in sorted(A.eff.items()) if not isinstance(r, str)]
    return rules.recursion(A.prog, list(A.prog.parse_inst.values()) + docs, NEST, asked)


def where(prog, inst):
    if inst is None:
        return ''
    i = prog.insts[inst]
    return '%s:%s %s' % (i.get('file'), i.get('line'), i['npath'])


def props_of_root(n):
    if n in CORE:
        return {CORE[n], 'C05', 'C02', 'C03', 'C18', 'C23', 'C17'}
    if n in spec.KEYWORDS:
        return {'C04', 'C09', 'C05', 'C02', 'C03', 'C18', 'C23'}
    if n in spec.PUNCT:
        return {'C09', 'C05', 'C02', 'C03', 'C18', 'C23'}
    return FILE_PROPS.get(n, set()) | {'C01', 'C02', 'C03', 'C17', 'C18', 'C23'} | ({'C15'} if n in spec.ENUMS else set())
