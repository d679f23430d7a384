"""Compares the extracted behaviour of a token parser with the reference, for all texts."""
import re
import time
import charset as cs
import interp
import lang
import lexical
import limits
import point
import shapes
import spec
from lang import seq, star, ch, lit, mark, alt, ANY, NFA, And, Or, Not, Only, Project, tabulate, difference
from spec import CS, CE, CORE, FIN, FIN2


def subsets(bits):
    out = [0]
    for b in bits:
        out += [x | b for x in out]
    return out


def regex_sets(*rs):
    out = set()
    for r in rs:
        lang.sets_of(r, out)
    return out


TAIL = star(ANY)
# rest of the text starts with something that trivia would still take
MORE_TRIVIA = alt(ch(spec.WS), lit('//'), spec.BLOCK)


class Reference:
    """Marked language of a token: start and end of its value, end of what is consumed."""

    def __init__(self, name, parts):
        n = len(parts)
        pre, val, post, keep, word = spec.token(name)
        core = seq(spec.TRIVIA, pre, mark(CS), val, mark(CE), post, mark(CORE))
        full = NFA(seq(core, spec.TRIVIA, mark(FIN), TAIL), parts)
        ls = [full]
        # the longest match of the token itself
        longer = And(Only(NFA(seq(spec.TRIVIA, pre, val, post, mark(FIN2), TAIL), parts), FIN2),
                     Only(NFA(seq(TAIL, mark(CORE), ANY, TAIL, mark(FIN2), TAIL), parts), CORE | FIN2))
        longer = tabulate(Project(longer, FIN2), n, [0, CORE])
        ls.append(Only(Not(longer), CORE))
        if word:
            ls.append(Only(Not(NFA(seq(TAIL, mark(CORE), ch(spec.WORD), TAIL), parts)), CORE))
        # all trivia behind it
        ls.append(Only(Not(NFA(seq(TAIL, mark(FIN), MORE_TRIVIA, TAIL), parts)), FIN))
        self.keep = keep
        self.all = tabulate(And(*ls), n, subsets([CS, CE, CORE, FIN]))
        self.n = n

    def component(self, bit):
        """Language with one mark (renamed to 1), the others forgotten."""
        rest = (CS | CE | CORE | FIN) & ~bit
        return tabulate(Rebit(Project(self.all, rest), bit), self.n, [0, 1])

    def unmarked(self):
        return tabulate(Project(self.all, CS | CE | CORE | FIN), self.n, [0])


class Rebit:
    """Mark 1 stands for the given bit."""

    def __init__(self, l, bit):
        self.l, self.bit = l, bit

    def init(self):
        return self.l.init()

    def next(self, q, a, m):
        return self.l.next(q, a, self.bit if m else 0)

    def acc(self, q, m):
        return self.l.acc(q, self.bit if m else 0)


class SpReference:
    def __init__(self, parts):
        n = len(parts)
        self.all = tabulate(And(NFA(seq(spec.TRIVIA, mark(FIN), TAIL), parts),
                                Not(NFA(seq(TAIL, mark(FIN), MORE_TRIVIA, TAIL), parts))), n, [0, FIN])
        self.n = n

    def component(self, bit):
        return tabulate(Rebit(self.all, FIN), self.n, [0, 1])

    def unmarked(self):
        return tabulate(Project(self.all, FIN), self.n, [0])


def show(word, parts):
    return ''.join(cs.pick(parts[a]) for a, _ in word)


def minus_unknown(l, known):
    return l if known is None else And(l, Only(known, 0))


class Result:
    def __init__(self, name):
        self.name = name
        self.diffs = []        # dicts: kind, text, at, got, want, scope
        self.undecided = []
        self.states = 0
        self.nodes = 0
        self.comparisons = 0
        self.functions = set()
        self.wall = 0.0


EMPTY_TEXT = seq()


def scopes(name, parts):
    """Sub-languages of texts, from the plainest to all, used to say what a difference is about."""
    plain = cs.diff(cs.FULL, cs.union(spec.WS, cs.of('/')))
    out = []
    if name in spec.KEYWORDS:
        kw = spec.KEYWORDS[name]
        out.append(('spelling', NFA(lit(kw), parts)))
        out.append(('boundary', NFA(seq(lit(kw), ch(plain), TAIL), parts)))
    if name == 'Identifier':
        kws = alt(*[lit(k) for k in spec.KEYWORDS.values() if k[0] != '-'])
        out.append(('keyword prefix', NFA(seq(kws, ch(spec.WORD), star(ch(spec.WORD))), parts)))
    if name == 'StringLit':
        q, nq = ch(cs.of('"')), ch(spec.other(cs.of('"')))
        p2 = star(ch(cs.diff(plain, cs.of('"'))))
        out.append(('plain', NFA(seq(p2, lang.opt(seq(q, star(nq), lang.opt(seq(q, star(ch(plain))))))), parts)))
    else:
        out.append(('plain', NFA(star(ch(plain)), parts)))
    out.append(('trivia', NFA(TAIL, parts)))
    return out


def compare(prog, name, inst, expected, budget=25.0, exact_limit=60.0):
    """name: a token type, or 'sp'."""
    t0 = time.time()
    r = Result(name)
    try:
        with limits.limit(exact_limit):
            exact(prog, name, inst, expected, r)
    except (lexical.TooLarge, MemoryError, limits.Timeout) as e:
        r.undecided.append(str(e))
    if name != 'sp':
        for d in r.diffs:
            if d['kind'] in ('match', 'value', 'panic') and agree(prog, name, inst, d['text']):
                # the extracted behaviour is not the code's: nothing follows from it
                r.undecided.append('not confirmed: %s on %r' % (d['detail'], d['text']))
                d['kind'] = None
        r.diffs = [d for d in r.diffs if d['kind']]
    if r.undecided and not r.diffs and name != 'sp':
        realise(prog, name, inst, r, budget)
    for d in r.diffs:
        if name != 'sp' and d['kind'] in ('match', 'value'):
            qualify(prog, name, inst, d)
    r.wall = time.time() - t0
    return r


def scope_of(name, text):
    """What a difference on a text is about."""
    sp = set(' \t\n\r/')
    if name in spec.KEYWORDS:
        kw = spec.KEYWORDS[name]
        if text == kw:
            return 'spelling'
        if text.startswith(kw) and text[len(kw)] not in sp:
            return 'boundary'
    if name == 'Identifier':
        for kw in spec.KEYWORDS.values():
            if text.startswith(kw) and text != kw and all(c.isascii() and (c.isalnum() or c in '_-') for c in text):
                return 'keyword prefix'
    if name == 'StringLit':
        p = text.split('"', 2)
        if not (set(p[0]) & sp) and (len(p) < 3 or not (set(p[2]) & sp)):
            return 'plain'
    elif not (set(text) & sp):
        return 'plain'
    return 'trivia'


def at(prog, name, inst, text):
    """Outcomes of code and reference on a text, and whether they differ (None: cannot tell)."""
    import compose
    I = point.PointInterp(prog, text, lambda x: False, None)
    co = point.outcome(I, compose.Norm(prog, I), inst)
    w = I.pk.nt(name, 0)
    ro = ('err', 'Error') if w is None else ('ok', w[0], w[1])
    if co[0] in ('unknown', 'inline'):
        return co, ro, None
    if co[0] == 'err' and ro[0] == 'err':
        return co, ro, co[1] != ro[1]
    if co[0] == 'ok' and ro[0] == 'ok':
        return co, ro, co[1] != ro[1] or compose.norm_tree(co[2]) != compose.norm_tree(ro[2])
    return co, ro, True


def agree(prog, name, inst, text):
    try:
        with limits.limit(20):
            return at(prog, name, inst, text)[2] is False
    except (interp.Unknown, limits.Timeout, RecursionError):
        return False


def qualify(prog, name, inst, d):
    """What a difference is about, beyond the token itself."""
    import compose
    try:
        co, ro, x = at(prog, name, inst, d['text'])
        if not x:
            return
        # skips what the value does not hold and trivia is not
        d['more'] = co[0] == 'ok' and ro[0] == 'ok' and co[1] is not None and co[1] > ro[1] and compose.norm_tree(co[2]) == compose.norm_tree(ro[2])
        if name == 'StringLit':
            t = re.sub(r'"[^"]*"', '"s"', d['text'])
            if t != d['text'] and at(prog, name, inst, t)[2] is False and re.search(r'"[^"]*(?:[ \t\r\n]|//|/\*)[^"]*"', d['text']):
                d['about'] = ['inner trivia']
    except interp.Unknown:
        pass


def realise(prog, name, inst, r, budget):
    """The exploration gave up somewhere: look for a text on which that matters."""
    import compose
    ints, strs, chars = point.harvest(prog, r.functions)
    t0 = time.time()
    best = {}
    n = 0
    for text in point.token_texts(name, ints, strs, chars):
        if time.time() - t0 > budget:
            break
        n += 1
        co, ro, x = at(prog, name, inst, text)
        if not x:
            continue
        k = compose.classify(co, ro)
        kind = {'accepts': 'match', 'rejects': 'match', 'end': 'match', 'tree': 'value'}.get(k, k)
        sc = scope_of(name, text)
        if (kind, sc) not in best or len(text) < len(best[kind, sc][0]):
            best[kind, sc] = (text, co, ro)
    r.tested = n
    for (kind, sc), (text, co, ro) in sorted(best.items()):
        if sc == 'trivia' and any(x[1] != 'trivia' and x[0] == kind for x in best):
            continue
        r.diffs.append(dict(kind=kind, scope=sc, text=text, detail='code: %s; reference: %s; the exploration stops at: %s' % (
            compose.short(co), compose.short(ro), r.undecided[0])))


def explore(prog, inst, seen):
    """The configuration graph, with as much remembered as it takes."""
    widen = False
    try:
        L = lexical.Lex(prog, inst, shapes.lex_shape, max_nodes=500, seen=seen)
    except lexical.TooLarge:
        widen = True
        try:
            L = lexical.Lex(prog, inst, shapes.lex_shape, seen=seen, widen=True)
        except lexical.TooLarge:
            L = None
        if L is None or L.notes['unknown']:
            # not a distance, just a count
            try:
                M = lexical.Lex(prog, inst, shapes.lex_shape, max_nodes=1000, seen=seen, widen='any')
                if L is None or not M.notes['unknown']:
                    widen, L = 'any', M
            except lexical.TooLarge:
                if L is None:
                    raise
    keep = {}
    for _ in range(12):
        if not L.wanted:
            break
        # what is read again later has to be remembered
        more = {k: max(n, keep.get(k, 0)) for k, n in L.wanted.items()}
        if all(keep.get(k) == n for k, n in more.items()):
            break
        keep.update(more)
        try:
            L = lexical.Lex(prog, inst, shapes.lex_shape, max_nodes=3000, seen=seen, widen=widen, keep=dict(keep))
        except lexical.TooLarge:
            break
    if any(re.search(r'\blost\b', x) for x in L.notes['unknown']):
        # a character is looked at after the text has moved on
        try:
            L = lexical.Lex(prog, inst, shapes.lex_shape, max_nodes=3000, seen=seen, widen=widen, keep=dict(keep), gone=True)
        except lexical.TooLarge:
            pass
    return L


def explorations(prog, inst, seen):
    """Configuration graphs to try in turn: what is remembered decides how often the text is read again."""
    yield lambda: explore(prog, inst, seen)
    for n in (2, 1, 3):
        yield lambda: lexical.Lex(prog, inst, shapes.lex_shape, max_nodes=1000, seen=seen, keep=n)


def exact(prog, name, inst, expected, r):
    best = failed = None
    for e in explorations(prog, inst, r.functions):
        try:
            L = e()
            if L.notes['unknown']:
                # another graph may know more
                best = best or L
                continue
            return exact_on(prog, name, inst, expected, r, L)
        except (lexical.TooLarge, MemoryError) as e:
            r.diffs, r.undecided = [], []
            failed = failed or e
    if best is None:
        raise failed
    return exact_on(prog, name, inst, expected, r, best)


def exact_on(prog, name, inst, expected, r, L):
    r.nodes = len(L.nodes)
    if name == 'sp':
        refsets = regex_sets(spec.TRIVIA, MORE_TRIVIA)
    else:
        pre, val, post, keep, word = spec.token(name)
        refsets = regex_sets(pre, val, post, spec.TRIVIA, MORE_TRIVIA, ch(spec.WORD))
    refsets |= regex_sets(ch(cs.union(spec.WS, cs.of('/'))))
    refsets |= regex_sets(lit('"'))
    if name == 'Identifier':
        refsets |= regex_sets(*[lit(k) for k in spec.KEYWORDS.values()])
    parts = cs.partition(set(L.charsets()) | refsets | {cs.FULL})
    n = len(parts)
    ref = SpReference(parts) if name == 'sp' else Reference(name, parts)

    def out(target):
        o = lexical.Outcome(L, parts, target)
        t = tabulate(o, n, [0, 1] if target[0] == 'ok' else [0])
        r.states += len(t.trans)
        return t

    results = L.results()
    known = None
    if ('unknown',) in results:
        u = out(('unknown',))
        if u.trans:
            known = tabulate(Not(u), n, [0])
            w, _, k = lang.witness(u, n)
            r.undecided.append('%s (e.g. on %r)' % ('; '.join(L.notes['unknown']), show(w, parts)))
    accepted = []
    seen_ok = False
    for res in sorted(results, key=str):
        if res[0] == 'panic':
            l = minus_unknown(out(res), known)
            w, _, k = lang.witness(l, n)
            if w is not None:
                r.diffs.append(dict(kind='panic', text=show(w, parts), detail='; '.join(L.notes['panic'])))
        elif res[0] == 'loop':
            l = minus_unknown(out(res), known)
            w, _, k = lang.witness(l, n)
            if w is not None:
                r.diffs.append(dict(kind='loop', text=show(w, parts), detail='; '.join(L.notes['loop'])))
        elif res[0] == 'err':
            l = out(res)
            accepted.append(l)
            if res[1] != 'Error':
                w, _, k = lang.witness(minus_unknown(l, known), n)
                if w is not None:
                    r.diffs.append(dict(kind='errplace' if interp.ELSEWHERE in res[1] else 'errclass', text=show(w, parts),
                                        detail='fails with Err::%s' % res[1]))
        elif res[0] == 'ok':
            if dropped(res[1]):
                l = tabulate(Project(out(('ok', res[1], 0)), 1), n, [0])
                w, _, k = lang.witness(l, n)
                accepted.append(l)
                if w is not None:
                    r.undecided.append('value not tracked (e.g. on %r)' % show(w, parts))
                    k2 = tabulate(Not(l), n, [0])
                    known = k2 if known is None else And(known, k2)
                continue
            if res[1] != expected[0]:
                l = tabulate(Project(out(('ok', res[1], 0)), 1), n, [0])
                accepted.append(l)
                w, _, k = lang.witness(minus_unknown(l, known), n)
                if w is not None:
                    r.diffs.append(dict(kind='value', text=show(w, parts), scope='plain',
                                        detail='yields %s' % (res[1],)))
    comps = [0] if expected[1] == 1 else list(range(expected[1]))
    bits = [FIN, CS, CE] if name != 'sp' else [FIN, None, FIN]
    main = ('ok', expected[0], expected[1])
    for c in comps:
        if name == 'sp' and c == 1:
            # the skipped text starts at the start
            want = tabulate(And(Rebit(NFA(seq(mark(1), TAIL), parts), 1),
                                Only(ref.unmarked(), 0)), n, [0, 1])
        else:
            want = ref.component(bits[c])
        got = out(('ok', expected[0], c)) if main in results else lang.Empty()
        if c == 0 and main in results:
            accepted.append(tabulate(Project(got, 1), n, [0]))
        r.comparisons += 1
        found = False
        for scope, sl in scopes(name, parts) if name != 'sp' else [('trivia', None)]:
            x, y = minus_unknown(want, known), minus_unknown(got, known)
            if sl is not None:
                x, y = And(x, Only(sl, 0)), And(y, Only(sl, 0))
            if scope == 'trivia' and found:
                continue
            w, atend, side, k = difference(x, y, n, 1)
            r.states += k
            if w is not None:
                found = True
                at = next((i for i, (a, m) in enumerate(w) if m), len(w))
                text = show(w, parts)
                what = ('end of match', 'start of value', 'end of value')[c]
                # does the code accept it at all?
                r.diffs.append(dict(kind='match' if c == 0 else 'value', scope=scope, text=text, at=at,
                                    detail='%s: %s at offset %d of %r' % (
                                        'reference has the ' + what if side == 'first' else
                                        'code has the ' + what, 'it', at, text)))
    # acceptance of texts that do not start with trivia: trivia inside a token
    if name != 'sp' and any(d.get('scope') == 'trivia' for d in r.diffs):
        first = NFA(seq(ch(cs.diff(cs.FULL, cs.union(spec.WS, cs.of('/')))), TAIL), parts)
        want = tabulate(Project(ref.component(FIN), 1), n, [0])
        got = tabulate(Project(out(('ok', expected[0], 0)), 1), n, [0]) if main in results else lang.Empty()
        w, _, side, k = difference(And(minus_unknown(want, known), first), And(minus_unknown(got, known), first), n, 0)
        if w is not None:
            r.diffs.append(dict(kind='match', scope='inside', text=show(w, parts),
                                detail='accepted by the %s only' % ('reference' if side == 'first' else 'code')))
    # every text must have an outcome: a run without one never ends
    extra = [x for x in accepted]
    if known is not None:
        extra.append(tabulate(Not(known), n, [0]))
    for res in results:
        if res[0] in ('panic', 'loop'):
            extra.append(out(res))
    w, _, side, k = difference(Or(*extra) if extra else lang.Empty(), NFA(TAIL, parts), n, 0)
    r.comparisons += 1
    r.states += k
    if w is not None:
        r.diffs.append(dict(kind='loop', text=show(w, parts), detail='no outcome: the parser never returns'))


def dropped(shape):
    if shape == 'dropped':
        return True
    return isinstance(shape, tuple) and any(dropped(x) for x in shape)


def expected_shape(name):
    if name == 'sp':
        return ('slice', 3)
    if name in spec.LITERALS:
        return ((name, 'slice'), 3)
    return ((name,), 1)
