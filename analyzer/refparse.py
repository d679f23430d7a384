"""The reference grammar as a packrat parser over concrete texts, and sample sentences of it.

Used only to tell whether a disagreement found by the static comparison is possible on
an actual text (a counterexample is reported only with such a text).
"""
import random
import re
import spec

SP = re.compile(r'(?:[ \t\r\n]|//[^\n]*(?:\n|\Z)|/\*(?:.|\n)*?\*/)*', re.S)
_LIT = {
    'Identifier': r'_?([A-Za-z][0-9A-Za-z_-]*)',
    'DecLit': r'(-?[1-9][0-9]*)',
    'HexLit': r'(-?0[xX][0-9A-Fa-f]+)',
    'OctLit': r'(-?0[0-7]*)',
    'FloatValueLit': r'(-?(?:(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+))',
    'StringLit': r'"([^"]*)"',
}
RE = {}
for _n, _t in spec.PUNCT.items():
    RE[_n] = re.compile(re.escape(_t))
for _n, _t in spec.KEYWORDS.items():
    RE[_n] = re.compile(re.escape(_t) + r'(?![A-Za-z0-9_-])')
for _n, _t in _LIT.items():
    RE[_n] = re.compile(_t)


def skip(text, i):
    # an unterminated block comment is no trivia; the pattern cannot match it
    return SP.match(text, i).end()


class Packrat:
    def __init__(self, text):
        self.t = text
        self.memo = {}

    def sp(self, i):
        return skip(self.t, i)

    def nt(self, name, i):
        """(end, tree) or None"""
        k = (name, i)
        if k in self.memo:
            return self.memo[k]
        if name in RE:
            j = skip(self.t, i)
            m = RE[name].match(self.t, j)
            if m is None:
                r = None
            elif name in _LIT:
                r = (skip(self.t, m.end()), ('lit', name, m.start(1), m.end(1)))
            else:
                r = (skip(self.t, m.end()), ('unit', name))
        else:
            r = self.expr(spec.expr_of(name), i)
        self.memo[k] = r
        return r

    def expr(self, e, i):
        k = e[0]
        if k == 'nt':
            return self.nt(e[1], i)
        if k == 'opt':
            r = self.expr(e[1], i)
            return (i, ('none',)) if r is None else (r[0], ('some', r[1]))
        if k == 'box':
            r = self.expr(e[1], i)
            return None if r is None else (r[0], ('box', r[1]))
        if k == 'vec':
            out = []
            while True:
                r = self.expr(e[1], i)
                if r is None:
                    return i, ('vec', tuple(out))
                i = r[0]
                out.append(r[1])
        if k == 'tup':
            out = []
            for x in e[1]:
                r = self.expr(x, i)
                if r is None:
                    return None
                i = r[0]
                out.append(r[1])
            return i, ('t', tuple(out))
        if k == 'br':
            return self.expr(('struct', e[1], ((e[2][0], spec.nt(e[2][1])), ('body', e[3]), (e[4][0], spec.nt(e[4][1])))), i)
        if k == 'struct':
            vals = {}
            for f, x in e[2]:
                if x[0] == 'if':
                    if vals[x[1]] == ('none',):
                        vals[f] = ('none',)
                        continue
                    x = x[2]
                r = self.expr(x, i)
                if r is None:
                    return None
                i = r[0]
                vals[f] = r[1]
            return i, ('S', e[1], tuple(sorted(vals.items())))
        if k == 'choice':
            for v, x in e[2]:
                r = self.expr(x, i)
                if r is not None:
                    return r[0], ('V', e[1], v, r[1])
            return None
        if k == 'bool':
            for n, b in ((e[1], 1), (e[2], 0)):
                r = self.nt(n, i)
                if r is not None:
                    return r[0], ('b', b)
            return None
        if k == 'sep':
            out = []
            r = self.expr(e[2], i)
            if r is None and e[1] == 'PunctuatedNonEmpty':
                return None
            if r is not None:
                i = r[0]
                out.append(r[1])
                while True:
                    s = self.expr(e[3], i)
                    if s is None:
                        break
                    r = self.expr(e[2], s[0])
                    if r is None:
                        break
                    i = r[0]
                    out.append(r[1])
                if e[1] == 'PunctuatedNonEmpty':
                    s = self.expr(e[3], i)
                    if s is not None:
                        i = s[0]
            return i, ('S', e[1], (('list', ('vec', tuple(out))), ('separator', ('unit', e[3][1]))))
        if k == 'document':
            r = self.expr(e[1], i)
            j = skip(self.t, r[0])
            return (j, r[1]) if j == len(self.t) else (j, ('const', ('rejected', 'Eof')))
        raise ValueError(k)


# ------------------------------------------------------------------ sample sentences
SAMPLE_TOK = {
    'Identifier': ['a', '_b', 'c-d', 'zed', 'any', 'long', 'interface', 'Aa'],
    'DecLit': ['7', '-12', '10'],
    'HexLit': ['0x1F', '-0X0a'],
    'OctLit': ['0', '017', '-07'],
    'FloatValueLit': ['1.5', '.5', '2.', '1e5', '-1.5E-3'],
    'StringLit': ['"s"', '""', '"t u"'],
}
_memo = {}


def minimal(name, seen=()):
    """A short sentence of a type (list of tokens)."""
    k = ('min', name)
    if k in _memo:
        return _memo[k]
    if name in seen:
        return None
    if name in spec.TOKENS:
        r = [token_text(name)]
    else:
        r = _min_expr(spec.expr_of(name), seen + (name,))
    if r is not None and not seen:
        _memo[k] = r
    return r


def token_text(name):
    return spec.PUNCT.get(name) or spec.KEYWORDS.get(name) or SAMPLE_TOK[name][0]


def _min_expr(e, seen):
    k = e[0]
    if k == 'nt':
        return minimal(e[1], seen)
    if k in ('opt', 'vec', 'if'):
        return []
    if k == 'box':
        return _min_expr(e[1], seen)
    if k == 'tup':
        return _cat(_min_expr(x, seen) for x in e[1])
    if k == 'br':
        return _cat([[token_text(e[2][1])], _min_expr(e[3], seen), [token_text(e[4][1])]])
    if k == 'struct':
        return _cat(_min_expr(x, seen) for _, x in e[2])
    if k == 'choice':
        best = None
        for _, x in e[2]:
            r = _min_expr(x, seen)
            if r is not None and (best is None or len(r) < len(best)):
                best = r
        return best
    if k == 'bool':
        return ['true']
    if k == 'sep':
        return [] if e[1] == 'Punctuated' else _min_expr(e[2], seen)
    if k == 'document':
        return []
    raise ValueError(k)


def _cat(xs):
    out = []
    for x in xs:
        if x is None:
            return None
        out += x
    return out


def samples(name, limit=40):
    k = ('s', name, limit)
    if k in _memo:
        return _memo[k]
    out = []
    if name == '$sp':
        out = [[''], [' '], ['/*c*/']]
    elif name in SAMPLE_TOK:
        out = [[t] for t in SAMPLE_TOK[name]]
    elif name in spec.TOKENS:
        out = [[token_text(name)]]
    else:
        seen = set()
        for d in (1, 2):
            for s in variants(spec.expr_of(name), d):
                t = tuple(s)
                if t not in seen:
                    seen.add(t)
                    out.append(list(s))
        # a spread rather than only the shortest
        short = sorted(out, key=len)
        if len(short) > limit:
            rng = random.Random(len(name))
            short = short[:limit // 2] + rng.sample(short[limit // 2:], limit - limit // 2)
        out = short
    _memo[k] = out
    return out


def variants(e, depth):
    """Sentences in which one part at a time departs from the minimum."""
    k = e[0]
    if k == 'nt':
        if e[1] in spec.TOKENS:
            return samples(e[1])
        if depth <= 0:
            m = minimal(e[1])
            return [m]
        return samples_at(e[1], depth - 1)
    if k == 'opt' or k == 'if':
        x = e[1] if k == 'opt' else e[2]
        return [[]] + variants(x, depth)
    if k == 'box':
        return variants(e[1], depth)
    if k == 'vec':
        vs = variants(e[1], depth)
        return [[]] + vs[:12] + [vs[0] + vs[-1]]
    if k == 'tup':
        return _product([variants(x, depth) for x in e[1]])
    if k == 'br':
        o, c = token_text(e[2][1]), token_text(e[4][1])
        return [[o] + v + [c] for v in variants(e[3], depth)]
    if k == 'struct':
        return _product([variants(x, depth) for _, x in e[2]])
    if k == 'choice':
        out = []
        for _, x in e[2]:
            out += variants(x, depth)[:10]
        return out
    if k == 'bool':
        return [['true'], ['false']]
    if k == 'sep':
        vs = variants(e[2], depth)
        s = [token_text(e[3][1])]
        out = [vs[0] + s + vs[-1]] + vs[:8] + [vs[0] + s + vs[0] + s + vs[0]]
        if e[1] == 'PunctuatedNonEmpty':
            out.append(vs[0] + s)
        else:
            out.insert(0, [])
        return out
    if k == 'document':
        return variants(e[1], depth)
    raise ValueError(k)


def samples_at(name, depth):
    k = ('sa', name, depth)
    if k not in _memo:
        _memo[k] = [minimal(name)]          # cut recursion
        _memo[k] = variants(spec.expr_of(name), depth)[:60]
    return _memo[k]


def _product(parts):
    """All minimal, then one part varied at a time, then some random mixtures."""
    base = [min(p, key=len) if p else [] for p in parts]
    out = [sum(base, [])]
    for i, p in enumerate(parts):
        for v in p:
            if v != base[i]:
                out.append(sum(base[:i], []) + v + sum(base[i + 1:], []))
    rng = random.Random(7)
    for _ in range(12):
        out.append(sum((rng.choice(p) if p else [] for p in parts), []))
    return out


# ------------------------------------------------------------------ first tokens
def _first(e, first, nullable):
    k = e[0]
    if k == 'nt':
        return set(first[e[1]]), False
    if k == 'opt':
        return _first(e[1], first, nullable)[0], True
    if k == 'if':
        return _first(e[2], first, nullable)[0], True
    if k == 'vec':
        return _first(e[1], first, nullable)[0], True
    if k == 'box':
        return _first(e[1], first, nullable)
    if k == 'tup':
        return _seq(e[1], first, nullable)
    if k == 'br':
        return {e[2][1]}, False
    if k == 'struct':
        return _seq([x for _, x in e[2]], first, nullable)
    if k == 'choice':
        s = set()
        n = False
        for _, x in e[2]:
            a, b = _first(x, first, nullable)
            s |= a
            n = n or b
        return s, n
    if k == 'bool':
        return {e[1], e[2]}, False
    if k == 'sep':
        a, b = _first(e[2], first, nullable)
        return a, b or e[1] == 'Punctuated'
    raise ValueError(k)


def _seq(es, first, nullable):
    s = set()
    for x in es:
        a, b = _first(x, first, nullable)
        s |= a
        if not b:
            return s, False
    return s, True


def first_tokens():
    if 'first' in _memo:
        return _memo['first']
    first = {n: ({n} if n in spec.TOKENS else set()) for n in spec.NAMES}
    changed = True
    while changed:
        changed = False
        for n in spec.COMPOSITE:
            s, nul = _first(spec.expr_of(n), first, None)
            assert not nul, n
            if s - first[n]:
                first[n] |= s
                changed = True
    _memo['first'] = first
    return first


_PAIRS = {frozenset(x) for x in [
    ('Minus', 'NegInfinity'), ('Minus', 'DecLit'), ('Minus', 'HexLit'), ('Minus', 'OctLit'),
    ('Minus', 'FloatValueLit'), ('Dot', 'Ellipsis'), ('Dot', 'FloatValueLit'),
    ('DecLit', 'FloatValueLit'), ('OctLit', 'FloatValueLit'), ('HexLit', 'OctLit')]}


def compatible(a, b):
    """Can two tokens both match at one place?"""
    if a == b or frozenset((a, b)) in _PAIRS:
        return True
    if a == 'Identifier':
        a, b = b, a
    return b == 'Identifier' and a in spec.KEYWORDS and a != 'NegInfinity'


def may_both(a, b):
    k = ('both', a, b)
    if k not in _memo:
        f = first_tokens()
        _memo[k] = any(compatible(x, y) for x in f[a] for y in f[b])
    return _memo[k]
