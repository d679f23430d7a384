"""Type-level witnesses: programs that use the crate and must, or must not, compile."""
import rules
import spec

BRACKETS = {'OpenParen', 'CloseParen', 'OpenBracket', 'CloseBracket', 'OpenBrace', 'CloseBrace'}
# spellings that term! does not offer on the tree this was written for
NOT_IN_MACRO = set()


def term_macro(tree):
    """term!(spelling) is the type of that spelling."""
    r = rules.Rule()
    names = dict(spec.PUNCT)
    names.update(spec.KEYWORDS)
    lines = ['#![allow(dead_code)]']
    at = {}
    for i, (ty, text) in enumerate(sorted(names.items())):
        if ty in NOT_IN_MACRO:
            continue
        arg = ty if ty in BRACKETS else text.replace('-Infinity', '- Infinity')
        lines.append('fn f%d(x: weedle::term!(%s)) -> weedle::term::%s { x }' % (i, arg, ty))
        at[len(lines)] = (ty, arg)
    errs = tree.rustc('terms', '\n'.join(lines) + '\n')
    r.obligations = len(at)
    bad = set()
    for l, code, msg in errs:
        if l in at and (code == 'E0308' or 'no rules expected' in msg or 'unexpected end of macro' in msg):
            ty, arg = at[l]
            bad.add(l)
            r.problems.append((ty, 'term!', 'term!(%s) is not term::%s: %s' % (arg, ty, msg), 'src/term.rs: macro term!'))
        else:
            r.undecided.append(('term!', msg[:200]))
            bad.add(None)
    r.discharged = len(at) - len(bad) if None not in bad else 0
    r.looked = {'spellings': len(at)}
    return r


def outlives(tree, prog):
    """No tree outlives the input it was parsed from."""
    r = rules.Rule()
    types = []
    for a in prog.d['adts']:
        n = prog.nn(a['ty'])
        if a['pub'] and a['nlifetimes'] == 1 and a['ntypes'] == 0 and n in prog.parse_inst and holds_text(prog, a['ty']):
            types.append(a['path'])

    def src(life, ts):
        out = ['#![allow(dead_code, unused_imports)]', 'use weedle::Parse;']
        at = {}
        for i, p in enumerate(ts):
            out.append('fn t%d<\'a>(s: &\'a str) -> Option<%s<%s>> { <%s as Parse<\'a>>::parse(s).ok().map(|x| x.1) }'
                       % (i, p, life, p + '<\'_>'))
            at[len(out)] = p
        out.append('fn doc<\'a>(s: &\'a str) -> Option<weedle::Definitions<%s>> { weedle::parse(s).ok() }' % life)
        at[len(out)] = 'weedle::parse'
        return '\n'.join(out) + '\n', at
    # the compiling twin first: what it rejects says nothing about lifetimes
    for _ in range(4):
        text, at = src("'a", types)
        errs = tree.rustc('twin', text)
        if not errs:
            break
        gone = {at.get(l) for l, _, _ in errs}
        for l, c, m in errs:
            r.undecided.append((at.get(l, '?'), 'twin does not compile: ' + m[:160]))
        if not gone & set(types):
            r.obligations = len(types) + 1
            return r
        types = [t for t in types if t not in gone]
    text, at = src("'static", types)
    errs = tree.rustc('outlives', text)
    hit = {}
    for l, c, m in errs:
        if l in at:
            hit[at[l]] = m
    r.obligations = len(at)
    for p in at.values():
        if p in hit:
            r.discharged += 1
        else:
            r.problems.append((p.split('::')[-1], 'outlives', 'a %s can outlive the input it was parsed from' % p, p))
    r.looked = {'types': len(at)}
    return r


def holds_text(prog, ty):
    seen = set()
    work = [ty]
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        x = prog.types[t]
        k = x['k']
        if k == 'str':
            return True
        if k == 'adt':
            work += [y for y in x['args'] if isinstance(y, int)]
            if x['crate'] == prog.crate:
                for v in x['vs']:
                    work += [f[1] for f in v['f']]
        elif k == 'tuple':
            work += x['ts']
        elif k in ('ref', 'slice', 'array', 'ptr'):
            work.append(x['t'])
    return False
