"""The tree as a user of the crate sees it: where its types live, and what can be done with them.

One function per type, in a generated crate, takes a value of the type apart into all of its parts, gives every part
the type the grammar says, and builds the value again. It compiles exactly if every part is public."""
import rules
import spec

MODULES = {
    'argument': 'Argument SingleArgument VariadicArgument',
    'attribute': 'ExtendedAttribute ExtendedAttributeArgList ExtendedAttributeNamedArgList ExtendedAttributeIdentList '
                 'ExtendedAttributeIdent ExtendedAttributeWildCard ExtendedAttributeNoArgs IdentifierOrString',
    'common': 'Identifier Default',
    'dictionary': 'DictionaryMember',
    'interface': 'Inheritance InterfaceMember ConstMember AttributeInterfaceMember ConstructorInterfaceMember '
                 'OperationInterfaceMember IterableInterfaceMember SingleTypedIterable DoubleTypedIterable '
                 'AsyncIterableInterfaceMember SingleTypedAsyncIterable DoubleTypedAsyncIterable MaplikeInterfaceMember '
                 'SetlikeInterfaceMember StringifierMember Special StringifierOrInheritOrStatic StringifierOrStatic',
    'literal': 'IntegerLit DecLit HexLit OctLit StringLit DefaultValue EmptyArrayLit EmptyDictionaryLit ConstValue '
               'BooleanLit FloatLit FloatValueLit',
    'mixin': 'MixinMember OperationMixinMember AttributeMixinMember',
    'namespace': 'NamespaceMember ConstNamespaceMember OperationNamespaceMember AttributeNamespaceMember',
    'types': 'Type SingleType NonAnyType SequenceType FrozenArrayType PromiseType IntegerType LongLongType LongType '
             'ShortType FloatingPointType FloatType DoubleType RecordType RecordKeyType UnionMemberType ConstType '
             'ReturnType AttributedType AttributedNonAnyType',
}
PLACE = {n: 'weedle::%s::%s' % (m, n) for m, ns in MODULES.items() for n in ns.split()}
PLACE.update({n: 'weedle::term::' + n for n in list(spec.PUNCT) + list(spec.KEYWORDS)})
for _n in spec.COMPOSITE:
    PLACE.setdefault(_n, 'weedle::' + _n)

# what a user crate must not see: (rustc's code) -> it is about the reach of the type and nothing else
REACH = {'E0451', 'E0616', 'E0603', 'E0412', 'E0425', 'E0433', 'E0432', 'E0422', 'E0423', 'E0574', 'E0531', 'E0532', 'E0026', 'E0027',
         'E0004', 'E0638', 'E0639', 'E0560', 'E0063', 'E0308', 'E0599', 'E0107', 'E0164', 'E0769', 'E0618', 'E0061', 'E0023',
         'E0277', 'E0726', 'E0261'}
ALIASES = {
    'weedle::Definitions': spec.vec(spec.T('Definition')),
    'weedle::EnumValueList': spec.punct1(spec.T('StringLit'), spec.T('Comma')),
    'weedle::argument::ArgumentList': spec.punct(spec.T('Argument'), spec.T('Comma')),
    'weedle::attribute::ExtendedAttributeList': spec.ATTRS,
    'weedle::attribute::IdentifierList': spec.punct(spec.IDENT, spec.T('Comma')),
    'weedle::dictionary::DictionaryMembers': spec.vec(spec.T('DictionaryMember')),
    'weedle::interface::InterfaceMembers': spec.vec(spec.T('InterfaceMember')),
    'weedle::mixin::MixinMembers': spec.vec(spec.T('MixinMember')),
    'weedle::namespace::NamespaceMembers': spec.vec(spec.T('NamespaceMember')),
    'weedle::types::UnionType': spec.UNION,
}


def parts(e):
    k = e[0]
    if k == 'nt':
        yield e[1]
    elif k in ('opt', 'box', 'vec'):
        yield from parts(e[1])
    elif k == 'if':
        yield from parts(e[2])
    elif k == 'tup':
        for x in e[1]:
            yield from parts(x)
    elif k == 'br':
        yield from parts(e[3])
    elif k == 'sep':
        yield from parts(e[2])
    elif k in ('struct', 'choice'):
        for _, x in e[2]:
            yield from parts(x)


def borrowing():
    """The types that hold text."""
    out = set(spec.LITERALS)
    while True:
        new = {n for n in spec.COMPOSITE if n not in out and any(x in out for x in parts(spec.expr_of(n)))}
        if not new:
            return out
        out |= new


HOLDS = borrowing()


def named(n):
    return PLACE[n] + ("<'a>" if n in HOLDS else '')


def rust(e):
    k = e[0]
    if k == 'nt':
        return named(e[1])
    if k in ('opt', 'box', 'vec'):
        return '%s<%s>' % ({'opt': 'Option', 'box': 'Box', 'vec': 'Vec'}[k], rust(e[1]))
    if k == 'if':
        return rust(e[2])
    if k == 'tup':
        return '(%s)' % ', '.join(rust(x) for x in e[1])
    if k == 'br':
        return 'weedle::common::%s<%s>' % (e[1], rust(e[3]))
    if k == 'sep':
        return 'weedle::common::%s<%s, %s>' % (e[1], rust(e[2]), rust(e[3]))
    if k == 'struct':
        return 'weedle::types::%s<%s>' % (e[1], rust(dict(e[2])['type_']))
    if k == 'bool':
        return 'bool'
    raise ValueError(k)


def record(path, generics, ty, fields):
    """fields: [(name, type)]"""
    pat = ', '.join('%s: v%d' % (f, i) for i, (f, _) in enumerate(fields))
    lets = ' '.join('let v%d: %s = v%d;' % (i, t, i) for i, (_, t) in enumerate(fields))
    return 'fn f%s(x: %s) -> %s { let %s { %s } = x; %s %s { %s } }' % (generics, ty, ty, path, pat, lets, path, pat)


def programs():
    """(name, what, one line of Rust) of every obligation."""
    for n in sorted(spec.PUNCT) + sorted(spec.KEYWORDS):
        yield n, 'the token type', 'fn f(x: %s) -> %s { let %s = x; %s }' % (PLACE[n], PLACE[n], PLACE[n], PLACE[n])
    for n in sorted(spec.LITERALS):
        yield n, 'the text of the token', record(PLACE[n], "<'a>", named(n), [('0', "&'a str")])
    for n in sorted(spec.STRUCTS):
        yield n, 'every field', record(PLACE[n], "<'a>", named(n), [(f, rust(x)) for f, x in spec.STRUCTS[n]])
    for n in sorted(spec.ENUMS):
        arms = ' '.join('%s::%s(v) => { let v: %s = v; %s::%s(v) }' % (PLACE[n], v, rust(x), PLACE[n], v) for v, x in spec.ENUMS[n])
        yield n, 'every variant', "fn f<'a>(x: %s) -> %s { match x { %s } }" % (named(n), named(n), arms)
    for e in (spec.paren, spec.bracket, spec.brace, spec.generics):
        _, n, (o, ot), _, (c, ct) = e(spec.IDENT)
        p = 'weedle::common::' + n
        yield n, 'every field', record(p, '<T>', p + '<T>', [(o, PLACE[ot]), ('body', 'T'), (c, PLACE[ct])])
    for n in ('Punctuated', 'PunctuatedNonEmpty'):
        p = 'weedle::common::' + n
        yield n, 'every field', record(p, '<T, S>', p + '<T, S>', [('list', 'Vec<T>'), ('separator', 'S')])
    p = 'weedle::types::MayBeNull'
    yield 'MayBeNull', 'every field', record(p, '<T>', p + '<T>', [('type_', 'T'), ('q_mark', 'Option<weedle::term::QMark>')])
    for p, e in sorted(ALIASES.items()):
        yield p.split('::')[-1], 'the list type', "fn f<'a>(x: %s<'a>) -> %s { x }" % (p, rust(e))
    yield 'parse', 'the document parser', \
        "fn f<'a>(s: &'a str) -> Result<weedle::Definitions<'a>, weedle::Err<(&'a str, weedle::ErrorKind)>> { weedle::parse(s) }"
    for n in sorted(spec.NAMES):
        yield n, 'the parser of the type', \
            "fn f<'a>(s: &'a str) -> weedle::IResult<&'a str, %s> { <%s as weedle::Parse<'a>>::parse(s) }" % (named(n), named(n))


def reach(tree):
    """Every part of the tree can be named, read and built outside the crate."""
    r = rules.Rule()
    out = ['#![allow(dead_code)]']
    at = {}
    for i, (n, what, line) in enumerate(programs()):
        out.append('mod m%d { pub %s }' % (i, line))
        at[len(out)] = (n, what)
    r.obligations = len(at)
    r.looked = {'obligations': len(at)}
    bad = {}
    # name resolution errors hide the errors of later phases: take the lines out and look again
    for _ in range(4):
        errs = tree.rustc('reach', '\n'.join(out) + '\n')
        if not errs:
            break
        for l, code, msg in errs:
            if l not in at or code not in REACH:
                r.undecided.append((at.get(l, ('?',))[0], 'user crate: %s %s' % (code, msg[:200])))
            elif l not in bad:
                bad[l] = msg
            if l in at:
                out[l - 1] = ''
        if not any(l in at for l, _, _ in errs):
            return r
    for l, msg in sorted(bad.items()):
        n, what = at[l]
        r.problems.append((n, 'reach', '%s of %s cannot be used from outside the crate: %s' % (what, n, msg[:200]), PLACE.get(n, n)))
    r.discharged = len(at) - len(bad) - len({u[0] for u in r.undecided})
    return r
