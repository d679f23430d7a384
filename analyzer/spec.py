"""The reference: the documented WebIDL grammar of weedle and the AST that goes with it.

This is the oracle.  It is written from the documentation of the AST types (and the
WebIDL grammar they quote), independent of how the parsers are written.
"""
import charset as cs
from lang import seq, alt, star, plus, opt, ch, lit, mark, ANY, END

# ------------------------------------------------------------------ terminals
PUNCT = {
    'OpenParen': '(', 'CloseParen': ')', 'OpenBracket': '[', 'CloseBracket': ']',
    'OpenBrace': '{', 'CloseBrace': '}', 'Comma': ',', 'Minus': '-', 'Dot': '.',
    'Ellipsis': '...', 'Colon': ':', 'SemiColon': ';', 'LessThan': '<', 'Assign': '=',
    'GreaterThan': '>', 'QMark': '?', 'Asterisk': '*',
}

KEYWORDS = {
    'Or': 'or', 'Optional': 'optional', 'Async': 'async', 'Attribute': 'attribute',
    'Callback': 'callback', 'Const': 'const', 'Deleter': 'deleter',
    'Dictionary': 'dictionary', 'Enum': 'enum', 'Getter': 'getter', 'Includes': 'includes',
    'Inherit': 'inherit', 'Interface': 'interface', 'Iterable': 'iterable',
    'Maplike': 'maplike', 'Namespace': 'namespace', 'Partial': 'partial',
    'Required': 'required', 'Setlike': 'setlike', 'Setter': 'setter', 'Static': 'static',
    'Stringifier': 'stringifier', 'Typedef': 'typedef', 'Unrestricted': 'unrestricted',
    'Symbol': 'symbol', 'NegInfinity': '-Infinity', 'ByteString': 'ByteString',
    'DOMString': 'DOMString', 'FrozenArray': 'FrozenArray', 'Infinity': 'Infinity',
    'NaN': 'NaN', 'USVString': 'USVString', 'Any': 'any', 'Boolean': 'boolean',
    'Byte': 'byte', 'Double': 'double', 'False': 'false', 'Float': 'float', 'Long': 'long',
    'Null': 'null', 'Object': 'object', 'Octet': 'octet', 'Sequence': 'sequence',
    'Short': 'short', 'True': 'true', 'Unsigned': 'unsigned', 'Undefined': 'undefined',
    'Record': 'record', 'ArrayBuffer': 'ArrayBuffer', 'DataView': 'DataView',
    'Int8Array': 'Int8Array', 'Int16Array': 'Int16Array', 'Int32Array': 'Int32Array',
    'Uint8Array': 'Uint8Array', 'Uint16Array': 'Uint16Array', 'Uint32Array': 'Uint32Array',
    'Uint8ClampedArray': 'Uint8ClampedArray', 'Float32Array': 'Float32Array',
    'Float64Array': 'Float64Array', 'ArrayBufferView': 'ArrayBufferView',
    'BufferSource': 'BufferSource', 'Promise': 'Promise', 'Error': 'Error',
    'ReadOnly': 'readonly', 'Mixin': 'mixin', 'Implements': 'implements',
    'LegacyCaller': 'legacycaller', 'Constructor': 'constructor',
}

# ------------------------------------------------------------------ characters
def _r(a, b):
    return cs.rng(ord(a), ord(b))


WS = cs.of('\t\n\r ')
DIGIT = _r('0', '9')
LETTER = cs.union(_r('a', 'z'), _r('A', 'Z'))
WORD = cs.union(cs.union(DIGIT, LETTER), cs.of('_-'))
NL = cs.of('\n')


def other(s):
    return cs.diff(cs.FULL, s)


BLOCK = seq(lit('/*'),
            star(alt(ch(other(cs.of('*'))), seq(plus(ch(cs.of('*'))), ch(other(cs.of('*/')))))),
            plus(ch(cs.of('*'))), lit('/'))
LINE = seq(lit('//'), star(ch(other(NL))), alt(ch(NL), END))
TRIVIA = star(alt(ch(WS), LINE, BLOCK))

# marks
CS, CE, CORE, FIN, FIN2 = 1, 2, 4, 8, 16

_D = ch(DIGIT)
_SIGN = opt(lit('-'))
_EXP = seq(ch(cs.of('Ee')), opt(ch(cs.of('+-'))), plus(_D))

# name -> (before the value, value, after the value)
LITERALS = {
    'Identifier': (opt(lit('_')), seq(ch(LETTER), star(ch(WORD))), seq()),
    'DecLit': (seq(), seq(_SIGN, ch(_r('1', '9')), star(_D)), seq()),
    'HexLit': (seq(), seq(_SIGN, lit('0'), ch(cs.of('Xx')),
                          plus(ch(cs.union(DIGIT, cs.union(_r('a', 'f'), _r('A', 'F')))))), seq()),
    'OctLit': (seq(), seq(_SIGN, lit('0'), star(ch(_r('0', '7')))), seq()),
    'FloatValueLit': (seq(), seq(_SIGN, alt(
        seq(alt(seq(plus(_D), lit('.'), star(_D)), seq(star(_D), lit('.'), plus(_D))), opt(_EXP)),
        seq(plus(_D), _EXP))), seq()),
    'StringLit': (lit('"'), star(ch(other(cs.of('"')))), lit('"')),
}

TOKENS = set(PUNCT) | set(KEYWORDS) | set(LITERALS)


def token(name):
    """(before, value, after, value kept, whole words only) of a token type."""
    if name in PUNCT:
        return seq(), lit(PUNCT[name]), seq(), False, False
    if name in KEYWORDS:
        return seq(), lit(KEYWORDS[name]), seq(), False, True
    a, b, c = LITERALS[name]
    return a, b, c, True, False


# ------------------------------------------------------------------ composite types
# ('nt', T) | ('opt', e) | ('box', e) | ('vec', e) | ('tup', [e..]) | ('inst', container, [e..])
def nt(n):
    return ('nt', n)


def opt_(e):
    return ('opt', e)


def box(e):
    return ('box', e)


def vec(e):
    return ('vec', e)


def tup(*es):
    return ('tup', es)


def paren(e):
    return ('br', 'Parenthesized', ('open_paren', 'OpenParen'), e, ('close_paren', 'CloseParen'))


def bracket(e):
    return ('br', 'Bracketed', ('open_bracket', 'OpenBracket'), e, ('close_bracket', 'CloseBracket'))


def brace(e):
    return ('br', 'Braced', ('open_brace', 'OpenBrace'), e, ('close_brace', 'CloseBrace'))


def generics(e):
    return ('br', 'Generics', ('open_angle', 'LessThan'), e, ('close_angle', 'GreaterThan'))


def punct(e, s):
    return ('sep', 'Punctuated', e, s)


def punct1(e, s):
    return ('sep', 'PunctuatedNonEmpty', e, s)


def nullable(e):
    return ('struct', 'MayBeNull', (('type_', e), ('q_mark', opt_(nt('QMark')))))


IDENT = nt('Identifier')
ATTRS = bracket(punct(nt('ExtendedAttribute'), nt('Comma')))
OATTRS = opt_(ATTRS)
ARGS = paren(punct(nt('Argument'), nt('Comma')))
UNION = paren(punct(nt('UnionMemberType'), nt('Or')))
SEMI = ('semi_colon', nt('SemiColon'))
A = ('attributes', OATTRS)


def T(n):
    return nt(n)


STRUCTS = {
    # lib.rs
    'CallbackDefinition': [A, ('callback', T('Callback')), ('identifier', IDENT), ('assign', T('Assign')),
                           ('return_type', T('ReturnType')), ('arguments', ARGS), SEMI],
    'CallbackInterfaceDefinition': [A, ('callback', T('Callback')), ('interface', T('Interface')),
                                    ('identifier', IDENT), ('inheritance', opt_(T('Inheritance'))),
                                    ('members', brace(vec(T('InterfaceMember')))), SEMI],
    'InterfaceDefinition': [A, ('interface', T('Interface')), ('identifier', IDENT),
                            ('inheritance', opt_(T('Inheritance'))),
                            ('members', brace(vec(T('InterfaceMember')))), SEMI],
    'InterfaceMixinDefinition': [A, ('interface', T('Interface')), ('mixin', T('Mixin')), ('identifier', IDENT),
                                 ('members', brace(vec(T('MixinMember')))), SEMI],
    'NamespaceDefinition': [A, ('namespace', T('Namespace')), ('identifier', IDENT),
                            ('members', brace(vec(T('NamespaceMember')))), SEMI],
    'DictionaryDefinition': [A, ('dictionary', T('Dictionary')), ('identifier', IDENT),
                             ('inheritance', opt_(T('Inheritance'))),
                             ('members', brace(vec(T('DictionaryMember')))), SEMI],
    'PartialInterfaceDefinition': [A, ('partial', T('Partial')), ('interface', T('Interface')),
                                   ('identifier', IDENT), ('members', brace(vec(T('InterfaceMember')))), SEMI],
    'PartialInterfaceMixinDefinition': [A, ('partial', T('Partial')), ('interface', T('Interface')),
                                        ('mixin', T('Mixin')), ('identifier', IDENT),
                                        ('members', brace(vec(T('MixinMember')))), SEMI],
    'PartialDictionaryDefinition': [A, ('partial', T('Partial')), ('dictionary', T('Dictionary')),
                                    ('identifier', IDENT), ('members', brace(vec(T('DictionaryMember')))), SEMI],
    'PartialNamespaceDefinition': [A, ('partial', T('Partial')), ('namespace', T('Namespace')),
                                   ('identifier', IDENT), ('members', brace(vec(T('NamespaceMember')))), SEMI],
    'EnumDefinition': [A, ('enum_', T('Enum')), ('identifier', IDENT),
                       ('values', brace(punct1(T('StringLit'), T('Comma')))), SEMI],
    'TypedefDefinition': [A, ('typedef', T('Typedef')), ('type_', T('AttributedType')), ('identifier', IDENT), SEMI],
    'IncludesStatementDefinition': [A, ('lhs_identifier', IDENT), ('includes', T('Includes')),
                                    ('rhs_identifier', IDENT), SEMI],
    'ImplementsDefinition': [A, ('lhs_identifier', IDENT), ('includes', T('Implements')),
                             ('rhs_identifier', IDENT), SEMI],
    # interface.rs
    'Inheritance': [('colon', T('Colon')), ('identifier', IDENT)],
    'ConstMember': [A, ('const_', T('Const')), ('const_type', T('ConstType')), ('identifier', IDENT),
                    ('assign', T('Assign')), ('const_value', T('ConstValue')), SEMI],
    'AttributeInterfaceMember': [A, ('modifier', opt_(T('StringifierOrInheritOrStatic'))),
                                 ('readonly', opt_(T('ReadOnly'))), ('attribute', T('Attribute')),
                                 ('type_', T('AttributedType')), ('identifier', IDENT), SEMI],
    'ConstructorInterfaceMember': [A, ('constructor', T('Constructor')), ('args', ARGS), SEMI],
    'OperationInterfaceMember': [A, ('modifier', opt_(T('StringifierOrStatic'))), ('special', opt_(T('Special'))),
                                 ('return_type', T('ReturnType')), ('identifier', opt_(IDENT)), ('args', ARGS), SEMI],
    'SingleTypedIterable': [A, ('iterable', T('Iterable')), ('generics', generics(T('AttributedType'))), SEMI],
    'DoubleTypedIterable': [A, ('iterable', T('Iterable')),
                            ('generics', generics(tup(T('AttributedType'), T('Comma'), T('AttributedType')))), SEMI],
    'SingleTypedAsyncIterable': [A, ('async_iterable', tup(T('Async'), T('Iterable'))),
                                 ('generics', generics(T('AttributedType'))), ('args', opt_(ARGS)), SEMI],
    'DoubleTypedAsyncIterable': [A, ('async_iterable', tup(T('Async'), T('Iterable'))),
                                 ('generics', generics(tup(T('AttributedType'), T('Comma'), T('AttributedType')))),
                                 ('args', opt_(ARGS)), SEMI],
    'MaplikeInterfaceMember': [A, ('readonly', opt_(T('ReadOnly'))), ('maplike', T('Maplike')),
                               ('generics', generics(tup(T('AttributedType'), T('Comma'), T('AttributedType')))),
                               SEMI],
    'SetlikeInterfaceMember': [A, ('readonly', opt_(T('ReadOnly'))), ('setlike', T('Setlike')),
                               ('generics', generics(T('AttributedType'))), SEMI],
    'StringifierMember': [A, ('stringifier', T('Stringifier')), SEMI],
    # mixin.rs
    'OperationMixinMember': [A, ('stringifier', opt_(T('Stringifier'))), ('return_type', T('ReturnType')),
                             ('identifier', opt_(IDENT)), ('args', ARGS), SEMI],
    'AttributeMixinMember': [A, ('stringifier', opt_(T('Stringifier'))), ('readonly', opt_(T('ReadOnly'))),
                             ('attribute', T('Attribute')), ('type_', T('AttributedType')), ('identifier', IDENT),
                             SEMI],
    # namespace.rs
    'ConstNamespaceMember': [A, ('const_', T('Const')), ('const_type', T('ConstType')), ('identifier', IDENT),
                             ('assign', T('Assign')), ('const_value', T('ConstValue')), SEMI],
    'OperationNamespaceMember': [A, ('return_type', T('ReturnType')), ('identifier', opt_(IDENT)), ('args', ARGS),
                                 SEMI],
    'AttributeNamespaceMember': [A, ('readonly', T('ReadOnly')), ('attribute', T('Attribute')),
                                 ('type_', T('AttributedType')), ('identifier', IDENT), SEMI],
    # dictionary.rs
    'DictionaryMember': [A, ('required', opt_(T('Required'))), ('type_', T('Type')), ('identifier', IDENT),
                         ('default', opt_(T('Default'))), SEMI],
    # argument.rs  (a default only after `optional`)
    'SingleArgument': [A, ('optional', opt_(T('Optional'))), ('type_', T('AttributedType')), ('identifier', IDENT),
                       ('default', ('if', 'optional', opt_(T('Default'))))],
    'VariadicArgument': [A, ('type_', T('Type')), ('ellipsis', T('Ellipsis')), ('identifier', IDENT)],
    # attribute.rs
    'ExtendedAttributeArgList': [('identifier', IDENT), ('args', ARGS)],
    'ExtendedAttributeNamedArgList': [('lhs_identifier', IDENT), ('assign', T('Assign')), ('rhs_identifier', IDENT),
                                      ('args', ARGS)],
    'ExtendedAttributeIdentList': [('identifier', IDENT), ('assign', T('Assign')),
                                   ('list', paren(punct(IDENT, T('Comma'))))],
    'ExtendedAttributeIdent': [('lhs_identifier', IDENT), ('assign', T('Assign')), ('rhs', T('IdentifierOrString'))],
    'ExtendedAttributeWildCard': [('lhs_identifier', IDENT), ('assign', T('Assign')), ('rhs', T('Asterisk'))],
    'ExtendedAttributeNoArgs': [('0', IDENT)],
    # common.rs
    'Default': [('assign', T('Assign')), ('value', T('DefaultValue'))],
    # literal.rs
    'EmptyArrayLit': [('open_bracket', T('OpenBracket')), ('close_bracket', T('CloseBracket'))],
    'EmptyDictionaryLit': [('open_brace', T('OpenBrace')), ('close_brace', T('CloseBrace'))],
    'BooleanLit': [('0', ('bool', 'True', 'False'))],
    # types.rs
    'SequenceType': [('sequence', T('Sequence')), ('generics', generics(box(T('Type'))))],
    'FrozenArrayType': [('frozen_array', T('FrozenArray')), ('generics', generics(box(T('Type'))))],
    'PromiseType': [('promise', T('Promise')), ('generics', generics(box(T('ReturnType'))))],
    'LongLongType': [('unsigned', opt_(T('Unsigned'))), ('long_long', tup(T('Long'), T('Long')))],
    'LongType': [('unsigned', opt_(T('Unsigned'))), ('long', T('Long'))],
    'ShortType': [('unsigned', opt_(T('Unsigned'))), ('short', T('Short'))],
    'FloatType': [('unrestricted', opt_(T('Unrestricted'))), ('float', T('Float'))],
    'DoubleType': [('unrestricted', opt_(T('Unrestricted'))), ('double', T('Double'))],
    'RecordType': [('record', T('Record')),
                   ('generics', generics(tup(box(T('RecordKeyType')), T('Comma'), box(T('Type')))))],
    'AttributedType': [A, ('type_', T('Type'))],
    'AttributedNonAnyType': [A, ('type_', T('NonAnyType'))],
}


def N(n):
    return nullable(nt(n))


ENUMS = {
    'Definition': [('Callback', T('CallbackDefinition')), ('CallbackInterface', T('CallbackInterfaceDefinition')),
                   ('Interface', T('InterfaceDefinition')), ('InterfaceMixin', T('InterfaceMixinDefinition')),
                   ('Namespace', T('NamespaceDefinition')), ('Dictionary', T('DictionaryDefinition')),
                   ('PartialInterface', T('PartialInterfaceDefinition')),
                   ('PartialInterfaceMixin', T('PartialInterfaceMixinDefinition')),
                   ('PartialDictionary', T('PartialDictionaryDefinition')),
                   ('PartialNamespace', T('PartialNamespaceDefinition')), ('Enum', T('EnumDefinition')),
                   ('Typedef', T('TypedefDefinition')), ('IncludesStatement', T('IncludesStatementDefinition')),
                   ('Implements', T('ImplementsDefinition'))],
    'InterfaceMember': [('Const', T('ConstMember')), ('Attribute', T('AttributeInterfaceMember')),
                        ('Constructor', T('ConstructorInterfaceMember')),
                        ('Operation', T('OperationInterfaceMember')), ('Iterable', T('IterableInterfaceMember')),
                        ('AsyncIterable', T('AsyncIterableInterfaceMember')),
                        ('Maplike', T('MaplikeInterfaceMember')), ('Setlike', T('SetlikeInterfaceMember')),
                        ('Stringifier', T('StringifierMember'))],
    'IterableInterfaceMember': [('Single', T('SingleTypedIterable')), ('Double', T('DoubleTypedIterable'))],
    'AsyncIterableInterfaceMember': [('Single', T('SingleTypedAsyncIterable')),
                                     ('Double', T('DoubleTypedAsyncIterable'))],
    'Special': [('Getter', T('Getter')), ('Setter', T('Setter')), ('Deleter', T('Deleter')),
                ('LegacyCaller', T('LegacyCaller'))],
    'StringifierOrInheritOrStatic': [('Stringifier', T('Stringifier')), ('Inherit', T('Inherit')),
                                     ('Static', T('Static'))],
    'StringifierOrStatic': [('Stringifier', T('Stringifier')), ('Static', T('Static'))],
    'MixinMember': [('Const', T('ConstMember')), ('Operation', T('OperationMixinMember')),
                    ('Attribute', T('AttributeMixinMember')), ('Stringifier', T('StringifierMember'))],
    'NamespaceMember': [('Const', T('ConstNamespaceMember')), ('Operation', T('OperationNamespaceMember')),
                        ('Attribute', T('AttributeNamespaceMember'))],
    'Argument': [('Single', T('SingleArgument')), ('Variadic', T('VariadicArgument'))],
    'ExtendedAttribute': [('ArgList', T('ExtendedAttributeArgList')),
                          ('NamedArgList', T('ExtendedAttributeNamedArgList')),
                          ('IdentList', T('ExtendedAttributeIdentList')), ('Ident', T('ExtendedAttributeIdent')),
                          ('Wildcard', T('ExtendedAttributeWildCard')), ('NoArgs', T('ExtendedAttributeNoArgs'))],
    'IdentifierOrString': [('Identifier', IDENT), ('String', T('StringLit'))],
    'IntegerLit': [('Dec', T('DecLit')), ('Hex', T('HexLit')), ('Oct', T('OctLit'))],
    'FloatLit': [('Value', T('FloatValueLit')), ('NegInfinity', T('NegInfinity')), ('Infinity', T('Infinity')),
                 ('NaN', T('NaN'))],
    'DefaultValue': [('Boolean', T('BooleanLit')), ('EmptyArray', T('EmptyArrayLit')),
                     ('EmptyDictionary', T('EmptyDictionaryLit')), ('Float', T('FloatLit')),
                     ('Integer', T('IntegerLit')), ('Null', T('Null')), ('String', T('StringLit'))],
    'ConstValue': [('Boolean', T('BooleanLit')), ('Float', T('FloatLit')), ('Integer', T('IntegerLit')),
                   ('Null', T('Null'))],
    'Type': [('Single', T('SingleType')), ('Union', nullable(UNION))],
    'SingleType': [('Any', T('Any')), ('NonAny', T('NonAnyType'))],
    'NonAnyType': [('Promise', T('PromiseType')), ('Integer', N('IntegerType')),
                   ('FloatingPoint', N('FloatingPointType')), ('Boolean', N('Boolean')), ('Byte', N('Byte')),
                   ('Octet', N('Octet')), ('ByteString', N('ByteString')), ('DOMString', N('DOMString')),
                   ('USVString', N('USVString')), ('Sequence', N('SequenceType')), ('Object', N('Object')),
                   ('Symbol', N('Symbol')), ('Error', N('Error')), ('ArrayBuffer', N('ArrayBuffer')),
                   ('DataView', N('DataView')), ('Int8Array', N('Int8Array')), ('Int16Array', N('Int16Array')),
                   ('Int32Array', N('Int32Array')), ('Uint8Array', N('Uint8Array')),
                   ('Uint16Array', N('Uint16Array')), ('Uint32Array', N('Uint32Array')),
                   ('Uint8ClampedArray', N('Uint8ClampedArray')), ('Float32Array', N('Float32Array')),
                   ('Float64Array', N('Float64Array')), ('ArrayBufferView', N('ArrayBufferView')),
                   ('BufferSource', N('BufferSource')), ('FrozenArrayType', N('FrozenArrayType')),
                   ('RecordType', N('RecordType')), ('Identifier', N('Identifier'))],
    'IntegerType': [('LongLong', T('LongLongType')), ('Long', T('LongType')), ('Short', T('ShortType'))],
    'FloatingPointType': [('Float', T('FloatType')), ('Double', T('DoubleType'))],
    'RecordKeyType': [('Byte', T('ByteString')), ('DOM', T('DOMString')), ('USV', T('USVString')),
                      ('NonAny', T('NonAnyType'))],
    'UnionMemberType': [('Single', T('AttributedNonAnyType')), ('Union', nullable(UNION))],
    'ConstType': [('Integer', N('IntegerType')), ('FloatingPoint', N('FloatingPointType')),
                  ('Boolean', N('Boolean')), ('Byte', N('Byte')), ('Octet', N('Octet')),
                  ('Identifier', N('Identifier'))],
    'ReturnType': [('Undefined', T('Undefined')), ('Type', T('Type'))],
}

COMPOSITE = set(STRUCTS) | set(ENUMS)
NAMES = TOKENS | COMPOSITE


def expr_of(name):
    if name in STRUCTS:
        return ('struct', name, tuple(STRUCTS[name]))
    return ('choice', name, tuple(ENUMS[name]))


# generic building blocks, checked on tokens that stand for any type
E1, E2, E3 = T('Identifier'), T('StringLit'), T('HexLit')
GENERIC = {
    'Option<Identifier>': opt_(E1),
    'Box<Identifier>': box(E1),
    'Vec<Identifier>': vec(E1),
    '(Identifier,StringLit)': tup(E1, E2),
    '(Identifier,StringLit,HexLit)': tup(E1, E2, E3),
    'Parenthesized<Identifier>': paren(E1),
    'Bracketed<Identifier>': bracket(E1),
    'Braced<Identifier>': brace(E1),
    'Generics<Identifier>': generics(E1),
    'MayBeNull<Identifier>': nullable(E1),
    'Punctuated<Identifier,Comma>': punct(E1, T('Comma')),
    'PunctuatedNonEmpty<Identifier,Comma>': punct1(E1, T('Comma')),
}

# weedle::parse: definitions, trivia, the end of the text
DOCUMENT = ('document', vec(T('Definition')))
