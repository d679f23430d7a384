"""Canonical form of result values."""
from interp import Unknown, LOST


def lex_shape(I, st, v, pos):
    """Structure of a token value; input slices become ('slice', k) with their positions in pos."""
    k = v[0]
    if k == 's':
        pos.append(v[1])
        pos.append('E' if v[2] is None else v[2])
        return 'slice'
    if k == 'lit':
        return ('lit', v[1])
    if k == 'adt':
        t = I.p.types[v[1]]
        name = I.p.nn(v[1]).split('<')[0]
        if t.get('ak') == 'enum' or len(t['vs']) > 1:
            name += '::' + t['vs'][v[2]]['n']
        return (name,) + tuple(lex_shape(I, st, x, pos) for x in v[3])
    if k == 'tup':
        return ('tuple',) + tuple(lex_shape(I, st, x, pos) for x in v[1])
    if k == 'i':
        return ('const', v[1])
    if k == 'vec':
        return 'vec'
    if k == 'box':
        return ('box', lex_shape(I, st, v[1], pos))
    if k in ('lost', 'ch', 'op'):
        return 'dropped'
    raise Unknown('value ' + k)
