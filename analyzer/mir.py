"""The dumped program: types, MIR bodies, liveness."""
import json
import re

LIFE = re.compile(r"'\w+(, )?")


def strip_lifetimes(s):
    s = re.sub(r"<'\w+>", "", s)
    s = re.sub(r"'\w+, ", "", s)
    s = re.sub(r"&'\w+ ", "&", s)
    s = re.sub(r"for<[^>]*> ", "", s)
    s = re.sub(r"'\w+ ?", "", s)
    return s.replace('::::', '::')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.types = d['types']
        self.insts = d['insts']
        self._nn = {}
        self._live = {}
        # names of local ADTs by last path segment; ambiguous ones keep two segments
        segs = {}
        for a in d['adts']:
            segs.setdefault(a['path'].split('::')[-1], set()).add(a['path'])
        self.ambig = {k for k, v in segs.items() if len(v) > 1}
        # of several types with one name, the one that can be parsed keeps the short name
        parsed = {self.types[x['ty']].get('path') for x in d['parse_impls'] if isinstance(x['ty'], int)}
        self.keep = set()
        for k in self.ambig:
            c = [v for v in segs[k] if v in parsed or v.replace(self.crate + '::', 'crate::', 1) in parsed]
            if len(c) == 1:
                self.keep.add(c[0])
        for i in self.insts:
            if i is not None:
                i['npath'] = strip_lifetimes(i['path'])
        # instances of Parse::parse by the implementing type
        self.parse_of = {}

        def note(c):
            if c.get('inst') is not None and c['path'].endswith('::Parse::parse') and c['args']:
                a = [x for x in c['args'] if isinstance(x, int)]
                if a:
                    self.parse_of[c['inst']] = self.nn(a[0])
        for t in self.types:
            if t['k'] == 'fndef':
                note(t['callee'])
        for i in self.insts:
            if i is not None and 'body' in i:
                for b in i['body']['blocks']:
                    if b['t']['k'] == 'call' and 'f' in b['t']:
                        note(b['t']['f'])
        self.parse_inst = {}
        for p in d['parse_impls']:
            if p['inst'] is not None:
                n = self.nn(p['ty'])
                self.parse_inst[n] = p['inst']
                self.parse_of[p['inst']] = n

    def adt_name(self, path):
        s = path.split('::')
        if s[0] == 'crate':
            s[0] = self.crate
        if s[-1] in self.ambig and s[0] == self.crate and '::'.join(s) not in self.keep:
            return '::'.join(s[-2:])
        return s[-1]

    def nn(self, t):
        """Normalised type name: last path segments, no lifetimes."""
        r = self._nn.get(t)
        if r is not None:
            return r
        ty = self.types[t]
        k = ty['k']
        if k == 'adt':
            a = [self.nn(x) for x in ty['args'] if isinstance(x, int)]
            if ty['path'].split('::')[-1] in ('Vec', 'Box') and ty['crate'] == 'alloc':
                a = a[:1]
            r = self.adt_name(ty['path']) + ('<' + ','.join(a) + '>' if a else '')
        elif k == 'tuple':
            r = '(' + ','.join(self.nn(x) for x in ty['ts']) + ')'
        elif k == 'ref':
            r = '&' + ('mut ' if ty['mut'] else '') + self.nn(ty['t'])
        elif k == 'ptr':
            r = '*' + self.nn(ty['t'])
        elif k == 'slice':
            r = '[' + self.nn(ty['t']) + ']'
        elif k == 'array':
            r = '[' + self.nn(ty['t']) + ';' + str(ty['len']) + ']'
        elif k in ('int', 'uint'):
            r = ty['n']
        elif k in ('bool', 'char', 'str', 'never'):
            r = k
        else:
            r = strip_lifetimes(ty['s'])
        self._nn[t] = r
        return r

    def variant_index(self, t, name):
        for i, v in enumerate(self.types[t]['vs']):
            if v['n'] == name:
                return i
        return None

    # ------------------------------------------------------------ liveness
    def live_at(self, inst, bb, si):
        """Locals directly used on some path from statement si of block bb."""
        lv = self._live.get(inst)
        if lv is None:
            lv = self._compute_live(inst)
            self._live[inst] = lv
        key = (bb, si)
        r = lv['at'].get(key)
        if r is None:
            body = self.insts[inst]['body']
            live = set()
            for s in _succ(body['blocks'][bb]['t']):
                live |= lv['in'][s]
            live = _back(body['blocks'][bb], live, si)
            r = frozenset(live)
            lv['at'][key] = r
        return r

    def _compute_live(self, inst):
        body = self.insts[inst]['body']
        blocks = body['blocks']
        n = len(blocks)
        preds = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            for s in _succ(b['t']):
                preds[s].append(i)
        livein = [set() for _ in range(n)]
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for s in _succ(blocks[i]['t']):
                out |= livein[s]
            new = _back(blocks[i], out, 0)
            if new != livein[i]:
                livein[i] = new
                work.extend(preds[i])
        return {'in': livein, 'at': {}}


def _succ(t):
    k = t['k']
    if k == 'goto' or k == 'drop' or k == 'assert':
        return [t['to']]
    if k == 'switch':
        return [b for _, b in t['br']] + [t['else']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


def _place_uses(p, out):
    out.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])


def _op_uses(o, out):
    if o[0] in ('c', 'm'):
        _place_uses(o[1], out)


def _rv_uses(r, out):
    k = r[0]
    if k == 'use' or k == 'repeat':
        _op_uses(r[1], out)
    elif k == 'ref':
        _place_uses(r[2], out)
    elif k in ('addr', 'discr', 'len'):
        _place_uses(r[1], out)
    elif k == 'agg':
        for o in r[2]:
            _op_uses(o, out)
    elif k in ('bin', 'cbin'):
        _op_uses(r[2], out)
        _op_uses(r[3], out)
    elif k in ('un', 'cast'):
        _op_uses(r[2], out)


def _def(p, live):
    if len(p) == 1:
        live.discard(p[0])
    elif p[1] == '*':
        live.add(p[0])
    # a partial write neither kills nor uses


def _back(block, live, upto):
    live = set(live)
    t = block['t']
    k = t['k']
    if k == 'call':
        _def(t['d'], live)
        for o in t['a']:
            _op_uses(o, live)
        if 'fp' in t:
            _op_uses(t['fp'], live)
    elif k == 'switch':
        _op_uses(t['on'], live)
    elif k == 'assert':
        _op_uses(t['c'], live)
    elif k == 'ret':
        live.add(0)
    for s in reversed(block['s'][upto:]):
        if s[0] == '=':
            _def(s[1], live)
            _rv_uses(s[2], live)
        elif s[0] in ('dead', 'live'):
            live.discard(s[1])
    return live
