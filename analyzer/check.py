#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current working tree."""
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import api
import mir
import rules
import run
import spec
import tree
import witness

ROOT = tree.HERE
KNOWN = os.path.join(ROOT, 'known_findings.txt')
TRUSTED = ['rustc nightly: parsing, type checking and MIR construction of the crate and of nom',
           'analyzer/models.py: behaviour of the std functions the parsers call',
           'analyzer/spec.py: the reference grammar, written from the WebIDL grammar and the documentation of each type',
           'analyzer/*.py: the analyser itself']


def known(prop):
    """Keys of recorded findings; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def listed(kn, k):
    """A finding that counts something is also known where it happens less often."""
    m = re.match(r'(.*_x)(\d+)$', k)
    if k in kn or not m:
        return k if k in kn else None
    for o in kn:
        n = re.match(r'(.*_x)(\d+)$', o)
        if n and n.group(1) == m.group(1) and int(n.group(2)) >= int(m.group(2)):
            return o
    return None


def key(prop, root, kind):
    return re.sub(r'\s+', '_', '%s|%s|%s' % (prop, root, kind))


def profile_dependent():
    """Does the source say different things in different profiles?"""
    for d, _, fs in os.walk(os.path.join(tree.REPO, 'src')):
        for f in fs:
            if f.endswith('.rs') and 'debug_assert' in open(os.path.join(d, f), errors='replace').read():
                return True
    return False


def decide(prop, release=False, limit=450.0):
    """-> (findings, undecided, coverage)"""
    tr = tree.Tree(release)
    try:
        found, und, cov = [], [], {}
        functions = set()
        obligations = discharged = 0
        if prop in ('C19', 'C20', 'C24', 'C27'):
            prog = mir.Prog(tr.dump)
            if prop == 'C19':
                rs = [('structural traits', rules.structure(prog))]
            elif prop == 'C27':
                rs = [('use from outside', api.reach(tr))]
            elif prop == 'C24':
                rs = [('conversions', rules.conversions(prog))]
            else:
                docs = [k for k, i in enumerate(prog.insts) if i is not None and i['npath'] == prog.crate + '::parse']
                rs = [('purity', rules.purity(prog, list(prog.parse_inst.values()) + docs))]
        else:
            A = run.analyse(tr.dump, limit=limit, only='eff' if prop in ('C21', 'C22') else None)
            prog = A.prog
            rs = []
            if prop == 'C09':
                rs.append(('term! macro', witness.term_macro(tr)))
            if prop == 'C17':
                rs.append(('borrowed text', rules.borrowed(prog)))
                rs.append(('lifetimes', witness.outlives(tr, prog)))
            if prop == 'C22':
                rs.append(('recursion', run.recursion(A)))
            for f in A.findings:
                if prop in f.props:
                    found.append({'root': f.root, 'kind': f.kind, 'input': f.text, 'detail': f.detail, 'where': f.where,
                                  'key': key(prop, f.root, f.kind)})
            for props, root, why in A.undecided:
                if prop in props:
                    und.append((root, why))
            rel = sorted(A.eff) if prop in ('C21', 'C22') else sorted(n for n in A.roots if prop in run.props_of_root(n))
            bad = {f['root'] for f in found} | {u[0] for u in und}
            states = comparisons = 0
            for n in rel:
                r = A.eff[n] if prop in ('C21', 'C22') else A.lex.get(n) or A.com.get(n)
                if isinstance(r, str):
                    continue
                functions |= set(r.functions)
                states += r.states
                comparisons += getattr(r, 'comparisons', 0) + getattr(r, 'agree', 0)
            obligations += len(rel)
            discharged += len([n for n in rel if n not in bad])
            cov['grammar_types_compared'] = len(rel)
            cov['abstract_states'] = states
            cov['outcomes_compared'] = comparisons
            cov['samples'] = rel[:6]
            if prop == 'C03':
                cov['start_edges'] = sum(len(v) for v in A.graph.values())
        for name, r in rs:
            obligations += r.obligations
            discharged += r.discharged
            cov[name.replace(' ', '_')] = r.looked
            for root, kind, detail, where in r.problems:
                found.append({'root': root, 'kind': kind, 'input': '', 'detail': detail, 'where': where, 'key': key(prop, root, kind)})
            und += r.undecided
        cov['functions_analysed'] = len(functions) if functions else len([i for i in prog.insts if i is not None and 'body' in i])
        return found, und, obligations, discharged, cov
    finally:
        tr.close()


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    builds = [False] + ([True] if tier == 'thorough' or profile_dependent() else [])
    found, und, obl, dis, cov = [], [], 0, 0, {}
    try:
        for rel in builds:
            spent = time.time() - t0
            if rel and (spent > 600 or any(not listed(known(prop), x['key']) for x in found)):
                break   # already decided, or no time left for the other profile
            f, u, o, d, c = decide(prop, rel, min(float(os.environ.get('WEEDLE_LIMIT', '450')), 780 - spent))
            found += f
            und += u
            obl += o
            dis += d
            if rel:
                cov['release_profile'] = c
            else:
                cov = c
    except tree.BuildError as e:
        print('check %s: %s' % (prop, e))
        sys.exit(2)
    kn = known(prop)
    fresh = [f for f in found if not listed(kn, f['key'])]
    for k in dict.fromkeys(listed(kn, f['key']) for f in found):
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    cov.update({'obligations': obl, 'discharged': dis,
                'checker_cmd': 'python3 analyzer/check.py ' + prop, 'trusted_base': TRUSTED,
                'undecided': ['%s: %s' % (a, b[:300]) for a, b in und[:40]]})
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
               'assumptions': ['the input is valid UTF-8 (guaranteed by &str)', 'memory and stack suffice'],
               'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)},
              open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for r, w in und[:10]:
        print('UNDECIDED %s: %s' % (r, w[:200]))
    if fresh:
        rp = os.path.join(ROOT, 'evidence', 'replay-%s.json' % prop)
        json.dump(fresh, open(rp, 'w'), indent=1)
        for f in fresh[:12]:
            print('%s: %s [%s]%s: %s' % (f['where'], f['root'], f['kind'],
                                         ' on input %r' % f['input'][:200] if f['input'] or f['kind'] not in ('missing',) else '', f['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('%s: %d of %d obligations discharged, %.1f s' % (prop, dis, obl, time.time() - t0))


if __name__ == '__main__':
    main()
