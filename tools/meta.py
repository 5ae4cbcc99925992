#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = 'src/library/include/geometry/rich_type/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', claim=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, claim=claim, reason=reason))


exec(open(os.path.join(V, 'tools', 'props.inc.py')).read())



def three(t):
    """At most three sentences."""
    ss = t.rstrip('.').split('. ')
    if len(ss) <= 3:
        return t
    mid = '; '.join([ss[1]] + [x[0].lower() + x[1:] if not x[:2].isupper() or x[1] == ' ' else x for x in ss[2:-1]])
    return '. '.join([ss[0], mid, ss[-1]]) + '.'


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=three(p['statement']), quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
T = {'proof': 'contract-based deductive verification (own weakest-precondition style verifier over the clang AST, z3 and cvc5), runtime-contract harness for the rest', 'exploration': 'contract-based deductive verification where the verifier reaches, bounded runtime-contract harness for the rest'}
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='VERIF_HOOKS', enable='no hooks are compiled into /repo: contracts live in /verif and are bound to the extracted AST of the current tree', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='bash tools/check.sh %s quick' % p['id'], thorough_cmd='bash tools/check.sh %s thorough' % p['id'], technique=T[p['level']], level=p['level'], level_note=p['note']) for p in P if p['claim']],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in P if not p['claim']])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
