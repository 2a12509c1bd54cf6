"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pa.registry import CHECKS

MZ, RB = 'src/puzzles/maze/mod.rs', 'src/puzzles/maze/recursive_backtrack.rs'
SU, NG, RL = 'src/puzzles/sudoku/mod.rs', 'src/puzzles/nonogram/mod.rs', 'src/puzzles/nonogram/right_left.rs'
DL, DN, DS = 'src/structures/dancing_links/mod.rs', 'src/structures/dancing_links/node.rs', 'src/structures/disjoint_set.rs'
LIB, UT = 'src/lib.rs', 'src/util.rs'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique='', level='proof', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proplist.py')).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CHECKS and not p['na']:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'not claimed: the check is still being built'})
    json.dump({'version': 1, 'setup_cmd': 'python3 -m pa.build', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks are static: they analyse the monomorphised MIR of /repo as it is at the time of the run. '
                        'The changes to /repo are fix: commits only; there are no hooks.'},
              open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed,', len(na), 'not')


main()
