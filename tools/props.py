"""Source of properties.jsonl and MANIFEST.json.

Run: python3 tools/props.py   (rewrites both; a property without a check module
in checks/ is listed under not_applicable).
"""

import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mechanism, technique, note,
      level='model_checking', observe_at=()):
  PROPS.append(dict(
      id=id, title=title, statement=statement, over=over, text=text, why=why,
      files=files, mechanism=mechanism, technique=technique, note=note,
      level=level, observe_at=list(observe_at)))


REAL = (' The real code is executed on every enumerated case; trusted: the'
        ' reference in the check, numpy/TF, and the stated bounds.')

exec(open(os.path.join(VERIF, 'tools', 'prop_texts.py')).read())


def main():
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      assert len(p['title']) <= 80, (p['id'], len(p['title']))
      f.write(json.dumps({
          'id': p['id'],
          'title': p['title'],
          'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']},
          'why_tests_cant': p['why'],
          'anchors': {
              'files': p['files'],
              'mechanism': [
                  {'name': n, 'where': w} for n, w in p['mechanism']],
              'observe_at': p['observe_at'],
              'hook_needed': None,
          },
      }) + '\n')
  checks, na = [], []
  for p in PROPS:
    i = p['id']
    path = os.path.join(VERIF, 'checks', i.lower() + '.py')
    if not os.path.exists(path) or i in NA:
      na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
      continue
    level = [ast.literal_eval(n.value) for n in ast.parse(open(path).read()).body
             if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL'][0]
    checks.append({
        'property': i,
        'quick_cmd': f'bash run.sh {i} quick',
        'thorough_cmd': f'bash run.sh {i} thorough',
        'technique': p['technique'],
        'level': level,
        'level_note': p['note'] + REAL,
    })
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash run.sh selftest',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo: the checks drive its public interfaces.',
    }, f, indent=1)
    f.write('\n')
  print(len(checks), 'claimed,', len(na), 'not claimed')


main()
