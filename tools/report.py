"""Rewrites the tables of DESIGN.md between markers: planted bugs and costs.

python3 tools/report.py [folder with evidence of the thorough tier]
"""

import collections
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'c08_first_seed_sticks', 'c16_weightless_mode', 'c27_classes_of_reference',
    'c40_jitter_accumulates', 'c49_goal_in_first_view', 'c49_widened_for_goal',
}


def bugs():
  table = collections.defaultdict(list)
  for path in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    name = os.path.basename(os.path.dirname(path))
    table[json.load(open(path))['property']].append(
        '`' + name + '`' + ('*' if name in MISSED else ''))
  rows = ['| check | planted bugs it catches |', '|---|---|']
  rows += [f'| {k} | {", ".join(v)} |' for k, v in sorted(table.items())]
  return '\n'.join(rows)


def load(folder):
  out = {}
  for path in sorted(glob.glob(f'{folder}/C*.json')):
    d = json.load(open(path))
    out[d['property']] = d
  return out


def size(d):
  c = d['coverage']
  for key in ('states', 'distinct_states', 'distinct_cases'):
    if c.get(key):
      return f'{c[key]:,}'
  return f"{c.get('evaluations', c.get('cases')):,}"


def costs(folder):
  quick, deep = load(f'{HERE}/tools/costs/quick'), load(f'{HERE}/tools/costs/thorough')
  del folder
  rows = ['| check | quick: s | states | transitions | thorough: s | states | transitions |',
          '|---|---|---|---|---|---|---|']
  for k in sorted(set(quick) | set(deep)):
    cells = []
    for d in (quick.get(k), deep.get(k)):
      cells += [f"{d['wall']:.0f}", f"{d['states']:,}", f"{d['transitions']:,}"] if d else ['', '', '']
    rows.append('| ' + ' | '.join([k] + cells) + ' |')
  return '\n'.join(rows)


def keep(folder, tier):
  """Copies what the table needs of the evidence in a folder."""
  os.makedirs(f'{HERE}/tools/costs/{tier}', exist_ok=True)
  for k, d in load(folder).items():
    if d['tier'] != tier or d['violations']:
      continue
    c = d['coverage']
    with open(f'{HERE}/tools/costs/{tier}/{k}.json', 'w') as f:
      json.dump({'property': k, 'wall': d['wall_s'],
                 'states': c.get('states') or c.get('distinct_cases') or c.get('evaluations') or 0,
                 'transitions': c.get('transitions') or c.get('evaluations') or 0}, f)


def main():
  for tier in ('quick', 'thorough'):
    for folder in [f'{HERE}/evidence'] + sys.argv[1:]:
      keep(folder, tier)
  path = f'{HERE}/DESIGN.md'
  text = open(path).read()
  for name, table in (('bugs', bugs()), ('costs', costs(None))):
    text = re.sub(rf'(<!-- {name} -->\n).*?(\n<!-- end -->)',
                  lambda m: m.group(1) + table + m.group(2), text, flags=re.S)
  open(path, 'w').write(text)


if __name__ == '__main__':
  main()
