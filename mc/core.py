"""Exploration engine shared by all checks.

A check module defines

  PROPERTY      the property id
  LEVEL         evidence level
  RULE          how cases are enumerated and what counts as non-trivial
  ASSUMPTIONS   list of strings
  cases(tier)   an ordered, finite, deterministic generator of JSON-able cases;
                the exploration is exhaustive over it
  run_case(ctx, case)
                executes one case against the real code and compares every step
                with the reference model, via ctx.check / ctx.fail

Within a case, `explore` can enumerate all answer sequences of a scripted
environment (stateless search by replay).
"""

import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
  """The property is broken; `signature` identifies the failing input."""

  def __init__(self, signature, message):
    super().__init__(f'{signature}: {message}')
    self.signature = signature
    self.message = message


def jsonable(x):
  """Converts x to something json can write, for artefacts and samples."""
  import numpy as np  # pylint: disable=g-import-not-at-top

  if isinstance(x, dict):
    return {str(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v) for v in x]
  if isinstance(x, np.ndarray):
    return x.tolist()
  if isinstance(x, np.generic):
    return x.item()
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  return repr(x)


def load_known(prop):
  """Known findings of prop: {signature: text}. 'fixed:' lines suppress nothing."""
  out = {}
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for line in f:
        line = line.strip()
        if line.startswith('known: property=%s ' % prop):
          rest = line.split('signature=', 1)[1]
          sig, _, text = rest.partition(' ')
          out[sig] = text
  return out


class Context:
  """Counters and verdicts of one run."""

  def __init__(self, prop, tier, seed):
    self.prop = prop
    self.tier = tier
    self.seed = seed
    self.deep = tier == 'thorough'
    self._states = set()
    self.transitions = 0
    self.traces = 0
    self.evaluations = 0
    self._distinct = set()
    self.outcomes = {}
    self.samples = []
    self.known_hits = {}
    self.known = load_known(prop)

  # --- counting -----------------------------------------------------------
  def state(self, *key):
    self._states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

  def step(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def evaluated(self, *key):
    """Counts one evaluation; key (if any) counts towards distinct cases."""
    self.evaluations += 1
    if key:
      self._distinct.add(
          hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
      )

  def outcome(self, name):
    self.outcomes[name] = self.outcomes.get(name, 0) + 1

  def sample(self, obj, limit=4):
    if len(self.samples) < limit:
      self.samples.append(jsonable(obj))

  # --- verdicts -----------------------------------------------------------
  def fail(self, signature, message):
    signature = signature.replace(' ', '_')
    if signature in self.known:
      self.known_hits[signature] = self.known[signature]
      return
    raise Violation(signature, message)

  def check(self, cond, signature, message=''):
    if not cond:
      self.fail(signature, message() if callable(message) else message)
    return bool(cond)

  def counters(self):
    return {
        'states': sorted(s.hex() for s in self._states),
        'distinct': sorted(s.hex() for s in self._distinct),
        'transitions': self.transitions,
        'traces': self.traces,
        'evaluations': self.evaluations,
        'outcomes': self.outcomes,
        'samples': self.samples,
        'known_hits': self.known_hits,
    }


# ---------------------------------------------------------------------------
# Stateless exploration of a scripted environment.
# ---------------------------------------------------------------------------


class ReplayDivergence(AssertionError):
  pass


class Chooser:
  """Answers choice points: a recorded prefix, then the default answer 0."""

  def __init__(self, prefix=()):
    self.prefix = list(prefix)
    self.points = []  # (label, num_options)
    self.taken = []

  def choose(self, label, n):
    i = len(self.taken)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if c >= n:
      raise ReplayDivergence(f'choice {i} ({label}): {c} out of {n}')
    self.points.append((label, n))
    self.taken.append(c)
    return c


def explore(run, max_points=None, deviations=None, shard=None):
  """Runs `run(chooser)` for every sequence of choices.

  Args:
    run: executes one history; all of its nondeterminism comes from the chooser.
    max_points: only the first max_points choice points branch.
    deviations: at most this many non-default answers in one history.
    shard: (k, n); only histories whose first non-default answer is at a point i
      with i % n == k (and, for k = 0, the one without).

  Yields:
    The choices taken by each complete execution.
  """
  stack = [[]]
  while stack:
    prefix = stack.pop()
    chooser = Chooser(prefix)
    run(chooser)
    if chooser.taken[: len(prefix)] != prefix:
      raise ReplayDivergence(f'{prefix} replayed as {chooser.taken}')
    yield list(chooser.taken)
    used = sum(1 for c in prefix if c)
    if deviations is not None and used >= deviations:
      continue
    last = len(chooser.points)
    if max_points is not None:
      last = min(last, max_points)
    for i in reversed(range(len(prefix), last)):
      if shard is not None and not prefix and i % shard[1] != shard[0]:
        continue
      for alt in reversed(range(1, chooser.points[i][1])):
        stack.append(chooser.taken[:i] + [alt])


# ---------------------------------------------------------------------------
# Running a check.
# ---------------------------------------------------------------------------


def run_cases(module, ctx, cases):
  """Runs cases; returns None or (case, signature, message)."""
  for case in cases:
    try:
      module.run_case(ctx, case)
    except Violation as v:
      return case, v.signature, v.message
    except ReplayDivergence:
      raise
    except Exception as e:  # pylint: disable=broad-except
      # The exploration only performs operations that the property allows, so
      # an escaping exception is a failure of the operation it came from.
      tb = traceback.format_exc()
      sig = f'exception:{type(e).__name__}'
      try:
        ctx.fail(sig, tb)
      except Violation as v:
        return case, v.signature, v.message
  return None


def write_artefact(prop, case, signature, message):
  directory = os.path.join(VERIF, 'evidence', 'replays')
  os.makedirs(directory, exist_ok=True)
  body = {
      'property': prop,
      'signature': signature,
      'message': message,
      'case': case,
      'replay': f'bash run.sh {prop} replay <this file>',
  }
  digest = hashlib.sha1(
      json.dumps(jsonable(case), sort_keys=True).encode()
  ).hexdigest()[:10]
  path = os.path.join(directory, f'{prop}_{digest}.json')
  with open(path, 'w') as f:
    json.dump(jsonable(body), f, indent=1)
  return path


def merge(parts):
  out = {
      'states': set(), 'distinct': set(), 'transitions': 0, 'traces': 0,
      'evaluations': 0, 'outcomes': {}, 'samples': [], 'known_hits': {},
  }
  for p in parts:
    out['states'].update(p['states'])
    out['distinct'].update(p['distinct'])
    for k in ('transitions', 'traces', 'evaluations'):
      out[k] += p[k]
    for k, v in p['outcomes'].items():
      out['outcomes'][k] = out['outcomes'].get(k, 0) + v
    out['samples'].extend(p['samples'])
    out['known_hits'].update(p['known_hits'])
  return out


def write_evidence(module, tier, seed, total, wall, violations, n_cases):
  cov = {
      'cases': n_cases,
      'outcomes': dict(sorted(total['outcomes'].items())),
      'exhaustive': not violations,
      'rule': module.RULE,
      'samples': total['samples'][:6],
  }
  if module.LEVEL == 'model_checking':
    cov.update(
        states=len(total['states']),
        transitions=total['transitions'],
        traces_validated_against_impl=total['traces'],
    )
  if module.LEVEL in ('exploration', 'fault_enumeration'):
    cov.update(
        evaluations=total['evaluations'],
        distinct_nontrivial=len(total['distinct']),
    )
  body = {
      'property': module.PROPERTY,
      'tier': tier,
      'seed': seed,
      'level': module.LEVEL,
      'coverage': cov,
      'assumptions': list(module.ASSUMPTIONS),
      'wall_s': round(wall, 2),
      'violations': violations,
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  path = os.path.join(VERIF, 'evidence', module.PROPERTY + '.json')
  tmp = path + '.tmp%d' % os.getpid()
  with open(tmp, 'w') as f:
    json.dump(jsonable(body), f, indent=1)
  os.replace(tmp, path)
  return body
