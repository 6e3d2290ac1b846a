"""Builders, structural snapshots and comparisons shared by the checks."""

import copy
import dataclasses
import datetime as dt
import enum
import itertools

import numpy as np


# ---------------------------------------------------------------------------
# Snapshots: plain, immutable-by-construction copies of what is observable.
# ---------------------------------------------------------------------------


def snap(x):
  """A deep, comparable copy of x."""
  if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
    return x
  if isinstance(x, np.ndarray):
    if x.size > 256 and x.dtype.kind in 'biuf':
      return ('array', x.shape, str(x.dtype), x.copy())
    return ('array', x.shape, str(x.dtype), x.tolist())
  if isinstance(x, np.generic):
    return x.item()
  if isinstance(x, (dt.timedelta, dt.datetime)):
    return x
  if isinstance(x, enum.Enum):
    return (type(x).__name__, x.name)
  if isinstance(x, dict):
    return {k: snap(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
    return [snap(v) for v in x]
  if hasattr(x, '_fields'):
    return {k: snap(getattr(x, k)) for k in x._fields}
  if type(x).__name__ == 'Point' and hasattr(x, 'coords'):
    return ('point', x.x, x.y)
  if dataclasses.is_dataclass(x):
    return {f.name: snap(getattr(x, f.name)) for f in dataclasses.fields(x)}
  if hasattr(x, 'shape') and hasattr(x, 'dtype'):
    return snap(np.asarray(x))
  if hasattr(x, '__dict__'):
    return {k: snap(v) for k, v in vars(x).items()}
  return repr(x)


def same(a, b, tol=0.0, loose=False):
  """Structural equality of two snapshots (numbers within tol).

  loose: containers and arrays compare by their content only (no dtype).
  """
  if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'array' == b[0]:
    if a[1] != b[1]:
      return False
    if not loose and a[2] != b[2]:
      return False
    x, y = np.asarray(a[3]), np.asarray(b[3])
    if x.dtype == y.dtype and x.tobytes() == y.tobytes() and x.dtype.kind != 'O':
      return True
    if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
      return a[3] == b[3]
    x, y = x.astype(float), y.astype(float)
    return bool(
        np.all((np.abs(x - y) <= tol) | (x == y) | (np.isnan(x) & np.isnan(y)))
    )
  if isinstance(a, bool) or isinstance(b, bool):
    return a == b
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    return a == b or abs(a - b) <= tol or (a != a and b != b)
  if isinstance(a, dict) and isinstance(b, dict):
    return a.keys() == b.keys() and all(same(a[k], b[k], tol, loose) for k in a)
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(same(x, y, tol, loose) for x, y in zip(a, b))
  return type(a) == type(b) and a == b


def close(a, b, tol=1e-9):
  a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
  if a.shape != b.shape:
    return False
  return bool(np.all((np.abs(a - b) <= tol) | (a == b)))


def pure(ctx, sig, fn, *args, tol=0.0, **kwargs):
  """Calls fn; its arguments must not change and a repeated call must agree."""
  before = snap([list(args), kwargs])
  result = fn(*args, **kwargs)
  first = snap(result)
  ctx.check(
      same(before, snap([list(args), kwargs])),
      sig + ':input_modified',
      'the arguments of the call were modified',
  )
  again = snap(fn(*args, **kwargs))
  ctx.check(
      same(first, again, tol),
      sig + ':not_repeatable',
      lambda: f'first {first}\nagain {again}',
  )
  ctx.check(
      same(first, snap(result), tol),
      sig + ':result_changed_later',
      'a later call changed the result of an earlier one',
  )
  return result


# ---------------------------------------------------------------------------
# Builders.
# ---------------------------------------------------------------------------


def point(x, y):
  from putting_dune import geometry

  return geometry.Point(float(x), float(y))


def grid(positions, numbers):
  from putting_dune import microscope_utils as mu

  positions = np.asarray(positions)
  if positions.dtype.kind != 'f':
    positions = positions.astype(float)
  return mu.AtomicGrid(
      positions.reshape(-1, 2),
      np.asarray(numbers, dtype=int).reshape(-1),
  )


def fov(llx, lly, urx, ury):
  from putting_dune import microscope_utils as mu

  return mu.MicroscopeFieldOfView(point(llx, lly), point(urx, ury))


def control(x, y, seconds=1.5, **kwargs):
  from putting_dune import microscope_utils as mu

  return mu.BeamControl(point(x, y), dt.timedelta(seconds=seconds), **kwargs)


def observation(g, f, controls=(), seconds=3.5, **kwargs):
  from putting_dune import microscope_utils as mu

  return mu.MicroscopeObservation(
      g, f, tuple(controls), dt.timedelta(seconds=seconds), **kwargs
  )


def honeycomb(rings=3, bond=1.42, angle=0.0, centre=(0.0, 0.0)):
  """A honeycomb lattice around an atom at `centre`, written independently.

  Returns positions (n, 2), nearest first, so that index 0 is the centre and
  1..3 are its three bonded neighbours.
  """
  a1 = np.array([np.sqrt(3) * bond, 0.0])
  a2 = np.array([np.sqrt(3) * bond / 2, 1.5 * bond])
  basis = (np.zeros(2), np.array([0.0, bond]))
  pts = [
      i * a1 + j * a2 + b
      for i in range(-rings, rings + 1)
      for j in range(-rings, rings + 1)
      for b in basis
  ]
  pts = np.asarray(pts)
  order = np.lexsort((np.round(np.arctan2(pts[:, 1], pts[:, 0]), 6),
                      np.round((pts**2).sum(1), 6)))
  pts = pts[order]
  c, s = np.cos(angle), np.sin(angle)
  pts = pts @ np.array([[c, s], [-s, c]])
  return pts + np.asarray(centre, dtype=float)


def rotate(p, angle):
  c, s = np.cos(angle), np.sin(angle)
  return np.asarray(p, dtype=float) @ np.array([[c, s], [-s, c]])


def product(**axes):
  """All combinations of the axes, as dicts."""
  keys = list(axes)
  for values in itertools.product(*axes.values()):
    yield dict(zip(keys, values))


def sequences(alphabet, depth, minimum=0):
  """All sequences over the alphabet of length minimum..depth."""
  for n in range(minimum, depth + 1):
    yield from itertools.product(alphabet, repeat=n)


def raises(fn, *args, **kwargs):
  """The exception fn raises, or None."""
  try:
    fn(*args, **kwargs)
  except Exception as e:  # pylint: disable=broad-except
    return e
  return None


class FakeGoal:
  """Placeholder replaced by stub_goal(); kept importable for pickling."""


def stub_goal(outcomes=()):
  """A Goal whose verdicts are scripted: 'c'ontinue, 't'erminal, 'x' truncated."""
  from putting_dune import goals

  class ScriptedGoal(goals.Goal):

    def __init__(self):
      self.outcomes = list(outcomes)
      self.resets = []
      self.asked = []

    def reset(self, rng, initial_observation):
      self.resets.append(initial_observation)

    def calculate_reward_and_terminal(self, observation):
      self.asked.append(observation)
      out, reward = self.outcomes.pop(0) if self.outcomes else ('c', 0.0)
      return goals.GoalReturn(
          reward=reward, is_terminal=out == 't', is_truncated=out == 'x'
      )

  return ScriptedGoal()
