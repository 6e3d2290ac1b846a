"""C22: trajectories become the transitions between consecutive observations."""

import itertools

from mc import util

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = (
    'every list of up to three trajectories of length up to four (the lengths'
    ' in every combination), every pattern of observation variants (images and'
    ' labels present or not, none, one or two controls, an observation that'
    ' occurs twice) for lengths up to three, in memory in both settings of the'
    ' control convention, and through files with the command line function,'
    ' against the pairs of neighbours in the list. A state is the list of'
    ' variants.'
)
ASSUMPTIONS = ['file contents are float32 in places; compared accordingly']

VARIANTS = ('plain', 'image', 'label', 'both', 'idle', 'two')


def cases(tier):
  longest = 4 if tier == 'quick' else 5
  for lengths in util.sequences(range(longest + 1), 3):
    yield {'kind': 'lengths', 'lengths': list(lengths)}
  for pattern in util.sequences(range(len(VARIANTS)), 3 if tier == 'quick' else 4, 1):
    if len(pattern) == 1:
      yield {'kind': 'patterns', 'prefix': list(pattern), 'files': True}
    elif len(pattern) == 3 and tier != 'quick':
      yield {'kind': 'patterns', 'prefix': list(pattern), 'files': False}
  for lengths in ((), (0,), (3,), (2, 3), (1, 0, 4), (2, 2, 2)):
    yield {'kind': 'files', 'lengths': list(lengths)}


def observation(variant, n):
  """The n-th observation, different from every other in every part."""
  import numpy as np

  name = VARIANTS[variant]
  images = {}
  if name in ('image', 'both'):
    images['image'] = np.full((2, 3, 1), 10 + n, np.uint8)
  if name in ('label', 'both'):
    images['label_image'] = np.full((3, 2, 1), 100 + n, np.uint8)
  count = {'idle': 0, 'two': 2}.get(name, 1)
  controls = [
      util.control(0.5 + n, 0.25 * k, 1.0 + n + 0.25 * k, voltage_kv=60.0 + n)
      for k in range(count)]
  return util.observation(
      util.grid([[0.25 * n, 1.0], [2.0, 3.0 + n]], [6, 14]),
      util.fov(-5 + n, -5, 15 + n, 15), controls, seconds=float(n), **images)


FIELDS = ('grid', 'fov', 'image', 'label_image')


def reference(trajectories, late):
  out = []
  for observations in trajectories:
    for i in range(len(observations) - 1):
      a, b = observations[i], observations[i + 1]
      entry = {}
      for f in FIELDS:
        entry[f + '_before'] = util.snap(getattr(a, f))
        entry[f + '_after'] = util.snap(getattr(b, f))
      entry['controls'] = util.snap(list((b if late else a).controls))
      out.append(entry)
  return out


def describe(transitions):
  out = []
  for t in transitions:
    entry = util.snap(t)
    entry['controls'] = util.snap(list(t.controls))
    out.append(entry)
  return out


def verify(ctx, trajectories, key):
  from putting_dune import microscope_utils as mu
  from putting_dune.pipeline import trajectories_to_transitions as t2t

  for wrap in (list, tuple):
    given = [mu.Trajectory(observations=wrap(t)) for t in trajectories]
    for late in (None, False, True):
      kwargs = {} if late is None else {'previous_controls_at_current_timestep': late}
      got = util.pure(ctx, 'pure', t2t.trajectories_to_transitions, given, **kwargs)
      want = reference(trajectories, bool(late))
      ctx.check(len(got) == len(want), 'count', f'{key}: {len(got)} {len(want)}')
      got = describe(got)
      for i, (g, w) in enumerate(zip(got, want)):
        for f in w:
          ctx.check(util.same(g[f], w[f]), 'transition:' + f,
                    lambda: f'{key} {late} {i}: {g[f]} instead of {w[f]}')
      ctx.step(len(want))
  ctx.state(key)
  ctx.trace()


def through_files(ctx, trajectories, key):
  import os
  from mc import boot
  from putting_dune import io
  from putting_dune import microscope_utils as mu
  from putting_dune.pipeline import trajectories_to_transitions as t2t

  folder = boot.scratch_dir('pdmc_c22_')
  source = os.path.join(folder, 'in.tfrecords')
  target = os.path.join(folder, 'out.tfrecords')
  for old in (False, True):
    if old:
      io.write_records(target, [b'old'] * 40)
    io.write_records(source, [mu.Trajectory(observations=t) for t in trajectories])
    with open(source, 'rb') as f:
      stored = f.read()
    t2t.main(t2t.Args(source_path=source, target_path=target))
    with open(source, 'rb') as f:
      ctx.check(f.read() == stored, 'files:source', f'{key}')
    got = describe(io.read_records(target, mu.Transition))
    want = reference(trajectories, False)
    ctx.check(len(got) == len(want), 'files:count', f'{key}: {len(got)} {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
      for f in w:
        ctx.check(util.same(g[f], w[f], 1e-5, loose=True), 'files:' + f,
                  lambda: f'{key} {i}: {g[f]} instead of {w[f]}')
    ctx.step(len(want))
  ctx.state('files', key)
  ctx.trace()


def run_case(ctx, case):
  if case['kind'] in ('lengths', 'files'):
    n = 0
    trajectories = []
    for length in case['lengths']:
      trajectories.append([
          observation((n + i) % len(VARIANTS), n + i) for i in range(length)])
      n += length
    key = tuple(case['lengths'])
    if case['kind'] == 'lengths':
      verify(ctx, trajectories, key)
      # The same observation, and the same trajectory, may occur repeatedly.
      for t in trajectories[:1]:
        verify(ctx, [t, t], ('twice', key))
        verify(ctx, [t[:1] * 3 + t[::-1]], ('still', key))
    else:
      through_files(ctx, trajectories, key)
    return
  prefix = case['prefix']
  for rest in itertools.product(range(len(VARIANTS)), repeat=2 if len(prefix) == 1 else 1):
    pattern = prefix + list(rest)
    verify(ctx, [[observation(v, i) for i, v in enumerate(pattern)]], tuple(pattern))
  if case['files']:
    for v in range(len(VARIANTS)):
      pattern = prefix + [v]
      through_files(ctx, [[observation(v, i) for i, v in enumerate(pattern)]],
                    tuple(pattern))
