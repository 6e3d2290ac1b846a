"""C38: microscope data are converted and uploaded, one trajectory per dataset."""

import contextlib
import io
import itertools
import json
import pathlib
import shutil
import sys
import tempfile
import types
from unittest import mock
import zipfile

import numpy as np

PROPERTY = 'C38'
LEVEL = 'model_checking'
RULE = (
    'conversion: every sequence of kinds of frames (nothing found, one dopant,'
    ' two, beam at rest, a key missing), shift of pixels, scale of labels and'
    ' amount of padding; uploads: every set of dataset names, nested, dotted and'
    ' mixed with broken ones, in every state. A state is the combination.'
)
ASSUMPTIONS = [
    'square images, more than three frames, one field of view per dataset',
    'riegeli and the bucket are replaced by stand-ins which record what they get',
]

KINDS = ('none', 'one', 'two', 'unmatched', 'partial')
# Coordinates in the image of labels, which has 64 pixels.
ATOMS = ((4.0, 10.0), (31.5, 12.25), (16.0, 48.0), (60.0, 3.0))
LABELS = 64
BEAMS = ((20.0, 44.0), (3.5, 60.0), (48.0, 16.0))
SHIFTS = ((0.0, 0.0), (3.0, -5.0), (-7.5, 2.0))
PATHS = (
    'run', 'Run2', 'a/b', 'a-c', 'day.1/x', 'x/day.1', 'x/day.2', 'MyData/fooBar', 'plain/deep/er')


def cases(tier):
  deep = tier != 'quick'
  for scale, padding in itertools.product((1, 4), (0, 3)):
    for kinds in itertools.product(KINDS, repeat=2 if not deep else 3):
      yield {'kind': 'convert', 'scale': scale, 'padding': padding, 'first': list(kinds)}
  yield {'kind': 'views'}
  for r in range(0, 4 if deep else 3):
    for chosen in itertools.combinations(range(len(PATHS)), r):
      if r != 3 or chosen[0] < 3:
        yield {'kind': 'upload', 'paths': list(chosen)}
  yield {'kind': 'upload', 'paths': list(range(len(PATHS)))}


def run_case(ctx, case):
  stub()
  root = pathlib.Path(tempfile.mkdtemp(prefix='c38-'))
  try:
    globals()[case['kind']](ctx, case, root)
  finally:
    shutil.rmtree(root, ignore_errors=True)


class Writer:
  """A record file: its bytes are the records, each with its length in front."""

  def __init__(self, destination):
    self.destination = destination

  def __enter__(self):
    return self

  def __exit__(self, *unused):
    return None

  def write_record(self, record):
    self.destination.write(len(record).to_bytes(8, 'big') + record)

  write_message = write_record


def records(data):
  found = []
  while data:
    n = int.from_bytes(data[:8], 'big')
    found.append(data[8:8 + n])
    data = data[8 + n:]
  return found


def stub():
  if 'riegeli' not in sys.modules:
    module = types.ModuleType('riegeli')
    module.RecordWriter = Writer
    sys.modules['riegeli'] = module


def make(folder, kinds, *, scale=1, padding=0, shifts=None, fov=2.0, beams=None, broken=None,
         offset=0.0):
  """Writes a dataset of the given kinds of frames, and gives what is in it."""
  folder.mkdir(parents=True)
  n = len(kinds)
  size = LABELS * scale
  images = np.zeros((n + padding, size, size), np.float32)
  for t in range(n + padding):
    images[t] = t + 1 + offset
    images[t, t, 2 * t + 1] = -1
  labels = np.ones((n + padding, LABELS, LABELS), np.uint8)
  frames = {}
  said = []
  for t, kind in enumerate(kinds):
    # Atoms move from frame to frame, the third number is their class.
    atoms = [(x + 0.25 * t, y + 0.5 * t, 0.0) for x, y in ATOMS]
    value = {
        'All coordinates': {'0': atoms},
        'All parameters': {'image_parameters': [fov, 512, 4]},
    }
    if t == n - 1 and broken != 'no readout':
      value['ADF readouttime'] = 0.01
    beam = BEAMS[t % 3] if beams is None else beams[t]
    shift = SHIFTS[t % 3] if shifts is None else shifts[t]
    dwell = 0.5 + t
    dopants = {'none': None, 'one': [atoms[t % 4][:2]], 'two': [atoms[0][:2], atoms[2][:2]],
               'unmatched': [(33.0, 33.0)], 'partial': [atoms[1][:2]]}[kind]
    found = kind not in ('none', 'partial')
    if dopants is not None:
      value['Blast coordinates'] = {'Dopants': dopants}
    if dopants is not None and kind != 'partial':
      value['Beam location'] = beam
      value['Beam dwelltime'] = dwell
      value['ADF intensities'] = [1.0, 2.0]
      value['Pixelshifts'] = shift
    frames[str(t)] = value
    silicon = set()
    if found:
      silicon = {i for i, a in enumerate(atoms) if a[:2] in [tuple(d) for d in dopants]}
    said.append({
        'positions': np.array([a[:2] for a in atoms]) / LABELS,
        'numbers': np.array([14 if i in silicon else 6 for i in range(len(atoms))]),
        'shift': np.array(shift if found else (0.0, 0.0)) * 10 * fov / size,
        'beam': np.array(beam) / LABELS if found else None,
        'dwell': dwell,
        'image': images[t],
    })
  for name, array, extra in (
      ('ADF-stack-000.ndata1', images, {}),
      ('Label-stack-000.ndata1', labels, {'metadata': frames})):
    with zipfile.ZipFile(folder / name, 'w') as z:
      data = io.BytesIO()
      np.save(data, array)
      z.writestr('data.npy', data.getvalue())
      z.writestr('metadata.json', json.dumps(extra))
  return {'frames': said, 'fov': 10 * fov}


def compare(ctx, got, want, key, where):
  """Compares a trajectory to what is said in the dataset."""
  observations = list(got.observations)
  if not ctx.check(len(observations) == len(want['frames']), f'{key}:length',
                   lambda: f'{where}: {len(observations)} observations'):
    return
  corner = np.zeros(2)
  for t, (o, w) in enumerate(zip(observations, want['frames'])):
    at = lambda t=t: f'{where}, frame {t}'
    corner = corner + w['shift']
    ctx.check(
        np.asarray(o.grid.atom_positions).shape == w['positions'].shape
        and np.allclose(o.grid.atom_positions, w['positions'], atol=1e-6),
        f'{key}:positions', lambda: f'{at()}: {o.grid.atom_positions}')
    ctx.check(np.array_equal(o.grid.atomic_numbers, w['numbers']), f'{key}:silicon',
              lambda: f'{at()}: {o.grid.atomic_numbers} for {w["numbers"]}')
    view = np.array([o.fov.lower_left.x, o.fov.lower_left.y,
                     o.fov.upper_right.x, o.fov.upper_right.y])
    ctx.check(np.allclose(view, np.concatenate([corner, corner + want['fov']]), atol=1e-5),
              f'{key}:view', lambda: f'{at()}: {view} for {corner}')
    ctx.check(np.array_equal(np.asarray(o.image), w['image']), f'{key}:image', at)
    if w['beam'] is None:
      ctx.check(len(o.controls) == 0, f'{key}:no beam', at)
      seconds = 2.0
    else:
      seconds = 2.0 + w['dwell']
      if ctx.check(len(o.controls) == 1, f'{key}:beam', at):
        c = o.controls[0]
        place = np.array([c.position.x, c.position.y])
        ctx.check(np.allclose(place, w['beam'], atol=1e-6), f'{key}:beam position',
                  lambda: f'{at()}: beam at {place}, not at {w["beam"]} of the frame')
        ctx.check(abs(c.dwell_time.total_seconds() - w['dwell']) < 1e-6, f'{key}:dwell time', at)
        # What training does with it: the same place as an atom there.
        seen = o.fov.microscope_frame_to_material_frame(c.position)
        ctx.check(np.allclose([seen.x, seen.y], corner + w['beam'] * want['fov'], atol=1e-4),
                  f'{key}:beam in the material', lambda: f'{at()}: {seen}')
    ctx.check(abs(o.elapsed_time.total_seconds() - seconds) < 1e-6, f'{key}:elapsed', at)


def convert(ctx, case, root):
  from putting_dune import microscope_utils
  from putting_dune.pipeline import upload_microscope_data as upload

  for i, rest in enumerate(itertools.product(KINDS, repeat=2)):
    kinds = tuple(case['first']) + rest
    folder = root / str(i)
    want = make(folder, kinds, scale=case['scale'], padding=case['padding'])
    where = f'{kinds}, scale {case["scale"]}, {case["padding"]} frames of padding'
    loaded = upload.load_dataset(folder)
    got = upload.convert_dataset_to_proto(*loaded)
    compare(ctx, got, want, 'convert', where)
    again = microscope_utils.Trajectory.from_proto(got.to_proto())
    compare(ctx, again, want, 'message', where)
    shutil.rmtree(folder)
    ctx.state('convert', kinds, case['scale'], case['padding'])
    ctx.step(len(kinds))
    ctx.trace()


def views(ctx, case, root):
  """Fields of view of other sizes, and every sequence of shifts."""
  from putting_dune.pipeline import upload_microscope_data as upload

  for i, (fov, shifts) in enumerate(itertools.product(
      (1.0, 4.0), itertools.product(SHIFTS, repeat=4))):
    folder = root / str(i)
    want = make(folder, ('one', 'two', 'one', 'one'), fov=fov, shifts=shifts,
                beams=[BEAMS[(t + i) % 3] for t in range(4)])
    got = upload.convert_dataset_to_proto(*upload.load_dataset(folder))
    compare(ctx, got, want, 'views', f'views of {fov} nm with shifts {shifts}')
    shutil.rmtree(folder)
    ctx.state('views', fov, shifts)
    ctx.step(4)
    ctx.trace()


def main(upload, folder):
  """Runs the upload, and gives what was uploaded, by name."""
  sent = []

  class Bucket:

    def blob(self, name):
      return types.SimpleNamespace(
          upload_from_file=lambda f, **k: sent.append((name, f.read())),
          upload_from_string=lambda s, **k: sent.append((name, s)))

  asked = []

  def get_bucket(name):
    asked.append(name)
    return Bucket()

  client = types.SimpleNamespace(get_bucket=get_bucket, bucket=get_bucket)
  out, code = io.StringIO(), None
  with mock.patch.object(upload.storage, 'Client', lambda *a, **k: client):
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
      try:
        upload.main(upload.Args(directory=folder, bucket='a-bucket'))
      except SystemExit as e:
        code = e.code
  return sent, asked, code, out.getvalue()


def upload(ctx, case, root):
  from putting_dune import microscope_utils
  from putting_dune.pipeline import upload_microscope_data as module

  chosen = [PATHS[i] for i in case['paths']]
  states = ('fine', 'no readout')
  for number, broken in enumerate(itertools.product(states, repeat=len(chosen))):
    if len(chosen) > 3 and number not in (0, 1, 2 ** len(chosen) - 1):
      continue
    folder = root / str(number)
    folder.mkdir()
    (folder / 'notes').mkdir()
    (folder / 'notes' / 'Label-stack-000.ndata1').write_text('not a dataset')
    wanted = {}
    for i, (path, state) in enumerate(zip(chosen, broken)):
      want = make(folder / path, ('one', 'none', 'two', 'one'), offset=10.0 * i, broken=state)
      if state == 'fine':
        wanted[i] = want
    where = f'datasets {dict(zip(chosen, broken))}'
    sent, asked, code, out = main(module, folder)
    ctx.check((code not in (None, 0)) == (not chosen), 'upload:exit code',
              lambda: f'{where}: ends with {code}')
    if chosen:
      ctx.check(asked == ['a-bucket'], 'upload:bucket', lambda: f'{where}: {asked}')
    names = [name for name, _ in sent]
    ctx.check(len(set(names)) == len(names), 'upload:names',
              lambda: f'{where}: one replaces the other: {names}')
    ctx.check(all(name.endswith('.riegeli') for name in names), 'upload:suffix',
              lambda: f'{where}: {names}')
    ctx.check(len(sent) == len(wanted), 'upload:number', lambda: f'{where}: {names}')
    for i, state in enumerate(broken):
      ctx.check((state == 'fine') or chosen[i] in out, 'upload:reported',
                lambda: f'{where}: {chosen[i]} is not mentioned in {out!r}')
    seen = set()
    for name, data in sent:
      found = records(data)
      if not ctx.check(len(found) == 1, 'upload:records', lambda: f'{where}: {name}: {len(found)}'):
        continue
      message = microscope_utils.Trajectory.ProtoMessage.FromString(found[0])
      trajectory = microscope_utils.Trajectory.from_proto(message)
      which = round((float(trajectory.observations[0].image[-1, -1]) - 1) / 10)
      if ctx.check(which in wanted and which not in seen, 'upload:dataset',
                   lambda: f'{where}: {name} has data of {which}'):
        seen.add(which)
        compare(ctx, trajectory, wanted[which], 'upload', f'{where}: {name}')
        parts = [p.replace('.', '') for p in name.lower().replace('_', '').split('-')]
        ctx.check(
            chosen[which].lower().replace('/', '').replace('.', '').replace('-', '')
            == ''.join(parts)[:-len('riegeli')],
            'upload:name', lambda: f'{where}: {chosen[which]} is called {name}')
    shutil.rmtree(folder)
    ctx.state('upload', tuple(chosen), broken)
    ctx.step(len(chosen))
    ctx.trace()
    if len(names) > 1:
      ctx.sample(f'{chosen}: {names}')
