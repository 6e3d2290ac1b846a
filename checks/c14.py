"""C14: record files."""

import itertools

PROPERTY = 'C14'
LEVEL = 'fault_enumeration'
RULE = (
    'every sequence up to the length of records (empty, short, long payloads;'
    ' raw bytes and messages mixed) is written and read back, also over an older'
    ' file; then every truncation of the file and every change of a single byte'
    ' (three bit patterns) is read; and writing is interrupted before every'
    ' record. Non-trivial: at least one record is in the file.'
)
ASSUMPTIONS = ['the file is read after it was written, from a local file system']

BASE = ('bytes0', 'bytes3', 'point', 'grid')


def cases(tier):
  n = 4 if tier != 'quick' else 3
  for k in range(n + 1):
    for seq in itertools.product(BASE, repeat=k):
      yield {'kind': 'file', 'records': list(seq)}
  for seq in (('point', 'bytes3', 'grid'), ('bytes0', 'bytes0'), ('grid',),
              ('bytes3', 'long', 'point')):
    for part in range(8):
      yield {'kind': 'faults', 'records': list(seq), 'part': part}
  yield {'kind': 'names'}
  for k in range(5):
    yield {'kind': 'interrupted', 'at': k}


def payload(name, i):
  from putting_dune import microscope_utils as mu
  from mc import util

  if name == 'bytes0':
    return b''
  if name == 'bytes3':
    return bytes([i, 0, 255])
  if name == 'long':
    return bytes(range(256)) * 4
  if name == 'point':
    return util.control(0.25 * i, 0.5, 1.0 + i)
  return util.grid([[0.5 * i, 0.25], [1.0, -2.0]], [6, 14])


def as_bytes(r):
  return r if isinstance(r, bytes) else r.to_proto().SerializeToString()


def read_all(io, path, record_type=None):
  """(records, error)"""
  out = []
  try:
    for r in io.read_records(path, record_type) if record_type else (
        io.read_records(path)):
      out.append(r)
  except Exception as e:  # pylint: disable=broad-except
    return out, e
  return out, None


def run_case(ctx, case):
  import os
  import pathlib
  from etils import epath
  from mc import boot, util
  from putting_dune import io
  from putting_dune import microscope_utils as mu

  folder = boot.scratch_dir('pdmc_c14_')
  path = os.path.join(folder, 'x.tfrecords')

  if case['kind'] == 'names':
    for name in ('a.tfrecord', 'a.TFRECORDS', 'a', 'a.tfrecords.gz', 'tfrecords',
                 'a.pb', 'a.array_records'):
      p = os.path.join(folder, name)
      for form in (p, pathlib.Path(p), epath.Path(p)):
        e = util.raises(io.write_records, form, [b'x'])
        ctx.check(isinstance(e, ValueError), 'unknown_extension:write', f'{name} {e!r}')
        ctx.check(not os.path.exists(p), 'unknown_extension:created', name)
        e = util.raises(lambda f: list(io.read_records(f)), form)
        ctx.check(isinstance(e, ValueError), 'unknown_extension:read', f'{name} {e!r}')
        ctx.evaluated('name', name)
    for name in ('a.tfrecords', 'b.c.tfrecords', 'with space.tfrecords'):
      p = os.path.join(folder, name)
      for form in (p, pathlib.Path(p), epath.Path(p)):
        io.write_records(form, [b'x', b'y'])
        out, e = read_all(io, form)
        ctx.check(e is None and out == [b'x', b'y'], 'name', f'{name} {out} {e!r}')
        ctx.evaluated('name', name)
    out, e = read_all(io, os.path.join(folder, 'missing.tfrecords'))
    ctx.check(e is not None and not out, 'missing_file', f'{out}')
    return

  if case['kind'] == 'interrupted':
    records = [payload(n, i) for i, n in enumerate(BASE)]

    class Stop(RuntimeError):
      pass

    def source():
      for i, r in enumerate(records):
        if i == case['at']:
          raise Stop()
        yield r
      if case['at'] == len(records):
        raise Stop()

    for old in (False, True):
      if old:
        io.write_records(path, [b'old'] * 9)
      e = util.raises(io.write_records, path, source())
      ctx.check(isinstance(e, Stop), 'interrupted:error_lost', f'{e!r}')
      out, e = read_all(io, path)
      ctx.check(e is None and out == [as_bytes(r) for r in records[:case['at']]],
                'interrupted:not_a_prefix', f'{case} {out} {e!r}')
      ctx.evaluated('interrupted', case['at'], old)
    return

  records = [payload(n, i) for i, n in enumerate(case['records'])]
  want = [as_bytes(r) for r in records]
  if case['kind'] == 'file':
    forms = {'list': lambda: records, 'generator': lambda: (r for r in records),
             'tuple': lambda: tuple(records)}
    for form, make in forms.items():
      io.write_records(path, make())
      for _ in range(2):
        out, e = read_all(io, path)
        ctx.check(e is None and [bytes(x) for x in out] == want, 'read_back',
                  f'{case} {form} {out} {e!r}')
      ctx.evaluated(*(('file', tuple(case['records'])) if records else ()))
    # Reading with a type, when they all have that type.
    for name, cls in (('point', mu.BeamControl), ('grid', mu.AtomicGrid)):
      if all(n == name for n in case['records']):
        out, e = read_all(io, path, cls)
        ctx.check(e is None and len(out) == len(records) and all(
            isinstance(x, cls) and as_bytes(x) == w for x, w in zip(out, want)),
                  'read_typed', f'{case} {out} {e!r}')
    # Two readers at once, at different speeds.
    a, b = iter(io.read_records(path)), iter(io.read_records(path))
    got_a, got_b = [], []
    for k in range(2 * len(records)):
      (got_a if k % 3 else got_b).append(next((a if k % 3 else b), None))
    got_a += list(a)
    got_b += list(b)
    ctx.check([x for x in got_a if x is not None] == want and
              [x for x in got_b if x is not None] == want, 'two_readers', f'{case}')
    return

  io.write_records(path, records)
  with open(path, 'rb') as f:
    data = f.read()
  # Where records end in the file (the format is length-prefixed).
  ends, pos = [0], 0
  for w in want:
    pos += 8 + 4 + len(w) + 4
    ends.append(pos)
  ctx.check(pos == len(data), 'file_length', f'{pos} {len(data)}')

  def faulty(name, content, boundary, where):
    with open(path, 'wb') as f:
      f.write(content)
    out, e = read_all(io, path)
    out = [bytes(x) for x in out]
    ctx.check(out == want[:len(out)], name + ':wrong_records',
              f'{case} {where} {out}')
    if boundary == 'header':
      n = max(i for i, x in enumerate(ends) if x < where)
      ctx.check(len(out) == n, name + ':lost_records', f'{case} {where} {len(out)}')
      ctx.outcome('prefix of %d' % n)
    elif boundary is None:
      if name == 'truncated':
        n = max(i for i, x in enumerate(ends) if x < where)
        ctx.check(len(out) == n, name + ':lost_records', f'{case} {where} {len(out)}')
      ctx.check(e is not None, name + ':unnoticed', f'{case} {where} {len(out)}')
      ctx.outcome('error after %d' % len(out))
    else:
      ctx.check(e is None and len(out) == boundary, name + ':lost_records',
                f'{case} {where} {len(out)} {e!r}')
      ctx.outcome('prefix of %d' % len(out))
    ctx.evaluated(name, tuple(case['records']), where)

  for cut in range(case['part'], len(data) + 1, 8):
    start = max(x for x in ends if x <= cut)
    # A cut within the header of a record may count as the end of the file.
    faulty('truncated', data[:cut], ends.index(cut) if cut in ends else
           'header' if cut - start < 12 else None, cut)
  for at in range(case['part'], len(data), 8):
    for mask in (1, 128, 255):
      changed = bytearray(data)
      changed[at] ^= mask
      faulty('corrupted', bytes(changed), None, (at, mask))
