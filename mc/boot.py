"""Makes the real putting_dune package of the repository under test importable.

The package is imported straight from the working tree. The one generated file
(the protobuf module) is rebuilt from the tree's .proto into a private scratch
directory on every run, so that the tree itself is never written to and a change
of the .proto is always seen.
"""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

REPO = os.environ.get('PD_REPO', '/repo')
TF_INCLUDE = '/opt/venv/lib/python3.12/site-packages/tensorflow/include'


def scratch_dir(prefix='pdmc_'):
  path = tempfile.mkdtemp(prefix=prefix)
  atexit.register(shutil.rmtree, path, ignore_errors=True)
  return path


def boot():
  """Builds the protobuf module and puts the repository on sys.path."""
  if 'putting_dune' in sys.modules:
    return
  warnings.filterwarnings('ignore')
  gen = os.environ.get('PDMC_GEN')
  if gen is None:
    gen = scratch_dir('pdmc_gen_')
    protos = [
        os.path.join('putting_dune', f)
        for f in sorted(os.listdir(os.path.join(REPO, 'putting_dune')))
        if f.endswith('.proto')
    ]
    subprocess.run(
        ['/usr/bin/protoc', '-I=' + TF_INCLUDE, '-I=.', '--python_out=' + gen]
        + protos,
        cwd=REPO,
        check=True,
    )
    os.environ['PDMC_GEN'] = gen
  sys.path.insert(0, REPO)
  import putting_dune  # pylint: disable=g-import-not-at-top

  assert os.path.realpath(putting_dune.__path__[0]).startswith(
      os.path.realpath(REPO)
  ), putting_dune.__path__
  putting_dune.__path__.insert(0, os.path.join(gen, 'putting_dune'))
  from absl import logging  # pylint: disable=g-import-not-at-top

  logging.set_verbosity(logging.ERROR)
  logging.set_stderrthreshold('fatal')
