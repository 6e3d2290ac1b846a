"""A random generator whose answers are scripted by the explorer.

The code under test draws from an ordinary numpy Generator. ScriptedRng is one
(it passes isinstance checks), but the draws that decide the simulated physics
come from a script: `waits` answers exponential draws, in units of the scale
that is asked for, and `quantiles` answers choices, as the quantile of the
distribution that is asked for. Every other draw comes from a seeded generator,
so that histories replay exactly.
"""

import numpy as np


class ScriptExhausted(AssertionError):
  """More draws were made than the property allows."""


class ScriptedRng(np.random.Generator):
  """See module docstring."""

  def __init__(self, waits=None, quantiles=None, uniforms=None, seed=0):
    super().__init__(np.random.PCG64(seed))
    self.waits = None if waits is None else list(waits)
    self.quantiles = None if quantiles is None else list(quantiles)
    self.uniforms = None if uniforms is None else list(uniforms)
    self.wait_draws = 0
    self.choice_draws = 0

  # --- exponential ---------------------------------------------------------
  def _wait(self):
    if self.waits is None:
      return super().standard_exponential()
    i = self.wait_draws
    self.wait_draws += 1
    if i >= len(self.waits):
      return 1e12  # Spent: nothing happens any more.
    return float(self.waits[i])

  def exponential(self, scale=1.0, size=None):
    if self.waits is None or np.ndim(scale) or (
        size is not None and np.prod(size) > 64):
      return super().exponential(scale, size)  # Image noise, say.
    if size is None:
      with np.errstate(all='ignore'):
        wait = self._wait()
        return np.float64(scale) * wait if wait else 0.0
    return np.asarray([self.exponential(scale) for _ in range(int(np.prod(size)))]).reshape(size)

  def standard_exponential(self, size=None, *args, **kwargs):
    if self.waits is None or (size is not None and np.prod(size) > 64):
      return super().standard_exponential(size, *args, **kwargs)
    if size is None:
      return self._wait()
    return np.asarray([self._wait() for _ in range(int(np.prod(size)))]).reshape(size)

  # --- discrete ------------------------------------------------------------
  def _quantile(self):
    i = self.choice_draws
    self.choice_draws += 1
    if i >= len(self.quantiles):
      raise ScriptExhausted(f'choice {i} of {len(self.quantiles)}')
    return float(self.quantiles[i])

  def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if self.quantiles is None or size not in (None, 1, (1,), (), [1]):
      return super().choice(a, size, replace, p, axis, shuffle)
    n = int(a) if np.ndim(a) == 0 else len(a)
    if n == 0:
      raise ValueError('a must be non-empty')
    u = self._quantile()
    if p is None:
      i = min(int(u * n), n - 1)
    else:
      p = np.asarray(p, dtype=np.float64)
      if p.shape != (n,) or (p < 0).any() or not abs(p.sum() - 1) < 1e-5:
        raise ValueError(f'not a distribution: {p}')
      cdf = np.cumsum(p)
      i = int(np.searchsorted(cdf / cdf[-1], u, side='right'))
      i = min(i, n - 1)
    value = i if np.ndim(a) == 0 else a[i]
    return value if size in (None, ()) else np.asarray([value])

  def integers(self, low, high=None, size=None, **kwargs):
    if self.quantiles is None or size is not None:
      return super().integers(low, high, size, **kwargs)
    lo, hi = (0, low) if high is None else (low, high)
    return min(lo + int(self._quantile() * (hi - lo)), hi - 1)

  def random(self, size=None, *args, **kwargs):
    if self.uniforms is None and self.quantiles is not None and size is None:
      return self._quantile()
    return super().random(size, *args, **kwargs)

  # --- continuous ----------------------------------------------------------
  def uniform(self, low=0.0, high=1.0, size=None):
    if self.uniforms is None:
      return super().uniform(low, high, size)
    n = 1 if size is None else int(np.prod(size))
    u = [self.uniforms.pop(0) if self.uniforms else 0.5 for _ in range(n)]
    low, high = np.asarray(low, float), np.asarray(high, float)
    if size is None:
      return float(low + (high - low) * u[0])
    return low + (high - low) * np.asarray(u).reshape(size)
