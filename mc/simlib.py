"""Pieces for exploring the simulated material with scripted physics."""

import datetime as dt

import numpy as np

from mc import util

BOND = 1.42


def neighbours(positions, index):
  """The (up to three) atoms bonded to atom `index`, nearest first."""
  d = np.linalg.norm(positions - positions[index], axis=1)
  order = np.argsort(d, kind='stable')[1:4]
  return [int(i) for i in order if d[i] < 1.2 * BOND]


def si_index(grid):
  (idx,) = np.nonzero(np.asarray(grid.atomic_numbers) == 14)
  return [int(i) for i in idx]


def table_rates(rates_of, log=None):
  """A rate function with prescribed rates.

  rates_of(step, si) -> three rates, for the bonded neighbours in order of angle.
  """
  from putting_dune import graphene
  from putting_dune import microscope_utils as mu

  class TableRates:

    def __init__(self):
      self.calls = []

    def __call__(self, grid, beam_position):
      (si,) = si_index(grid)
      nb = by_angle(grid.atom_positions, si)
      rates = rates_of(len(self.calls), si)
      self.calls.append({
          'si': si,
          'beam': (beam_position.x, beam_position.y),
          'rates': list(rates),
          'neighbours': nb,
      })
      out = []
      for j, rate in zip(nb, rates):
        numbers = np.full_like(grid.atomic_numbers, 6)
        numbers[j] = 14
        out.append(
            graphene.SuccessorState(
                mu.AtomicGrid(grid.atom_positions, numbers), np.float32(rate)
            )
        )
      return graphene.Rates(out)

  return TableRates()


def by_angle(positions, si):
  nb = neighbours(positions, si)
  delta = positions[nb] - positions[si]
  ang = np.round(np.arctan2(delta[:, 1], delta[:, 0]) % (2 * np.pi), 6)
  return [nb[i] for i in np.argsort(ang)]


class Recorder:
  """A simulator observer that snapshots everything it is told."""

  def __init__(self, keep_grids=True):
    from putting_dune import microscope_utils as mu

    outer = self
    self.events = []

    def grid_of(grid):
      return (np.array(grid.atom_positions), np.array(grid.atomic_numbers)) if (
          keep_grids) else None

    def box(fov):
      return (fov.lower_left.x, fov.lower_left.y, fov.upper_right.x,
              fov.upper_right.y)

    class Observer(mu.SimulatorObserver):

      def observe_reset(self, grid, fov):
        outer.events.append(('reset', grid_of(grid), box(fov)))

      def observe_apply_control(self, control):
        outer.events.append((
            'control', (control.position.x, control.position.y),
            control.dwell_time, control.voltage_kv, control.current_na))

      def observe_transition(self, time_since_control_was_applied, grid):
        outer.events.append(
            ('transition', time_since_control_was_applied, grid_of(grid),
             si_index(grid)))

      def observe_fov_change(self, fov):
        outer.events.append(('fov', box(fov)))

      def observe_take_image(self, duration, fov):
        outer.events.append(('image', duration, box(fov)))

      def observe_generated_image(self, image):
        outer.events.append(('generated', np.array(image)))

    self.observer = Observer()

  def take(self):
    out, self.events[:] = list(self.events), []
    return out


def seconds(x):
  return dt.timedelta(seconds=x)


def rate_functions():
  from putting_dune import graphene

  return {
      'simple': graphene.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=graphene.simple_canonical_rate_function
      ),
      'prior': graphene.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=graphene.HumanPriorRatePredictor().predict
      ),
      'gmm': graphene.GaussianMixtureRateFunction(
          max_rate=0.8,
          mixture_weights=np.array([0.7, 0.3]),
          loc_distances=np.array([0.9, 1.7]),
          variances=np.array([[0.4, 0.9], [1.5, 0.3]]),
      ),
  }


def box(fov):
  return np.array([fov.lower_left.x, fov.lower_left.y, fov.upper_right.x,
                   fov.upper_right.y])


__all__ = ['util']


def scripted_material(rate_function, columns=30):
  """The real material; the physics of each exposure comes from a script."""
  from mc import rng as rng_lib
  from putting_dune import graphene

  class ScriptedMaterial(graphene.PristineSingleDopedGraphene):

    waits = ()
    quantiles = (0.5,) * 40

    def apply_control(self, rng, control, observers=()):
      scripted = rng_lib.ScriptedRng(
          waits=list(self.waits), quantiles=list(self.quantiles))
      return super().apply_control(scripted, control, observers)

  return ScriptedMaterial(rate_function=rate_function, grid_columns=columns)


def adapters():
  """A new one of each action adapter, by name."""
  import datetime as dt
  from putting_dune import action_adapters as aa

  seconds = lambda *x: tuple(dt.timedelta(seconds=v) for v in x)
  return {
      'relative': lambda: aa.RelativeToSiliconActionAdapter(dwell_time_range=seconds(1, 9)),
      'material': lambda: aa.RelativeToSiliconMaterialFrameActionAdapter(
          dwell_time_range=seconds(1, 9)),
      'delta': lambda: aa.DeltaPositionActionAdapter(np.random.default_rng(8)),
      'direct': aa.DirectActionAdapter,
  }


def features():
  from putting_dune import feature_constructors as fc

  return {
      'view': fc.SingleSiliconPristineGrapheneFeatureConstuctor,
      'material': fc.SingleSiliconMaterialFrameFeatureConstructor,
      'pixels': fc.ImageFeatureConstructor,
  }


def scripted_env(mover, adapter, constructor):
  """An environment and its material, whose moves are scripted."""
  from putting_dune import goals
  from putting_dune import putting_dune_environment

  material = scripted_material(mover)
  env = putting_dune_environment.PuttingDuneEnvironment(
      material, adapter, constructor, goals.SingleSiliconGoalReaching())
  return env, material
