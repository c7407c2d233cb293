"""C08: clock offset estimation on synthetic bodies with known offset."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.quaternion import Quaternion
from hand_eye_calibration.time_alignment import (
    FilteringConfig, calculate_time_offset, calculate_time_offset_from_signals)

PROPERTY = "C08"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = [
    "both recordings contain the whole informative motion: the body is nearly at "
    "rest near the ends of the recordings",
    "steps of 10 to 40 ms, 12 to 25 s of motion made of bursts of rotation"]


class Bursts(object):
  """A body that turns in bursts of different length, height and direction."""

  def __init__(self, rng, length, single=None):
    self.h = 0.02
    self.t0 = -3.0 * length
    n = int(7.0 * length / self.h)
    t = self.t0 + self.h * np.arange(n)
    rate = np.zeros(n)
    for _ in range(max(4, int(length / 2))):
      centre = rng.uniform(0.12, 0.88) * length
      width = rng.uniform(0.15, 0.5)
      rate += rng.uniform(0.5, 3.0) * np.exp(-0.5 * ((t - centre) / width) ** 2)
    if single is not None and rng.integers(2):
      # The single axis may be turned both ways.
      rate *= np.where(np.sin(2 * math.pi * t / length * 1.5 + rng.uniform(0, 6)) > -0.7, 1.0, -1.0)
    self.rate = rate
    q = gen.quat(rng)
    axis = gen.direction(rng) if single is None else np.asarray(single, dtype=float)
    self.qs = []
    for r in rate:
      self.qs.append(q)
      if single is None and abs(r) > 0.01:
        axis = ref.unit(axis + 0.05 * rng.normal(size=3))
      if abs(r) > 1e-12:
        q = ref.unit(ref.qmul(ref.quat(r * self.h, axis), q))

  def __call__(self, t):
    x = (t - self.t0) / self.h
    i = int(math.floor(x))
    return ref.slerp(self.qs[i], self.qs[i + 1], x - i)


def scene(rng, single=None):
  length = float(rng.uniform(12, 25))
  body = Bursts(rng, length, single)
  if rng.integers(3) == 0:
    dt_a = dt_b = float(rng.uniform(0.01, 0.04))
  else:
    dt_a, dt_b = [float(x) for x in rng.uniform(0.01, 0.04, size=2)]
  # Either recording may start earlier or end later, at rest.
  pre, post = rng.uniform(0, 0.25, size=2) * length * rng.integers(0, 2, size=2)
  if rng.integers(2):
    pre_a, pre_b = pre, 0.0
  else:
    pre_a, pre_b = 0.0, pre
  cut = rng.uniform(0, 0.04, size=4) * length
  ta = np.arange(cut[0] - pre_a, length - cut[1] + post, dt_a)
  tb = np.arange(cut[2] - pre_b, length - cut[3], dt_b)
  if rng.integers(2):
    ta = ta + rng.uniform(-0.2, 0.2, size=len(ta)) * dt_a
  if rng.integers(2):
    tb = tb + rng.uniform(-0.2, 0.2, size=len(tb)) * dt_b
  return body, ta, tb, max(dt_a, dt_b)


def record(rng, body, times, base=None, mount=None, flips=True):
  out = []
  for t in times:
    q = body(t)
    if base is not None:
      q = ref.qmul(base, q)
    if mount is not None:
      q = ref.qmul(q, mount)
    s = gen.sign(rng) if flips else 1.0
    out.append(Quaternion(q=s * ref.unit(q)))
  return out


def estimate(ta, qa, tb, qb, config=None):
  return float(calculate_time_offset(ta, qa, tb, qb, config or FilteringConfig()))


def recover(c, single=None):
  rng = c.rng
  body, ta, tb, dt = scene(rng, single)
  origin = gen.time_origin(rng)
  offset = float(rng.uniform(-40, 40)) if rng.integers(4) else float(rng.uniform(-0.2, 0.2))
  if rng.integers(5) == 0:
    # One clock counts from the start of the system.
    offset += float(rng.choice([-1478163000.0, 1478163000.0, 2.0e5]))
  qa = record(rng, body, ta, gen.quat(rng), gen.quat(rng))
  qb = record(rng, body, tb, gen.quat(rng), gen.quat(rng))
  times_a, times_b = ta + origin - offset, tb + origin
  c.input(times_a, times_b, offset)
  c.describe(offset=offset, origin=origin, rows_a=len(ta), rows_b=len(tb), dt=dt)
  with c.unchanged("inputs unchanged", times_a, times_b, qa, qb):
    e = estimate(times_a, qa, times_b, qb)
  c.check("true offset", abs(e - offset) <= 2.0 * dt, "estimated", e, "true", offset, "step", dt)
  c.count("estimates")


def general(c):
  recover(c)


def single_axis(c):
  axis = gen.AXES[c.index % 6] if c.index % 2 else gen.direction(c.rng)
  recover(c, axis)


def relations(c):
  """Shifts of a clock, changes of frame and of signs."""
  rng = c.rng
  body, ta, tb, dt = scene(rng, None if rng.integers(2) else gen.axis(rng))
  offset = float(rng.uniform(-10, 10))
  qa = record(rng, body, ta, flips=False)
  qb = record(rng, body, tb, flips=False)
  times_a, times_b = ta - offset, tb.copy()
  c.input(times_a, times_b, offset)
  c.describe(offset=offset, step=dt)
  e = estimate(times_a, qa, times_b, qb)
  c.check("true offset", abs(e - offset) <= 2.0 * dt, "estimated", e, "true", offset, "step", dt)
  s = float(rng.uniform(-100, 100)) if rng.integers(4) else float(rng.choice([-1478163000.0, 1478163000.0, 3.0e5]))
  # Rounding of the shifted stamps may change the number of resampled orientations
  # by one, which moves the peak by up to two steps.
  slack = 2.0 * dt + 1e-6
  e1 = estimate(times_a + s, qa, times_b, qb)
  c.check("first clock shifted", abs(e1 - (e - s)) <= slack, e1, e - s)
  e2 = estimate(times_a, qa, times_b + s, qb)
  c.check("second clock shifted", abs(e2 - (e + s)) <= slack, e2, e + s)
  for label, x, y in (
      ("base frame", record(rng, body, ta, gen.quat(rng), None, False), qb),
      ("mounting", qa, record(rng, body, tb, None, gen.quat(rng), False)),
      ("signs", record(rng, body, ta), record(rng, body, tb))):
    e3 = estimate(times_a, x, times_b, y)
    c.check("independent of " + label, abs(e3 - e) <= slack and abs(e3 - offset) <= 2.0 * dt,
            e3, e, "true", offset, "step", dt)
  # Exchanging the sensors negates the offset.
  e4 = estimate(times_b, qb, times_a, qa)
  c.check("sensors exchanged", abs(e4 + offset) <= 2.0 * dt, e4, -offset)


def settings(c):
  """Other smoothing and clipping settings."""
  rng = c.rng
  body, ta, tb, dt = scene(rng)
  offset = float(rng.uniform(-10, 10))
  qa = record(rng, body, ta, gen.quat(rng))
  qb = record(rng, body, tb, None, gen.quat(rng))
  config = FilteringConfig()
  k, kb = [int(x) for x in rng.choice([1, 5, 15, 25, 35], size=2)]
  config.smoothing_kernel_size_A = k
  config.smoothing_kernel_size_B = kb
  config.clipping_percentile_A = float(rng.choice([99.0, 99.9, 100.0]))
  config.clipping_percentile_B = float(rng.choice([99.0, 99.9, 100.0]))
  c.input(ta, tb, offset, k, kb)
  c.describe(offset=offset, kernels=(k, kb))
  with c.unchanged("settings unchanged", config):
    e = estimate(ta - offset, qa, tb, qb, config)
  c.check("true offset", abs(e - offset) <= 2.0 * dt, "estimated", e, "true", offset, "step", dt)


def pauses(c):
  """A few short stretches are missing from the recordings."""
  rng = c.rng
  body, ta, tb, dt = scene(rng)
  dropped = []
  for _ in range(int(rng.integers(1, 4))):
    start, length = float(rng.uniform(ta[0], ta[-1])), float(rng.uniform(0.1, 0.5))
    dropped.append((start, length))
    if rng.integers(2):
      ta = ta[(ta < start) | (ta > start + length)]
    else:
      tb = tb[(tb < start) | (tb > start + length)]
  offset = float(rng.uniform(-10, 10))
  qa = record(rng, body, ta, gen.quat(rng))
  qb = record(rng, body, tb, None, gen.quat(rng))
  c.input(ta, tb, offset)
  c.describe(offset=offset, dropped=dropped, step=dt)
  e = estimate(ta - offset, qa, tb, qb)
  c.check("true offset", abs(e - offset) <= 2.0 * dt, "estimated", e, "true", offset, "step", dt)


def signals(c):
  """Sampled signals with a known shift in samples."""
  rng = c.rng
  dt = float(rng.uniform(0.005, 0.2))
  n = int(rng.integers(5, 200))
  pattern = np.abs(rng.normal(size=n)) + 0.01
  before_a, after_a, before_b, after_b = [int(x) for x in rng.integers(0, 60, size=4)]
  sa = np.concatenate([np.zeros(before_a), pattern, np.zeros(after_a)])
  sb = np.concatenate([np.zeros(before_b), pattern, np.zeros(after_b)])
  start_a, start_b = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))
  ta = start_a + dt * np.arange(len(sa))
  tb = start_b + dt * np.arange(len(sb))
  true = (start_b + dt * before_b) - (start_a + dt * before_a)
  c.input(sa, sb, ta[:2], tb[:2])
  c.describe(samples_a=len(sa), samples_b=len(sb), dt=dt, true=true)
  with c.unchanged("inputs unchanged", ta, sa, tb, sb):
    e = calculate_time_offset_from_signals(ta, sa, tb, sb)
  c.close("signal offset", e, true, 1e-3 * dt)


GROUPS = [
    Group("general", general, 24, 600),
    Group("single axis", single_axis, 16, 400),
    Group("relations", relations, 8, 200),
    Group("settings", settings, 12, 200),
    Group("pauses", pauses, 10, 200),
    Group("signals", signals, 300, 5000)]
REQUIRED = ["true offset", "first clock shifted", "second clock shifted",
            "independent of base frame", "independent of mounting", "independent of signs",
            "signal offset"]
