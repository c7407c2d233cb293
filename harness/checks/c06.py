"""C06: resampling of stamped trajectories."""
import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.quaternion import Quaternion
from hand_eye_calibration.time_alignment import (
    interpolate_poses_from_samples, resample_quaternions,
    resample_quaternions_from_samples)

PROPERTY = "C06"
LEVEL = "exploration"
ASSUMPTIONS = ["strictly increasing stamps, unit quaternions, neighbouring "
               "orientations less than a half turn apart"]
TOL = 2e-7
# Half a microsecond, exactly representable at Unix stamps too.
TICK = 2.0 ** -21


def trajectory(rng):
  """Stamped poses with stamps that are exact at any time origin."""
  n = int([2, 3, 5, 20, 60, 60, 400][rng.integers(7)]) if rng.integers(40) else 1500
  unit = TICK
  low = 32 * int(rng.choice([1, 40, 600]))
  steps = rng.integers(low, 32 * 6000, size=n - 1)
  if rng.integers(4) == 0:
    steps[rng.integers(n - 1)] = 32 * 600000
  if rng.integers(5) == 0:
    # Bursts of stamps a few microseconds apart.
    steps = rng.integers(1, 5, size=n - 1)
  times = np.concatenate([[0], np.cumsum(steps)]) * unit
  if rng.integers(2):
    body = gen.Smooth(rng, reach=10.0 ** rng.uniform(-2, 2))
    mats = [body(t) for t in times]
  else:
    # Neighbours up to 150 degrees apart.
    q = gen.quat(rng)
    mats = []
    for _ in times:
      q = ref.qmul(ref.quat(rng.uniform(0, 2.6), gen.axis(rng)), q)
      mats.append(ref.transform(np.append(gen.translation(rng), q)))
  return gen.table(times, mats, rng)


def requests(rng, times, origin=0.0):
  kind = rng.integers(7)
  unit = TICK
  ticks = int(round(times[-1] / unit))
  n = int(rng.integers(1, 25)) if rng.integers(25) else int(rng.integers(500, 1500))
  samples = rng.integers(0, ticks + 1, size=n) * unit
  if kind <= 1:
    samples = np.sort(samples)
  elif kind == 2:
    samples = times.copy()
  elif kind == 3:
    samples = np.concatenate([[times[0]], np.sort(samples), [times[-1]]])
  elif kind == 4:
    samples = np.array([times[0], times[-1], times[0], times[-1]])
  elif kind == 5:
    # Just beside the recorded stamps.
    near = times + rng.choice([-2, -1, 1, 2], size=len(times)) * unit
    samples = near[(near >= times[0]) & (near <= times[-1])]
    if not len(samples):
      samples = times.copy()
  return samples


def expected(table, t):
  """Brute force interpolation, position and rotation."""
  times = table[:, 0]
  same = np.nonzero(times == t)[0]
  if len(same):
    return table[same[0], 1:4], table[same[0], 4:8]
  left = int(np.nonzero(times < t)[0][-1])
  right = left + 1
  f = (t - times[left]) / (times[right] - times[left])
  p = table[left, 1:4] + f * (table[right, 1:4] - table[left, 1:4])
  return p, ref.slerp(table[left, 4:8], table[right, 4:8], f)


def judge(c, out, table, samples):
  c.check("one pose per request", np.shape(out) == (len(samples), 8), np.shape(out))
  c.check("carries the requested time", np.array_equal(out[:, 0], samples), out[:, 0], samples)
  for row, t in zip(out, samples):
    p, q = expected(table, t)
    exact = bool(np.any(table[:, 0] == t))
    name = "recorded pose" if exact else "interpolated"
    eps = 1e-11 * (1.0 + np.max(np.abs(table[:, 1:4])))
    c.close(name + " position", row[1:4], p, eps, "time", t)
    c.check(name + " rotation", ref.same_rotation(row[4:8], q) < (1e-12 if exact else TOL),
            row[4:8], q, "time", t)
    c.close("unit length", np.linalg.norm(row[4:8]), 1.0, TOL)


def poses(c):
  rng = c.rng
  table = trajectory(rng)
  samples = requests(rng, table[:, 0])
  c.input(table, samples)
  c.describe(n=len(table), samples=samples[:6], span=table[-1, 0])
  with c.unchanged("inputs unchanged", table, samples):
    out = interpolate_poses_from_samples(table, samples)
  judge(c, out, table, samples)
  # The same at another time origin: all stamps are exactly representable.
  origin = float(rng.choice([-1000.0, 86400.0, 1478163000.0, 1700000000.0]))
  shifted = table.copy()
  shifted[:, 0] += origin
  moved = interpolate_poses_from_samples(shifted, samples + origin)
  c.check("shift: times", np.array_equal(moved[:, 0], samples + origin), moved[:, 0])
  c.close("shift: positions", moved[:, 1:4], out[:, 1:4], 1e-9 * (1 + np.max(np.abs(table[:, 1:4]))),
          "origin", origin)
  c.close("shift: rotations", [ref.same_rotation(a, b) for a, b in zip(moved[:, 4:8], out[:, 4:8])],
          np.zeros(len(out)), TOL, "origin", origin)


def quaternions(c):
  rng = c.rng
  table = trajectory(rng)
  origin = float(rng.choice([0.0, 0.0, 1478163000.0]))
  table[:, 0] += origin
  samples = requests(rng, table[:, 0] - origin) + origin
  c.input(table, samples)
  qs = [Quaternion(q=r[4:8].copy()) for r in table]
  with c.unchanged("inputs unchanged", table, samples, qs):
    out = resample_quaternions_from_samples(table[:, 0], qs, samples)
  c.check("one pose per request", len(out) == len(samples), len(out))
  for q, t in zip(out, samples):
    e = expected(table, t)[1]
    c.check("resampled rotation", ref.same_rotation(q.q, e) < TOL, q.q, e, "time", t)
  # Outside the recording there is nothing to interpolate.
  span = table[-1, 0] - table[0, 0]
  for bad in (table[0, 0] - 0.5 - span, table[-1, 0] + 0.5 + span):
    c.raises("outside refused", (AssertionError, ValueError, IndexError),
             resample_quaternions_from_samples, table[:, 0], qs, np.array([bad]))


def regular(c):
  rng = c.rng
  table = trajectory(rng)
  origin = float(rng.choice([0.0, 1478163000.0]))
  table[:, 0] += origin
  span = table[-1, 0] - table[0, 0]
  dt = span / float(rng.uniform(1.2, 80))
  c.input(table, dt)
  c.describe(dt=dt, span=span)
  qs = [Quaternion(q=r[4:8].copy()) for r in table]
  with c.unchanged("inputs unchanged", table, qs):
    out, times = resample_quaternions(table[:, 0], qs, dt)
  times = np.asarray(times, dtype=float)
  c.check("regular count", len(out) == len(times) and len(times) >= 2, len(out), len(times))
  c.check("regular ends", times[0] == table[0, 0] and times[-1] == table[-1, 0], times[0], times[-1])
  step = np.diff(times)
  c.check("regular spacing", np.max(step) - np.min(step) < 1e-6, step)
  c.check("regular step", np.min(step) > dt * 0.999 - 1e-6 and np.max(step) < 2 * dt + 1e-6, np.max(step), dt)
  k = len(times) - 1
  c.check("regular step", abs(k - int(span / dt)) <= (1 if abs(span / dt - round(span / dt)) < 1e-9 else 0),
          k, span / dt)
  for q, t in zip(out, times):
    e = expected(table, t)[1]
    # Unix stamps resolve 2.4e-7 s only.
    c.check("regular rotation", ref.same_rotation(q.q, e) < TOL, q.q, e, "time", t)


GROUPS = [
    Group("poses", poses, 300, 8000),
    Group("quaternions", quaternions, 200, 5000),
    Group("regular", regular, 150, 3000)]
REQUIRED = ["one pose per request", "carries the requested time", "recorded pose position",
            "recorded pose rotation", "interpolated position", "interpolated rotation",
            "shift: positions", "shift: rotations", "resampled rotation", "regular rotation"]
