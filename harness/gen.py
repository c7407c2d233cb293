"""Input generators. All take a numpy Generator and use nothing else."""
import math

import numpy as np

import ref

AXES = [np.array(v, dtype=float) for v in (
    (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1),
    (1, 1, 0), (1, -1, 0), (1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, 1, -1),
    (1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, -1))]


def direction(rng):
  while True:
    v = rng.normal(size=3)
    n = math.sqrt(float(np.sum(v * v)))
    if n > 1e-3:
      return v / n


def axis(rng):
  """A random direction, a special one, or one close to a special one."""
  kind = rng.integers(4)
  if kind <= 1:
    return direction(rng)
  v = AXES[rng.integers(len(AXES))]
  if kind == 3:
    v = v + 10.0 ** rng.uniform(-12, -3) * rng.normal(size=3)
  return ref.unit(v)


def angle(rng):
  """Rotation angles in [-2 pi, 2 pi], weighted towards the hard ones."""
  kind = rng.integers(10)
  tiny = 10.0 ** rng.uniform(-9, -2)
  sign = 1.0 if rng.integers(2) else -1.0
  if kind == 0:
    return 0.0
  if kind == 1:
    return sign * tiny
  if kind == 2:
    return sign * math.pi
  if kind == 3:
    return math.pi + sign * tiny
  if kind == 4:
    return -math.pi + sign * tiny
  if kind == 5:
    return sign * (math.pi / 2.0) * rng.integers(1, 4)
  if kind == 6:
    return sign * (2.0 * math.pi - tiny)
  return rng.uniform(-2.0 * math.pi, 2.0 * math.pi)


def sign(rng):
  return 1.0 if rng.integers(2) else -1.0


def quat(rng):
  """A unit quaternion of either sign."""
  if rng.integers(3) == 0:
    q = ref.unit(rng.normal(size=4))
  else:
    q = ref.quat(angle(rng), axis(rng))
  return sign(rng) * q


def mild_quat(rng, low=0.05, high=2.8):
  """A unit quaternion with an angle well away from 0 and pi."""
  return sign(rng) * ref.quat(rng.uniform(low, high), direction(rng))


def translation(rng):
  kind = rng.integers(6)
  if kind == 0:
    return np.zeros(3)
  if kind == 1:
    return AXES[rng.integers(len(AXES))] * 10.0 ** rng.uniform(-3, 3)
  return direction(rng) * 10.0 ** rng.uniform(-6, 4)


def pose(rng):
  return np.append(translation(rng), quat(rng))


def motion(rng):
  return ref.transform(pose(rng))


def mild_motion(rng, reach=1.0):
  """A generic rigid motion, angle up to 160 degrees, translation up to reach."""
  m = np.identity(4)
  m[:3, :3] = ref.rot(ref.quat(rng.uniform(0.05, 2.8), direction(rng)))
  m[:3, 3] = rng.uniform(-reach, reach, size=3)
  return m


def time_origin(rng):
  """Zero, negative, ordinary and Unix times."""
  return [0.0, -100.0, 12.5, 1.0e5, 1478163000.0, 1.7e9 + 0.125][rng.integers(6)]


class Smooth(object):
  """A smooth, non-periodic rigid motion of a body: T_base_body(t)."""

  def __init__(self, rng, reach=0.5, speed=1.0, single_axis=None, amplitude=None):
    self.reach = reach
    self.freq_t = speed * rng.uniform(0.2, 0.6, size=(3, 3))
    self.phase_t = rng.uniform(0, 2 * math.pi, size=(3, 3))
    self.freq_r = speed * rng.uniform(0.15, 0.7, size=(3, 4))
    self.phase_r = rng.uniform(0, 2 * math.pi, size=(3, 4))
    self.amp_r = (rng.uniform(0.2, 0.6, size=(3, 4)) if amplitude is None
                  else amplitude * rng.uniform(0.5, 1.0, size=(3, 4)))
    self.single_axis = single_axis

  def __call__(self, t):
    p = self.reach / 3.0 * np.sum(np.sin(2 * math.pi * self.freq_t * t + self.phase_t), axis=1)
    e = np.sum(self.amp_r * np.sin(2 * math.pi * self.freq_r * t + self.phase_r), axis=1)
    if self.single_axis is not None:
      q = ref.quat(e[0], self.single_axis)
    else:
      n = math.sqrt(float(np.sum(e * e)))
      q = ref.quat(n, e) if n > 1e-12 else np.array([0.0, 0.0, 0.0, 1.0])
    return ref.transform(np.append(p, q))


def stamps(rng, n, dt, jitter=0.0, start=0.0):
  steps = dt * (1.0 + jitter * rng.uniform(-1, 1, size=n))
  return start + np.concatenate([[0.0], np.cumsum(steps[:-1])])


def table(times, matrices, rng=None):
  """Stamped pose table [t, x, y, z, qx, qy, qz, qw]; rng flips signs at random."""
  rows = []
  for t, m in zip(times, matrices):
    p = ref.pose(m)
    if rng is not None and rng.integers(2):
      p[3:] = -p[3:]
    rows.append(np.append(t, p))
  return np.array(rows)
