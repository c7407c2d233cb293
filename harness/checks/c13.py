"""C13: the prefilter against a greedy reference selection."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import prefilter_using_screw_axis

PROPERTY = "C13"
LEVEL = "exploration"
ASSUMPTIONS = ["no cosine within 1e-7 of the threshold (such cases are skipped)",
               "rotations of exactly zero or at least 1e-4 rad"]


def axis_of(v):
  """Screw axis of an 8-vector, or None."""
  n = np.linalg.norm(v[:3])
  if n > 1e-10:
    return v[:3] / n
  t = 2.0 * ref.qmul(v[4:], ref.qconj(v[:4]))[:3]
  if np.linalg.norm(t) > 1e-10:
    return t / np.linalg.norm(t)
  return None


def select(first, second, threshold):
  """Indices kept by the definition, and the smallest distance to the threshold."""
  kept, margin = [], 1.0
  axes = [(axis_of(a), axis_of(b)) for a, b in zip(first, second)]
  for i, (a, b) in enumerate(axes):
    if a is None or b is None:
      continue
    near = False
    for k in kept:
      for x, y in ((a, axes[k][0]), (b, axes[k][1])):
        d = float(np.dot(x, y))
        margin = min(margin, abs(d - threshold))
        near = near or d > threshold
    if not near:
      kept.append(i)
  return kept, margin


def vector(rng, m, flip=True):
  v = ref.dq(m)
  return gen.sign(rng) * v if flip else v


def judge(c, first, second, threshold, default=False):
  kept, margin = select(first, second, threshold)
  if margin < 1e-7:
    c.count("skipped near threshold")
    return
  a = [DualQuaternion.from_vector(v) for v in first]
  b = [DualQuaternion.from_vector(v) for v in second]
  with c.unchanged("inputs unchanged", a, b):
    if len(kept) < 2:
      c.raises("too few refused", (AssertionError, ValueError),
               prefilter_using_screw_axis, a, b, threshold)
      return
    out = prefilter_using_screw_axis(a, b) if default else prefilter_using_screw_axis(a, b, threshold)
  c.check("two lists of equal length", len(out) == 2 and len(out[0]) == len(out[1]),
          [len(x) for x in out])
  got = []
  start = 0
  for x, y in zip(*out):
    match = [i for i in range(start, len(first))
             if np.array_equal(x.dq, first[i]) and np.array_equal(y.dq, second[i])]
    if not c.check("pairs unchanged, together and in order", bool(match), x.dq, y.dq):
      return
    got.append(match[0])
    start = match[0] + 1
  axes = [(axis_of(p), axis_of(q)) for p, q in zip(first, second)]
  for n, i in enumerate(got):
    for j in got[n + 1:]:
      c.check("kept pairs are distinct",
              axes[i][0] is not None and axes[j][1] is not None and
              np.dot(axes[i][0], axes[j][0]) <= threshold and
              np.dot(axes[i][1], axes[j][1]) <= threshold, i, j)
  c.check("exactly the redundant pairs removed", got == kept, "kept", got, "expected", kept,
          "threshold", threshold)
  c.count("pairs kept", len(got))
  c.count("pairs removed", len(first) - len(got))
  # The output is a copy.
  out[0][0].dq[:] = 7.0
  out[1][0].dq[:] = 7.0
  c.check("output independent", all(np.array_equal(x.dq, v) for x, v in zip(a, first)) and
          all(np.array_equal(x.dq, v) for x, v in zip(b, second)))


def threshold_of(rng):
  return float([0.0, 0.3, 0.7, 0.9, 0.95, 0.975, 0.99, 0.999, 1.0, rng.uniform(-0.5, 1)][rng.integers(10)])


def paths(c):
  """Two sensors on one body, as in use."""
  rng = c.rng
  n = int(rng.integers(2, 40)) if rng.integers(10) else int(rng.integers(100, 160))
  x, base = gen.mild_motion(rng), gen.mild_motion(rng)
  if rng.integers(2):
    body = gen.Smooth(rng)
    mats = [body(0.1 * i) for i in range(n)]
  else:
    mats = [gen.mild_motion(rng) for _ in range(n)]
  first = [vector(rng, m) for m in mats]
  second = [vector(rng, base.dot(m).dot(x)) for m in mats]
  thr = threshold_of(rng)
  c.input(first, second, thr)
  c.describe(pairs=n, threshold=thr)
  judge(c, first, second, thr)


def clusters(c):
  """Independent axes in both sensors with runs of redundant and axis-free pairs."""
  rng = c.rng
  n = int(rng.integers(3, 30))
  pool = [gen.axis(rng) for _ in range(5)]
  pool += [-pool[0]]

  def element():
    kind = rng.integers(7)
    if kind == 0:
      return gen.sign(rng) * np.array([0.0, 0, 0, 1, 0, 0, 0, 0])
    axis = pool[rng.integers(len(pool))]
    if kind <= 2:
      axis = ref.unit(axis + 10.0 ** rng.uniform(-6, -1) * rng.normal(size=3))
    if kind == 3:
      t = axis * rng.uniform(0.01, 2)
      q = gen.sign(rng) * np.array([0.0, 0.0, 0.0, 1.0])
      return np.append(q, 0.5 * ref.qmul(np.append(t, 0.0), q))
    a = rng.uniform(1e-3, 3.0) if kind > 4 else float(rng.choice([1e-4, math.pi, 3.5]))
    q = gen.sign(rng) * ref.quat(a, axis)
    t = rng.uniform(-1, 1, size=3)
    return np.append(q, 0.5 * ref.qmul(np.append(t, 0.0), q))

  first = [element() for _ in range(n)]
  second = [element() for _ in range(n)]
  thr = threshold_of(rng)
  c.input(first, second, thr)
  c.describe(pairs=n, threshold=thr)
  judge(c, first, second, thr)


def patterns(c):
  """Every small pattern of new, redundant and axis-free pairs."""
  rng = c.rng
  i = c.index
  n = 5
  axes = [np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, 1.0])]
  first, second = [], []
  for _ in range(n):
    kind = i % 4
    i //= 4
    if kind == 3:
      v = np.array([0.0, 0, 0, 1, 0, 0, 0, 0])
    else:
      q = ref.quat(rng.uniform(0.2, 2.5), axes[kind])
      v = np.append(q, 0.5 * ref.qmul(np.append(rng.uniform(-1, 1, 3), 0.0), q))
    first.append(v)
    # The second sensor sees a fresh direction, or the same pattern.
    if kind == 3 or c.index % 3 == 0:
      w = v.copy()
    else:
      q = ref.quat(0.4, gen.direction(rng))
      w = np.append(q, np.zeros(4))
    second.append(w)
  c.input(first, second)
  if c.index % 2:
    first, second = second, first
  judge(c, first, second, 0.95, default=bool(c.index % 5 == 0))


GROUPS = [
    Group("paths", paths, 60, 1500),
    Group("clusters", clusters, 200, 5000),
    Group("patterns", patterns, 1024, 1024)]
REQUIRED = ["pairs unchanged, together and in order", "kept pairs are distinct",
            "exactly the redundant pairs removed", "too few refused", "inputs unchanged"]
