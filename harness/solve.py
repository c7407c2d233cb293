"""Problems for the hand-eye solvers and references for judging their results."""
import math

import numpy as np

import gen
import ref
from hand_eye_calibration import algorithm_config
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    compute_hand_eye_calibration_BASELINE, compute_hand_eye_calibration_RANSAC)

VARIANTS = ("RC_filter", "RC_no_filter", "RS_filter", "RS_no_filter", "EC", "ES",
            "baseline_filter", "baseline_no_filter", "baseline_filter_exhaustive",
            "baseline_no_filter_exhaustive")
FILTERED = ("RC_filter", "RS_filter", "EC", "ES", "baseline_filter",
            "baseline_filter_exhaustive")


def config(variant):
  ac = algorithm_config
  out = {
      "RC_filter": lambda: ac.get_RANSAC_classic_config(True),
      "RC_no_filter": lambda: ac.get_RANSAC_classic_config(False),
      "RS_filter": lambda: ac.get_RANSAC_scalar_part_inliers_config(True),
      "RS_no_filter": lambda: ac.get_RANSAC_scalar_part_inliers_config(False),
      "EC": ac.get_exhaustive_search_pose_inliers_config,
      "ES": ac.get_exhaustive_search_scalar_part_inliers_config,
      "baseline_filter": lambda: ac.get_baseline_config(True),
      "baseline_no_filter": lambda: ac.get_baseline_config(False),
  }[variant.replace("_exhaustive", "")]()[1]
  if variant.endswith("_exhaustive"):
    out.enable_exhaustive_search = True
  return out


def solve(cfg, first, second):
  function = (compute_hand_eye_calibration_BASELINE if cfg.use_baseline_approach
              else compute_hand_eye_calibration_RANSAC)
  return function(first, second, cfg)


def wrap(vectors):
  return [DualQuaternion.from_vector(np.array(v)) for v in vectors]


def mounting(rng, kind):
  m = np.identity(4)
  if kind == "general":
    return gen.mild_motion(rng)
  if kind == "far":
    return gen.mild_motion(rng, 20.0)
  if kind == "rotation":
    m[:3, :3] = ref.rot(gen.quat(rng))
  elif kind == "translation":
    m[:3, 3] = rng.uniform(-1, 1, 3)
  elif kind == "half turn":
    m[:3, :3] = ref.rot(ref.quat(math.pi, gen.axis(rng)))
    m[:3, 3] = rng.uniform(-1, 1, 3)
  elif kind == "small":
    m[:3, :3] = ref.rot(ref.quat(10.0 ** rng.uniform(-6, -2), gen.axis(rng)))
    m[:3, 3] = gen.direction(rng) * 10.0 ** rng.uniform(-6, -2)
  else:
    assert kind == "identity"
  return m


MOUNTINGS = ("general", "general", "far", "rotation", "translation", "half turn", "small", "identity")


def trajectory(rng, kind, n):
  if kind == "random":
    return [gen.mild_motion(rng) for _ in range(n)]
  if kind == "large":
    return [gen.mild_motion(rng, 50.0) for _ in range(n)]
  if kind == "tiny translations":
    return [gen.mild_motion(rng, 1e-3) for _ in range(n)]
  if kind == "rotations only":
    return [gen.mild_motion(rng, 0.0) for _ in range(n)]
  if kind == "steps":
    # Robot-like moves about the axes, never half a turn apart.
    out = []
    for _ in range(n):
      a = float(rng.choice([30, 60, 90]))
      q = ref.quat(math.radians(a), gen.AXES[rng.integers(3)])
      out.append(ref.transform(np.append(np.round(rng.uniform(-2, 2, 3)), q)))
    return out
  if kind == "pauses":
    out = []
    while len(out) < n:
      out += [gen.mild_motion(rng)] * int(rng.integers(1, 3))
    return out[:n]
  body = gen.Smooth(rng)
  dt = 12.0 / n
  return [body(dt * i) for i in range(n)]


TRAJECTORIES = ("random", "random", "smooth", "smooth", "large", "tiny translations",
                "rotations only", "steps", "pauses")


def base(rng):
  kind = rng.integers(4)
  if kind == 0:
    return np.identity(4)
  return gen.mild_motion(rng, [1.0, 30.0, 1000.0][kind - 1])


def vectors(rng, mats):
  return [gen.sign(rng) * ref.dq(m) for m in mats]


def relative(mats, k):
  inv = ref.inv(mats[k])
  return [inv.dot(m) for m in mats]


def scalars(m):
  """Scalar parts of a motion, the sign such that the first is not negative."""
  v = ref.dq(m)
  return np.array([v[3], v[7]])


def errors(x, first, second, k):
  """Position and orientation errors when both paths start at pose k."""
  a = relative(first, k)
  xi = ref.inv(x)
  b = [second_i.dot(xi) for second_i in second]
  b = relative(b, k)
  return np.array([ref.pose_error(p, q) for p, q in zip(a, b)])


def rmse(x, first, second, k):
  e = errors(x, first, second, k)
  return np.sqrt(np.mean(e ** 2, axis=0))


def skew(v):
  return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def conditioning(first, second, k=0):
  """Sixth singular value of the linear system of the published method, which
  tells how well the motions starting at pose k determine the mounting."""
  rows = []
  for m, n in zip(relative(first, k), relative(second, k)):
    a, b = ref.dq(m), ref.dq(n)
    p, q = a[:3], b[:3]
    r, s = a[4:7], b[4:7]
    block = np.zeros((6, 8))
    block[:3, :3] = block[3:, 4:7] = skew(p + q)
    block[:3, 3] = block[3:, 7] = p - q
    block[3:, :3] = skew(r + s)
    block[3:, 3] = r - s
    rows.append(block)
  return np.linalg.svd(np.concatenate(rows), compute_uv=False)[5]
