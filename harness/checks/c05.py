"""C05: rotation and pose distances."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_pose_error
from hand_eye_calibration.quaternion import Quaternion, angle_between_quaternions

PROPERTY = "C05"
LEVEL = "exploration"


def Q(v):
  return Quaternion(q=np.array(v, dtype=float))


def pair(rng):
  a = gen.quat(rng)
  kind = rng.integers(7)
  if kind == 0:
    b = a.copy()
  elif kind == 1:
    b = ref.qmul(ref.quat(10.0 ** rng.uniform(-9, -2), gen.axis(rng)), a)
  elif kind == 2:
    b = ref.qmul(a, ref.quat(math.pi - 10.0 ** rng.uniform(-9, -2), gen.axis(rng)))
  elif kind == 3:
    b = ref.qmul(a, ref.quat(math.pi, gen.axis(rng)))
  else:
    b = ref.qmul(a, ref.quat(rng.uniform(0, math.pi), gen.axis(rng)))
  return ref.unit(a), gen.sign(rng) * ref.unit(b)


def poses(c):
  rng = c.rng
  qa, qb = pair(rng)
  pa = gen.translation(rng)
  pb = pa + (np.zeros(3) if rng.integers(4) == 0 else gen.translation(rng))
  a, b = np.append(pa, qa), np.append(pb, qb)
  c.input(a, b)
  c.describe(a=a, b=b)
  distance = math.sqrt(float(np.sum((pa - pb) ** 2)))
  angle = math.degrees(ref.angle(qa, qb))
  eps = 1e-12 * (1.0 + np.max(np.abs(pa)) + np.max(np.abs(pb)))
  with c.unchanged("operands unchanged", a, b):
    (ep, eo) = compute_pose_error(a, b)
    (rp, ro) = compute_pose_error(b, a)
    (zp, zo) = compute_pose_error(a, a.copy())
    flip_a = np.append(pa, -qa)
    flip_b = np.append(pb, -qb)
    flips = [compute_pose_error(flip_a, b), compute_pose_error(a, flip_b),
             compute_pose_error(flip_a, flip_b)]
  c.check("finite and in range", np.isfinite(ep) and np.isfinite(eo) and ep >= 0 and 0 <= eo <= 180.0,
          ep, eo)
  c.close("position distance", ep, distance, eps)
  c.close("rotation angle", eo, angle, 1e-6)
  c.close("symmetric", [rp, ro], [ep, eo], 1e-6 + eps)
  c.close("zero for equal poses", [zp, zo], [0.0, 0.0], 1e-7)
  for f in flips:
    c.close("sign does not matter", f, [distance, angle], 1e-6 + eps)
  # Positions of a pose do not enter the angle, nor the other way round.
  (only_p, none) = compute_pose_error(a, np.append(pb, qa))
  c.close("only position differs", [only_p, none], [distance, 0.0], 1e-7 + eps)
  (none, only_o) = compute_pose_error(a, np.append(pa, qb))
  c.close("only rotation differs", [none, only_o], [0.0, angle], 1e-6)


def small(c):
  """Small differences are resolved, not rounded away or up."""
  rng = c.rng
  q = gen.quat(rng)
  d = 10.0 ** rng.uniform(-6, -1)
  side = ref.quat(math.radians(d), gen.axis(rng))
  other = gen.sign(rng) * (ref.qmul(q, side) if rng.integers(2) else ref.qmul(side, q))
  c.input(q, d, side)
  c.describe(degrees=d)
  (ep, eo) = compute_pose_error(np.append([0.0, 0.0, 0.0], q), np.append([0.0, 0.0, 0.0], other))
  c.close("small angles", eo, d, 1e-7 + 1e-6 * d)
  step = 10.0 ** rng.uniform(-9, -1)
  v = gen.direction(rng)
  (ep, eo) = compute_pose_error(np.append(np.zeros(3), q), np.append(v * step, q))
  c.close("small distances", ep, step, 1e-9 * step)


def quaternion_angles(c):
  rng = c.rng
  a, b = pair(rng)
  c.input(a, b)
  c.describe(a=a, b=b)
  qa, qb = Q(a), Q(b)
  with c.unchanged("operands unchanged", qa, qb):
    x = float(angle_between_quaternions(qa, qb))
    y = float(angle_between_quaternions(qb, qa))
  smallest = ref.angle(a, b)
  c.check("angle finite and in range", np.isfinite(x) and -1e-12 <= x <= 2 * math.pi + 1e-12, x)
  fold = min(x, 2 * math.pi - x)
  c.close("angle up to a full turn", fold, smallest, 1e-8)
  # The sign decides which of the two angles it is.
  dot = float(np.dot(a, b))
  full = 2.0 * math.atan2(math.sin(smallest / 2), math.copysign(math.cos(smallest / 2), dot))
  if abs(dot) > 1e-9:
    c.close("angle of the quotient", x, full, 1e-8)
    c.close("angle symmetric", y, full, 1e-8)


def triangle(c):
  """The angle is a metric on rotations."""
  rng = c.rng
  p = [np.append(gen.translation(rng), gen.quat(rng)) for _ in range(3)]
  c.input(*p)
  e = {(i, j): compute_pose_error(p[i], p[j]) for i in range(3) for j in range(3)}
  for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
    for n in range(2):
      c.check("triangle inequality",
              e[i, k][n] <= (e[i, j][n] + e[j, k][n]) * (1 + 1e-9) + 1e-6,
              e[i, k][n], e[i, j][n], e[j, k][n])
  # A common change of frame leaves both errors alone.
  g = gen.mild_motion(rng)
  moved = [ref.pose(g.dot(ref.transform(x))) for x in p]
  size = 1.0 + max(np.max(np.abs(x)) for x in p)
  f = compute_pose_error(moved[0], moved[1])
  c.close("frame independent", f, e[0, 1], 1e-6 + 1e-9 * size)


GROUPS = [
    Group("poses", poses, 1200, 40000),
    Group("small", small, 500, 15000),
    Group("quaternion angles", quaternion_angles, 1200, 40000),
    Group("triangle", triangle, 300, 8000)]
REQUIRED = ["finite and in range", "position distance", "rotation angle", "symmetric",
            "zero for equal poses", "sign does not matter", "small angles",
            "angle up to a full turn", "angle finite and in range"]
