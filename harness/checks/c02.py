"""C02: rotations through every representation, against rotation matrices."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.quaternion import Quaternion

PROPERTY = "C02"
LEVEL = "exploration"
TOL = 1e-8


def Q(v):
  return Quaternion(q=np.array(v, dtype=float))


def judge(c, q):
  """All conversions of one unit quaternion, array q."""
  r = ref.rot(q)
  obj = Q(q)
  with c.unchanged("operands unchanged", obj):
    m = obj.to_rotation_matrix()
    t = obj.to_transformation_matrix()
    aa = obj.angle_axis()
  c.close("to matrix", m, r, 1e-12)
  c.check("proper rotation", np.max(np.abs(np.dot(m, m.T) - np.eye(3))) < 1e-12
          and abs(np.linalg.det(m) - 1.0) < 1e-12, m)
  expected = np.identity(4)
  expected[:3, :3] = r
  # Results of other calls, and what the caller does with them, do not reach this one.
  other = Q([0.5, 0.5, -0.5, 0.5])
  other.to_transformation_matrix()[:] = 7.0
  other.to_rotation_matrix()[:] = 7.0
  other.angle_axis()[:] = 7.0
  c.close("results independent", m, r, 1e-12)
  c.close("to homogeneous matrix", t, expected, 1e-12)

  back = Quaternion.from_rotation_matrix(r.copy())
  c.check("from matrix", np.all(np.isfinite(back.q)) and
          ref.same_rotation(back.q, q) < TOL, "q", q, "back", back.q)
  c.close("from matrix unit length", np.linalg.norm(back.q), 1.0, TOL)
  back = Quaternion.from_rotation_matrix(m)
  c.check("matrix round trip", ref.same_rotation(back.q, q) < TOL, "q", q, "back", back.q)
  # The upper left block of a homogeneous matrix is enough.
  back = Quaternion.from_rotation_matrix(t[0:3, 0:3])
  c.check("matrix round trip", ref.same_rotation(back.q, q) < TOL, "q", q, "back", back.q)

  c.check("angle axis finite", np.shape(aa) == (4,) and np.all(np.isfinite(aa)), aa)
  angle = ref.angle(q, [0, 0, 0, 1])
  if angle > 1e-11:
    c.close("axis length", np.linalg.norm(aa[:3]), 1.0, 1e-9)
  true = 2.0 * math.atan2(np.linalg.norm(q[:3]), q[3])
  off = math.remainder(aa[3] - true, 2.0 * math.pi)
  c.check("angle value", abs(off) < 1e-8, "angle", aa[3], "expected", true, "q", q)
  rebuilt = Quaternion.from_angle_axis(aa[3], aa[0:3])
  c.check("angle axis round trip", ref.same_rotation(rebuilt.q, q) < TOL,
          "q", q, "back", rebuilt.q)
  c.close("angle axis round trip matrix", rebuilt.to_rotation_matrix(), r, TOL)


def quaternions(c):
  q = gen.quat(c.rng)
  c.input(q)
  c.describe(q=q)
  judge(c, q)


def special(c):
  """Grid of special axes, angles and signs."""
  angles = [0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, math.pi / 2, 2.0, 3.0,
            math.pi - 1e-3, math.pi - 1e-6, math.pi - 1e-9, math.pi,
            math.pi + 1e-9, math.pi + 1e-6, math.pi + 1e-3, 4.0, 1.5 * math.pi,
            2 * math.pi - 1e-3, 2 * math.pi - 1e-6, 2 * math.pi]
  axis = gen.AXES[c.index % len(gen.AXES)]
  a = angles[(c.index // len(gen.AXES)) % len(angles)]
  sign = -1.0 if c.index // (len(gen.AXES) * len(angles)) % 2 else 1.0
  q = sign * ref.quat(a, axis)
  c.input(q)
  c.describe(axis=axis, angle=a, sign=sign)
  judge(c, q)
  if a == math.pi:
    # Exact half turns: the scalar part is exactly zero.
    exact = np.append(ref.unit(axis), 0.0) * sign
    judge(c, exact)


def from_angle_axis(c):
  """Axis of any length and angle of any size."""
  rng = c.rng
  a = gen.angle(rng) if rng.integers(3) else rng.uniform(-20, 20)
  axis = gen.axis(rng)
  scale = 10.0 ** (rng.uniform(-3, 3) if rng.integers(2) else rng.uniform(-9, 9))
  c.input(a, axis, scale)
  c.describe(angle=a, axis=axis, scale=scale)
  given = axis * scale
  with c.unchanged("operands unchanged", given):
    q = Quaternion.from_angle_axis(a, given)
  c.close("from angle axis", q.q, ref.quat(a, axis), 1e-12)
  c.close("from angle axis matrix", q.to_rotation_matrix(), rodrigues(a, axis), 1e-11)
  listed = Quaternion.from_angle_axis(a, [float(x) for x in given])
  c.close("from angle axis", listed.q, ref.quat(a, axis), 1e-12)


def rodrigues(a, axis):
  x, y, z = ref.unit(axis)
  k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
  return np.identity(3) + math.sin(a) * k + (1 - math.cos(a)) * k.dot(k)


def random_rotations(c):
  """Random rotations over many draws."""
  rng = c.rng
  low = rng.uniform(0, math.pi)
  high = rng.uniform(low, math.pi)
  kind = c.index % 6
  if kind == 0:
    low, high = 0.0, 1e-3
  elif kind == 1:
    low, high = math.pi - 1e-3, math.pi
  elif kind == 2:
    low, high = 0.5, 0.5 + 1e-9
  c.input(low, high)
  c.describe(low=low, high=high)
  axes = []
  for _ in range(40):
    q = Quaternion.get_random(low, high)
    c.close("random unit length", np.linalg.norm(q.q), 1.0, 1e-12)
    a = ref.angle(q.q, [0, 0, 0, 1])
    c.check("random angle in range", low - 1e-9 <= a <= high + 1e-9, a, low, high)
    judge(c, q.q) if rng.integers(10) == 0 else None
    if a > 1e-6:
      axes.append(np.sign(q.q[:3]))
  default = Quaternion.get_random()
  a = ref.angle(default.q, [0, 0, 0, 1])
  c.check("random angle in range", -1e-9 <= a <= math.pi + 1e-9, a)
  keyword = Quaternion.get_random(min_angle=low, max_angle=high)
  a = ref.angle(keyword.q, [0, 0, 0, 1])
  c.check("random angle in range", low - 1e-9 <= a <= high + 1e-9, a, low, high)
  if len(axes) >= 40:
    c.check("random axes differ", len({tuple(x) for x in axes}) >= 2, axes)


GROUPS = [
    Group("quaternions", quaternions, 2000, 60000),
    Group("special", special, 17 * 22 * 2, 17 * 22 * 2),
    Group("from angle axis", from_angle_axis, 1000, 20000),
    Group("random", random_rotations, 60, 1200)]
REQUIRED = ["to matrix", "from matrix", "matrix round trip", "to homogeneous matrix",
            "angle axis round trip", "axis length", "angle value", "from angle axis",
            "random angle in range", "random unit length"]
