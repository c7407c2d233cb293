"""C12: screw parameters against rotation matrices."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion

PROPERTY = "C12"
LEVEL = "exploration"
ASSUMPTIONS = ["rotation angles of exactly zero or at least 1e-9 rad"]


def D(v):
  return DualQuaternion.from_vector(np.array(v, dtype=float))


def rodrigues(a, axis):
  x, y, z = axis
  k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
  return np.identity(3) + math.sin(a) * k + (1 - math.cos(a)) * k.dot(k)


def judge(c, v, m):
  """Screw of the 8-vector v with matrix m."""
  dq = D(v)
  with c.unchanged("operand unchanged", dq):
    axis, degrees, along = dq.screw_axis()
  axis = np.asarray(axis, dtype=float)
  t = m[:3, 3]
  q = v[:4] / np.linalg.norm(v[:4])
  angle = 2.0 * math.atan2(np.linalg.norm(q[:3]), abs(q[3]))  # in [0, pi]
  c.check("finite", axis.shape == (3,) and np.all(np.isfinite(axis)) and
          np.isfinite(degrees) and np.isfinite(along), axis, degrees, along)
  fold = min(degrees % 360.0, 360.0 - degrees % 360.0)
  c.close("angle in degrees", fold, math.degrees(angle), 1e-8)
  size = np.linalg.norm(t)
  if angle == 0.0:
    if size < 1e-12:
      c.close("no motion", np.append(axis * 0.0, along), np.zeros(4), 1e-11)
    else:
      c.close("pure translation", axis * along, t, 1e-9 * (1 + size))
      c.close("axis length", np.linalg.norm(axis), 1.0, 1e-9)
      c.check("pure translation distance", abs(along) <= size * (1 + 1e-9) and along >= 0, along)
    return
  # Rounding of an angle near a full turn limits the axis.
  slack = 1e-9 + 1e-14 / angle
  c.close("axis length", np.linalg.norm(axis), 1.0, slack)
  c.close("rotation about the axis", rodrigues(math.radians(degrees), axis), m[:3, :3],
          1e-8 + slack * angle)
  true = q[:3] / np.linalg.norm(q[:3])
  c.check("axis direction", min(np.max(np.abs(axis - true)), np.max(np.abs(axis + true))) < slack,
          axis, true)
  c.close("translation along the axis", along, float(np.dot(axis, t)), (slack + 1e-9) * (1 + size) * 2)


def motions(c):
  rng = c.rng
  p = gen.pose(rng)
  m = ref.transform(p)
  q = p[3:]
  v = np.append(q, 0.5 * ref.qmul(np.append(p[:3], 0.0), q))
  c.input(v)
  c.describe(pose=p)
  judge(c, v, m)


def special(c):
  angles = [0.0, 1e-9, 1e-6, 1e-3, math.pi / 2, 3.0, math.pi - 1e-6, math.pi,
            math.pi + 1e-6, 4.0, 2 * math.pi - 1e-3, 2 * math.pi - 1e-6]
  lengths = [0.0, 1e-6, 1.0, 1e3]
  i = c.index
  axis = ref.unit(gen.AXES[i % 17])
  a = angles[(i // 17) % 12]
  length = lengths[(i // (17 * 12)) % 4]
  sign = -1.0 if (i // (17 * 12 * 4)) % 2 else 1.0
  for t in (axis * length, -axis * length, length * ref.unit(np.cross(axis, [0.3, -0.5, 0.7]))):
    q = sign * ref.quat(a, axis)
    if a == 0.0:
      q = sign * np.array([0.0, 0.0, 0.0, 1.0])
    p = np.append(t, q)
    v = np.append(q, 0.5 * ref.qmul(np.append(t, 0.0), q))
    c.input(v)
    judge(c, v, ref.transform(p))
  c.describe(axis=axis, angle=a, length=length, sign=sign)


def companions(c):
  """Two sensors on one body: motions conjugated by the mounting."""
  rng = c.rng
  a = gen.sign(rng) * (rng.uniform(1e-3, math.pi) if rng.integers(4) else math.pi)
  q = ref.quat(a, gen.axis(rng))
  t = gen.translation(rng)
  if np.linalg.norm(t) > 100:
    t = t / 100
  m = ref.transform(np.append(t, q))
  x = gen.mild_motion(rng, float(rng.choice([0.0, 0.1, 1.0, 10.0])))
  c.input(m, x)
  c.describe(motion=ref.pose(m), mounting=ref.pose(x))
  da = DualQuaternion.from_pose_vector(np.append(t, gen.sign(rng) * q))
  dx = DualQuaternion.from_pose_vector(ref.pose(x))
  db = dx * da * dx.inverse()
  ax_a, deg_a, along_a = da.screw_axis()
  ax_b, deg_b, along_b = db.screw_axis()
  eps = 1e-9 * (1 + np.linalg.norm(t) + np.linalg.norm(x[:3, 3])) / min(1.0, abs(a))
  c.close("companion angle", deg_b, deg_a, 1e-7)
  c.close("companion translation", along_b, along_a, eps)
  c.close("companion axis", ax_b, x[:3, :3].dot(ax_a), 1e-9 / min(1.0, abs(a)))


GROUPS = [
    Group("motions", motions, 1500, 50000),
    Group("special", special, 17 * 12 * 4 * 2, 17 * 12 * 4 * 2),
    Group("companions", companions, 600, 20000)]
REQUIRED = ["angle in degrees", "axis length", "rotation about the axis", "axis direction",
            "translation along the axis", "pure translation", "no motion", "companion angle",
            "companion translation", "companion axis", "operand unchanged"]
