"""C03: dual quaternions against 4x4 matrices."""
import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.quaternion import Quaternion

PROPERTY = "C03"
LEVEL = "exploration"
ASSUMPTIONS = ["translations up to 10 km"]


def tol(*ms):
  return 1e-11 * (1.0 + sum(np.max(np.abs(m)) for m in ms))


def D(m, rng=None):
  v = ref.dq(m)
  if rng is not None and rng.integers(2):
    v = -v
  return DualQuaternion.from_vector(v)


def judge_pose(c, p, m, eps, label):
  c.check(label, np.shape(p) == (7,) and np.all(np.isfinite(p)), p)
  c.close(label + " position", p[:3], m[:3, 3], eps)
  c.close(label + " rotation", ref.rot(p[3:7]), m[:3, :3], 1e-9)
  c.close(label + " unit length", np.linalg.norm(p[3:7]), 1.0, 1e-9)
  c.check(label + " scalar part", p[6] >= 0.0, p)


def conversions(c):
  """Poses and matrices in and out."""
  rng = c.rng
  p = gen.pose(rng)
  scale = [1.0, 1.0, 10.0 ** rng.uniform(-6, 6), 1.0 + gen.sign(rng) * 10.0 ** rng.uniform(-7, -1)][rng.integers(4)]
  given = np.append(p[:3], p[3:] * scale)
  m = ref.transform(p)
  eps = tol(m)
  c.input(given)
  c.describe(pose=given)
  with c.unchanged("operands unchanged", given, m):
    for dq in (DualQuaternion.from_pose_vector(given),
               DualQuaternion.from_pose(*[float(x) for x in given]),
               DualQuaternion.from_pose_vector([float(x) for x in given])):
      c.close("from pose", ref.dq_to_transform(dq.dq), m, eps)
      c.close("dual quaternion norm", dq.norm(), [1.0, 0.0], eps)
      judge_pose(c, dq.to_pose(), m, eps, "to pose")
      c.close("to matrix", dq.to_matrix(), m, eps)
      c.check("is normalised", dq.is_normalized() or eps > 1e-9)
    dq = DualQuaternion.from_transformation_matrix(m)
    c.close("from matrix", ref.dq_to_transform(dq.dq), m, 1e-8 * (1 + np.max(np.abs(m))))
    c.close("matrix round trip", dq.to_matrix(), m, 1e-8 * (1 + np.max(np.abs(m))))
    judge_pose(c, dq.to_pose(), m, 1e-8 * (1 + np.max(np.abs(m))), "matrix to pose")
  # Dual quaternions given as eight numbers, either sign and any length.
  for v in (ref.dq(m), -ref.dq(m), ref.dq(m) * scale):
    dq = DualQuaternion.from_vector(v)
    c.close("eight numbers", dq.dq, v, 0.0)
    c.close("eight numbers", [dq.r_x, dq.r_y, dq.r_z, dq.r_w, dq.t_x, dq.t_y, dq.t_z, dq.t_w], v, 0.0)
    c.close("eight numbers", np.append(dq.q_rot.q, dq.q_dual.q), v, 0.0)
    c.close("to matrix", dq.to_matrix(), m, 1e-10 * (1 + np.max(np.abs(m))))
    judge_pose(c, DualQuaternion.from_vector([float(x) for x in v]).to_pose(), m,
               1e-10 * (1 + np.max(np.abs(m))), "to pose")
    two = DualQuaternion(Quaternion(q=v[:4].copy()), Quaternion(q=v[4:].copy()))
    two.normalize()
    c.close("normalised", np.linalg.norm(two.dq[:4]), 1.0, 1e-12)
    c.close("normalised", ref.dq_to_transform(two.dq), m, 1e-10 * (1 + np.max(np.abs(m))))
    two.enforce_positive_q_rot_w()
    c.check("positive scalar part", two.dq[3] >= 0.0, two.dq)
    c.close("positive scalar part keeps motion", ref.dq_to_transform(two.dq), m,
            1e-10 * (1 + np.max(np.abs(m))))


def products(c):
  """Product, inverse, quotient and points."""
  rng = c.rng
  a, b = gen.motion(rng), gen.motion(rng)
  if rng.integers(8) == 0:
    b = ref.inv(a)
  x = gen.translation(rng)
  c.input(a, b, x)
  c.describe(a=ref.pose(a), b=ref.pose(b), point=x)
  da, db = D(a, rng), D(b, rng)
  eps = tol(a, b, x) * 10
  with c.unchanged("operands unchanged", da, db, x):
    ab = da * db
    c.close("product", ref.dq_to_transform(ab.dq), a.dot(b), eps)
    c.close("product norm", ab.norm(), [1.0, 0.0], eps)
    inv = da.inverse()
    c.close("inverse", ref.dq_to_transform(inv.dq), ref.inv(a), eps)
    c.close("conjugate of a unit dual quaternion",
            ref.dq_to_transform(da.conjugate().dq), ref.inv(a), eps)
    one = da * inv
    c.close("inverse cancels", ref.dq_to_transform(one.dq), np.identity(4), eps)
    c.close("inverse cancels", ref.dq_to_transform((inv * da).dq), np.identity(4), eps)
    c.close("quotient", ref.dq_to_transform((da / db).dq), a.dot(ref.inv(b)), eps)
    e = DualQuaternion.identity()
    c.close("identity", (da * e).dq, da.dq, eps)
    c.close("identity", (e * da).dq, da.dq, eps)
    c.close("identity", e.dq, [0, 0, 0, 1, 0, 0, 0, 0], 0.0)
    e.dq[:] = 2.0
    c.close("identity", DualQuaternion.identity().dq, [0, 0, 0, 1, 0, 0, 0, 0], 0.0)
    mine = da
    mine *= db
    c.close("product", ref.dq_to_transform(mine.dq), a.dot(b), eps)
    c.close("product", ref.dq_to_transform((da * da).dq), a.dot(a), eps)
    s = float(rng.uniform(0.2, 5))
    c.close("scaling", (da * s).dq, da.dq * s, eps)
    c.close("scaling", (s * da).dq, da.dq * s, eps)
    c.close("scaling", (da / s).dq, da.dq / s, eps)
    c.close("sum", (da + db).dq, da.dq + db.dq, eps)
    c.close("difference", (da - db).dq, da.dq - db.dq, eps)
    c.close("product in poses", (da * db).to_pose()[:3], a.dot(b)[:3, 3], eps)
    hom = np.append(x, 1.0)
    c.close("point by the motion", da.passive_transform_point(x), a.dot(hom)[:3], eps)
    c.close("point by the inverse motion", da.active_transform_point(x),
            ref.inv(a).dot(hom)[:3], eps)
    c.close("scalar part", da.scalar().dq, [0, 0, 0, da.dq[3], 0, 0, 0, da.dq[7]], eps)
    c.check("equality", da == da.copy() and not (da == (da * DualQuaternion.from_pose(0.5, 0, 0, 0, 0, 0.6, 0.8))),
            da, db)
    copied = da.copy()
    copied.dq[:] = 3.0
    v = da.dq.copy()
    w = DualQuaternion.from_vector(v)
    v[:] = 4.0
    c.close("independent values", w.dq, da.dq, 0.0)
    w.q_rot.q[:] = 1.0
    w.q_dual.q[:] = 1.0
    c.close("independent values", w.dq, da.dq, 0.0)
    out = w.to_pose()
    out[:] = 0.0
    c.close("independent values", ref.dq_to_transform(w.dq), a, eps)
  # Signs and length of the factors do not matter.
  scaled = DualQuaternion.from_vector(-2.5 * ref.dq(a))
  c.close("scaled inverse", ref.dq_to_transform((scaled.inverse()).dq), ref.inv(a), eps)
  c.close("scaled inverse cancels", ref.dq_to_transform((scaled * scaled.inverse()).dq),
          np.identity(4), eps)


def chains(c):
  """Long products of motions and their reversal."""
  rng = c.rng
  n = int(rng.integers(3, 40))
  ms = [gen.mild_motion(rng, 10.0) if rng.integers(2) else gen.motion(rng) for _ in range(n)]
  c.input(*ms)
  total, m, size = DualQuaternion.identity(), np.identity(4), 1.0
  for x in ms:
    total = total * D(x, rng)
    m = m.dot(x)
    size += np.max(np.abs(x))
  eps = 1e-10 * size
  c.close("chain", total.to_matrix(), m, eps)
  c.close("associativity", ref.dq_to_transform(((D(ms[0]) * D(ms[1])) * D(ms[2])).dq),
          ref.dq_to_transform((D(ms[0]) * (D(ms[1]) * D(ms[2]))).dq), eps)
  for x in reversed(ms):
    total = total * D(x, rng).inverse()
  c.close("chain undone", total.to_matrix(), np.identity(4), eps)


GROUPS = [
    Group("conversions", conversions, 700, 25000),
    Group("products", products, 700, 25000),
    Group("chains", chains, 100, 2500)]
REQUIRED = ["from pose", "to pose", "to matrix", "from matrix", "product", "inverse",
            "identity", "point by the motion", "point by the inverse motion", "chain",
            "to pose scalar part", "operands unchanged"]
