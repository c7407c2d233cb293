"""C14: re-basing of paths and synthesis of the second sensor's path."""
import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    align_paths_at_index, compute_dual_quaternions_with_offset, get_aligned_poses)

PROPERTY = "C14"
LEVEL = "exploration"
ASSUMPTIONS = ["translations up to 10 km"]


def path(rng):
  n = int([1, 2, 3, 8, 25, 60, 130][rng.integers(7)])
  kind = rng.integers(3)
  if kind == 0:
    body = gen.Smooth(rng, reach=2.0)
    return [body(0.3 * i) for i in range(n)]
  if kind == 1:
    return [gen.mild_motion(rng, 3.0) for _ in range(n)]
  return [gen.motion(rng) for _ in range(n)]


def D(rng, m):
  return DualQuaternion.from_vector(gen.sign(rng) * ref.dq(m))


def size(mats):
  return 1.0 + max(np.max(np.abs(m)) for m in mats)


def align(c):
  rng = c.rng
  mats = path(rng)
  n = len(mats)
  k = int(rng.integers(n)) if rng.integers(4) else [0, n - 1][rng.integers(2)]
  enforce = bool(rng.integers(4))
  c.input(mats, k, enforce)
  c.describe(poses=n, index=k, enforce=enforce, first=ref.pose(mats[0]))
  dqs = [D(rng, m) for m in mats]
  with c.unchanged("input unchanged", dqs):
    if k == 0 and enforce and rng.integers(2):
      out = align_paths_at_index(dqs)
    else:
      out = align_paths_at_index(dqs, k, enforce)
  c.check("same number of poses", len(out) == n, len(out))
  order = list(range(k, n)) + list(range(k))
  eps = 1e-10 * size(mats) * 3
  inv = ref.inv(mats[k])
  c.close("starts at the origin", ref.dq_to_transform(out[0].dq), np.identity(4), eps)
  for o, i in zip(out, order):
    c.close("relative motion", ref.dq_to_transform(o.dq), inv.dot(mats[i]), eps, "pose", i)
    c.close("unit length", np.linalg.norm(o.dq[:4]), 1.0, 1e-9)
    if enforce:
      c.check("non-negative scalar part", o.dq[3] >= 0.0, o.dq)
    else:
      expected = ref.qmul(ref.qconj(dqs[k].dq[:4]), dqs[i].dq[:4])
      c.close("sign left alone", o.dq[:4], expected, 1e-9)
  # Another base frame gives the same path.
  g = gen.mild_motion(rng, 2.0)
  moved = align_paths_at_index([D(rng, g.dot(m)) for m in mats], k, enforce)
  for a, b in zip(out, moved):
    c.close("base frame independent", ref.dq_to_transform(a.dq), ref.dq_to_transform(b.dq), 3 * eps)
  # Re-basing again at any pose keeps relative motions.
  j = int(rng.integers(n))
  again = align_paths_at_index(out, j)
  order2 = [order[x] for x in list(range(j, n)) + list(range(j))]
  inv2 = ref.inv(mats[order2[0]])
  for o, i in zip(again, order2):
    c.close("relative motion after re-basing", ref.dq_to_transform(o.dq), inv2.dot(mats[i]), 5 * eps)
  # The result does not share memory with the input.
  for o in out:
    o.dq[:] = 3.0
  c.close("output independent", dqs[0].dq[:4] ** 2, ref.dq(mats[0])[:4] ** 2, 1e-12)


def offsets(c):
  """The second sensor's path from the first."""
  rng = c.rng
  mats = path(rng)
  h_e, b_w = gen.motion(rng), gen.motion(rng)
  if rng.integers(6) == 0:
    h_e = np.identity(4)
  if rng.integers(6) == 0:
    b_w = np.identity(4)
  c.input(mats, h_e, b_w)
  c.describe(poses=len(mats), mounting=ref.pose(h_e), base=ref.pose(b_w))
  dqs, dx, dw = [D(rng, m) for m in mats], D(rng, h_e), D(rng, b_w)
  with c.unchanged("input unchanged", dqs, dx, dw):
    out = compute_dual_quaternions_with_offset(dqs, dx, dw)
  eps = 1e-10 * (size(mats) + size([h_e, b_w])) * 3
  c.check("same number of poses", len(out) == len(mats), len(out))
  for o, m in zip(out, mats):
    c.close("composed motion", ref.dq_to_transform(o.dq), ref.inv(b_w).dot(m).dot(h_e), eps)
    c.close("unit length", np.linalg.norm(o.dq[:4]), 1.0, 1e-9)


def transfer(c):
  """Transferring the second path by the mounting, both paths starting at the origin."""
  rng = c.rng
  mats = path(rng)
  x, base = gen.mild_motion(rng), gen.mild_motion(rng)
  wrong = gen.mild_motion(rng) if rng.integers(2) else x
  c.input(mats, x, wrong)
  second = [base.dot(m).dot(x) for m in mats]
  first = align_paths_at_index([D(rng, m) for m in mats])
  other = [D(rng, m) for m in second]
  if rng.integers(2):
    other = align_paths_at_index(other)
    second = [ref.inv(second[0]).dot(m) for m in second]
  dx = D(rng, wrong)
  with c.unchanged("transfer keeps the calibration", dx):
    poses_b, poses_w = get_aligned_poses(first, other, dx)
  eps = 1e-9 * (size(mats) + size(second))
  c.check("same number of poses", np.shape(poses_b) == (len(mats), 7) and
          np.shape(poses_w) == (len(mats), 7), np.shape(poses_b), np.shape(poses_w))
  start = second[0].dot(ref.inv(wrong))
  for i, m in enumerate(mats):
    c.close("first path", ref.transform(poses_b[i]), ref.inv(mats[0]).dot(m), eps)
    expected = ref.inv(start).dot(second[i]).dot(ref.inv(wrong))
    c.close("transferred path", ref.transform(poses_w[i]), expected, eps)


GROUPS = [
    Group("align", align, 250, 8000),
    Group("offsets", offsets, 200, 6000),
    Group("transfer", transfer, 200, 6000)]
REQUIRED = ["same number of poses", "starts at the origin", "relative motion",
            "non-negative scalar part", "sign left alone", "base frame independent",
            "composed motion", "transferred path", "input unchanged"]
