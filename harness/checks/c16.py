"""C16: loop errors against matrix products."""
import itertools
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.calibration_verification import compute_loop_error
from hand_eye_calibration.dual_quaternion import DualQuaternion

PROPERTY = "C16"
LEVEL = "exploration"
ASSUMPTIONS = ["calibrations given in the order of all pairs (first sensor with all "
               "others, second with all later ones, ...), as the experiments produce them"]


def loops(c):
  rng = c.rng
  n = 2 + c.index % 6 if c.index % 5 else 8 + (c.index // 5) % 5
  reach = float(rng.choice([0.1, 1.0, 50.0]))
  frames = [gen.mild_motion(rng, reach) for _ in range(n)]
  pairs = list(itertools.combinations(range(n), 2))
  true = {p: ref.inv(frames[p[0]]).dot(frames[p[1]]) for p in pairs}
  kind = (c.index // 6) % 4
  given = dict(true)
  level = float(10.0 ** rng.uniform(-5, 0))
  changed = None
  if kind == 1:
    changed = pairs[rng.integers(len(pairs))]
    given[changed] = given[changed].dot(gen.mild_motion(rng, 0.2))
  elif kind == 2:
    for p in pairs:
      given[p] = gen.motion(rng)
  elif kind == 3:
    for p in pairs:
      e = np.append(level * rng.uniform(-0.01, 0.01, 3), ref.quat(level * rng.uniform(0.0, 0.02), gen.axis(rng)))
      given[p] = given[p].dot(ref.transform(e))
  dqs = [DualQuaternion.from_vector(gen.sign(rng) * ref.dq(given[p])) for p in pairs]
  c.input([given[p] for p in pairs])
  c.describe(sensors=n, changed=changed, kind=["consistent", "one wrong", "arbitrary", "noisy"][kind])
  with c.unchanged("calibrations unchanged", dqs):
    position, orientation = compute_loop_error(dqs, n)
  total = np.identity(4)
  for i in range(n - 1):
    total = total.dot(given[(i, i + 1)])
  total = total.dot(ref.inv(given[(0, n - 1)]))
  distance = float(np.linalg.norm(total[:3, 3]))
  angle = math.degrees(ref.angle(ref.quat_from_rot(total[:3, :3]), [0, 0, 0, 1]))
  size = 1.0 + sum(np.max(np.abs(given[p])) for p in pairs)
  c.close("loop position error", position, distance, 1e-10 * size)
  c.close("loop orientation error", orientation, angle, 2e-6)
  if kind == 0 or n == 2:
    c.close("consistent calibrations close the loop", [position, orientation], [0, 0], 1e-10 * size + 2e-6)
  # Signs and lengths of the dual quaternions do not matter.
  again = [DualQuaternion.from_vector(gen.sign(rng) * d.dq) for d in dqs]
  p2, o2 = compute_loop_error(again, n)
  c.close("sign does not matter", [p2, o2], [position, orientation], 1e-9 * size + 2e-6)
  # Calibrations that are not part of the loop do not enter.
  used = {(i, i + 1) for i in range(n - 1)} | {(0, n - 1)}
  unused = [k for k, p in enumerate(pairs) if p not in used]
  if unused:
    k = unused[rng.integers(len(unused))]
    other = [d.copy() for d in dqs]
    other[k] = DualQuaternion.from_vector(ref.dq(gen.motion(rng)))
    p3, o3 = compute_loop_error(other, n)
    c.close("pairs outside the loop", [p3, o3], [position, orientation], 1e-9 * size + 2e-6)


GROUPS = [Group("loops", loops, 240, 6000)]
REQUIRED = ["loop position error", "loop orientation error", "pairs outside the loop",
            "consistent calibrations close the loop", "sign does not matter",
            "calibrations unchanged"]
