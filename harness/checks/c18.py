"""C18: calibration files."""
import json
import os

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration

PROPERTY = "C18"
LEVEL = "exploration"


def delay_of(rng):
  return float([0.0, -0.0213, 1e-7, -1478163000.25, rng.uniform(-10, 10), rng.uniform(-1, 1)][rng.integers(6)])


def make(rng, m, delay):
  v = gen.sign(rng) * ref.dq(m)
  return ExtrinsicCalibration(delay, DualQuaternion.from_vector(v))


def conj(m):
  out = m.copy()
  out[:3, :3] = m[:3, :3].T
  return out


def judge_file(c, path, m, delay, switched, eps):
  data = json.load(open(path))
  c.check("file layout", set(data) == {"delay", "rotation", "translation"} and
          set(data["rotation"]) == set("ijkw") and set(data["translation"]) == set("xyz"), data)
  numbers = [data["delay"]] + list(data["rotation"].values()) + list(data["translation"].values())
  c.check("file holds numbers", all(isinstance(x, (int, float)) and not isinstance(x, bool)
                                    for x in numbers), numbers)
  c.close("delay in the file", data["delay"], delay, 0.0)
  q = np.array([data["rotation"][k] for k in "ijkw"])
  t = np.array([data["translation"][k] for k in "xyz"])
  c.close("unit rotation in the file", np.linalg.norm(q), 1.0, 1e-9)
  want = m[:3, :3].T if switched else m[:3, :3]
  c.close("rotation in the file", ref.rot(q), want, 1e-9)
  c.close("translation in the file", t, m[:3, 3], eps)


def files(c):
  rng = c.rng
  m, delay = gen.motion(rng), delay_of(rng)
  eps = 1e-10 * (1 + np.max(np.abs(m)))
  cal = make(rng, m, delay)
  if rng.integers(4) == 0:
    cal.time_offset = np.float64(delay)
  path = os.path.join(c.scratch(), "calibration.json")
  c.input(m, delay)
  c.describe(pose=ref.pose(m), delay=delay)
  if rng.integers(3) == 0:
    with open(path, "w") as f:
      f.write("old content " * 200)
  for out_switch in (None, False, True):
    before = cal.pose_dq.dq.copy()
    if out_switch is None:
      cal.writeJson(path)
    elif rng.integers(2):
      cal.writeJson(path, out_switch)
    else:
      cal.writeJson(path, switchConvention=out_switch)
    c.check("calibration unchanged", np.allclose(cal.pose_dq.dq, before, rtol=1e-12, atol=1e-12)
            and cal.time_offset == delay, cal.pose_dq.dq, before)
    judge_file(c, path, m, delay, bool(out_switch), eps)
    content = open(path).read()
    for in_switch in (None, False, True):
      if in_switch is None:
        back = ExtrinsicCalibration.fromJson(path)
      elif rng.integers(2):
        back = ExtrinsicCalibration.fromJson(path, in_switch)
      else:
        back = ExtrinsicCalibration.fromJson(path, switchConvention=in_switch)
      want = m if bool(out_switch) == bool(in_switch) else conj(m)
      c.close("transform read back", ref.dq_to_transform(back.pose_dq.dq), want, eps * 3 + 1e-9)
      c.close("unit length", np.linalg.norm(back.pose_dq.dq[:4]), 1.0, 1e-9)
      c.close("delay read back", back.time_offset, delay, 0.0)
    c.check("reading keeps the file", open(path).read() == content)


def foreign(c):
  """Files from other programs: integers, strings of numbers, any key order, any length."""
  rng = c.rng
  m, delay = gen.mild_motion(rng, 10.0), delay_of(rng)
  p = ref.pose(m)
  scale = 10.0 ** rng.uniform(-1, 1) * gen.sign(rng)
  data = {"translation": {k: p[i] for i, k in enumerate("xyz")},
          "rotation": {k: p[3 + i] * scale for i, k in enumerate("wkji"[::-1])},
          "delay": delay}
  data["rotation"] = {k: data["rotation"][k] for k in "wikj"}
  path = os.path.join(c.scratch(), "f.json")
  with open(path, "w") as f:
    json.dump(data, f)
  c.input(p, delay, scale)
  back = ExtrinsicCalibration.fromJson(path)
  c.close("foreign transform", ref.dq_to_transform(back.pose_dq.dq), m, 1e-9)
  c.close("foreign delay", back.time_offset, delay, 0.0)
  back = ExtrinsicCalibration.fromJson(path, True)
  c.close("foreign transform switched", ref.dq_to_transform(back.pose_dq.dq), conj(m), 1e-9)


def products(c):
  rng = c.rng
  n = int(rng.integers(2, 7))
  mats = [gen.mild_motion(rng, 5.0) if rng.integers(3) else gen.motion(rng) for _ in range(n)]
  delays = [delay_of(rng) for _ in range(n)]
  cals = [make(rng, m, d) for m, d in zip(mats, delays)]
  c.input(mats, delays)
  eps = 1e-9 * (1 + sum(np.max(np.abs(m)) for m in mats))
  with c.unchanged("factors unchanged", cals):
    total = cals[0]
    for x in cals[1:]:
      total = total * x
  want = np.identity(4)
  for m in mats:
    want = want.dot(m)
  c.close("delays add", total.time_offset, sum(delays), 1e-6 * (1 + abs(sum(delays))) * 1e-3)
  c.close("transforms compose", ref.dq_to_transform(total.pose_dq.dq), want, eps)
  # Order matters and the grouping does not.
  left = (cals[0] * cals[1]) * cals[-1]
  right = cals[0] * (cals[1] * cals[-1])
  c.close("grouping", ref.dq_to_transform(left.pose_dq.dq), ref.dq_to_transform(right.pose_dq.dq), eps)
  path = os.path.join(c.scratch(), "t.json")
  total.writeJson(path)
  back = ExtrinsicCalibration.fromJson(path)
  c.close("composed file", ref.dq_to_transform(back.pose_dq.dq), want, eps)


GROUPS = [
    Group("files", files, 150, 3000),
    Group("foreign", foreign, 80, 1500),
    Group("products", products, 150, 3000)]
REQUIRED = ["file layout", "file holds numbers", "rotation in the file", "translation in the file",
            "delay in the file", "transform read back", "delay read back", "calibration unchanged",
            "delays add", "transforms compose", "factors unchanged"]
