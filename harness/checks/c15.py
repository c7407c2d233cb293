"""C15: evaluation of alignments and calibrations against the definition."""
import math

import numpy as np

import gen
import ref
from checks import c06, c07
from core import Group
from hand_eye_calibration.calibration_verification import evaluate_calibration
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    HandEyeConfig, evaluate_alignment)

PROPERTY = "C15"
LEVEL = "exploration"
ASSUMPTIONS = ["no pair error within 1e-6 (relative) of a threshold (such cases are skipped)",
               "stamps in the last interval of the faster sensor may or may not be paired"]


def rms(v):
  return math.sqrt(float(np.mean(np.square(v))))


def config_with(position, orientation):
  config = HandEyeConfig()
  config.ransac_position_error_threshold_m = position
  config.ransac_orientation_error_threshold_deg = orientation
  return config


def alignment(c):
  """Two lists of poses with errors around the thresholds."""
  rng = c.rng
  n = int([1, 2, 3, 10, 60, 260][rng.integers(6)]) if rng.integers(60) else 1300
  tp, to = float(10.0 ** rng.uniform(-3, 0)), float(10.0 ** rng.uniform(-2, 2))
  if rng.integers(6) == 0:
    to = float(rng.choice([170.0, 185.0]))
  a, b, ep, eo = [], [], [], []
  for _ in range(n):
    q = gen.quat(rng)
    p = gen.direction(rng) * 10.0 ** rng.uniform(-3, 2)
    scale = float([0.0, 0.5, 0.999, 1.001, 2.0, 10.0][rng.integers(6)])
    scale_o = float([0.0, 0.5, 0.999, 1.001, 2.0, 10.0][rng.integers(6)])
    d = gen.direction(rng) * tp * scale
    angle = min(to * scale_o, 179.9)
    r = ref.qmul(q, ref.quat(math.radians(angle), gen.axis(rng))) if angle else q.copy()
    a.append(np.append(p, gen.sign(rng) * q))
    b.append(np.append(p + d, gen.sign(rng) * r))
    e = ref.pose_error(ref.transform(a[-1]), ref.transform(b[-1]))
    ep.append(e[0])
    eo.append(math.degrees(ref.angle(a[-1][3:], b[-1][3:])))
  a, b = np.array(a), np.array(b)
  config = config_with(tp, to)
  c.input(a, b, tp, to)
  c.describe(pairs=n, position_threshold=tp, orientation_threshold=to)
  with c.unchanged("inputs unchanged", a, b, config):
    rp, ro, flags = evaluate_alignment(a, b, config)
  c.close("position error", rp, rms(ep), 1e-9 * (1 + max(ep)))
  c.close("orientation error", ro, rms(eo), 2e-6)
  expected = [x < tp and y < to for x, y in zip(ep, eo)]
  sharp = all(abs(x - tp) > 1e-6 * tp and abs(y - to) > 1e-6 * to + 1e-7 for x, y in zip(ep, eo))
  if sharp:
    c.check("inliers", [bool(f) for f in flags] == expected, flags, expected)
    c.count("inliers", sum(expected))
    c.count("outliers", n - sum(expected))
  c.check("one flag per pair", len(flags) == n, len(flags))
  # Exchanging the lists or the order of the pairs changes nothing.
  rp2, ro2, _ = evaluate_alignment(b, a, config)
  c.close("symmetric", [rp2, ro2], [rp, ro], 1e-6)
  perm = rng.permutation(n)
  rp3, ro3, flags3 = evaluate_alignment(a[perm], b[perm], config)
  c.close("order of pairs", [rp3, ro3], [rp, ro], 1e-9 * (1 + rp + ro))
  if sharp:
    c.check("order of pairs", [bool(flags3[i]) for i in range(n)] == [expected[k] for k in perm])


def mismatched(c):
  """Lists of different length are refused."""
  rng = c.rng
  n = int(rng.integers(2, 6))
  a = np.array([gen.pose(rng) for _ in range(n)])
  c.input(a)
  c.raises("different lengths refused", (AssertionError, ValueError),
           evaluate_alignment, a, a[:-1], HandEyeConfig())


def reference(a, b, offset, x, times):
  """Errors per pair by the definition, at the given stamps."""
  shifted = a.copy()
  shifted[:, 0] = a[:, 0] + offset
  firsts = [ref.transform(np.append(*c06.expected(shifted, t))) for t in times]
  seconds = [ref.transform(np.append(*c06.expected(b, t))) for t in times]
  ep, eo = [], []
  for m, k in zip(firsts, seconds):
    p = ref.inv(firsts[0]).dot(m)
    q = x.dot(ref.inv(seconds[0])).dot(k).dot(ref.inv(x))
    e = ref.pose_error(p, q)
    ep.append(e[0])
    eo.append(math.degrees(ref.angle(ref.quat_from_rot(p[:3, :3]), ref.quat_from_rot(q[:3, :3]))))
  return ep, eo


def calibrations(c):
  """True and wrong calibrations on raw trajectories."""
  rng = c.rng
  dt_a, dt_b = float(rng.uniform(0.02, 0.06)), float(rng.uniform(0.07, 0.09))
  if rng.integers(2):
    dt_a, dt_b = dt_b, dt_a
  duration = float(rng.uniform(1.0, 4.0)) if rng.integers(6) else float(rng.uniform(10.0, 20.0))
  ta = gen.stamps(rng, int(duration / dt_a), dt_a, 0.1)
  tb = gen.stamps(rng, int(duration / dt_b), dt_b, 0.1, start=float(rng.uniform(-0.5, 0.5)))
  if rng.integers(3) == 0:
    ta = c07.drop(rng, ta, 0.5)
  offset = c07.grid_offset(rng)
  origin = float(rng.choice([0.0, 1478163000.0]))
  grid = 2.0 ** -20
  ta, tb = np.unique(np.round(ta / grid)) * grid, np.unique(np.round(tb / grid)) * grid
  body, base, x = gen.Smooth(rng), gen.mild_motion(rng), gen.mild_motion(rng)
  # Exact data on both sensors' own stamps.
  a = gen.table(ta, [body(t) for t in ta], rng)
  b = gen.table(tb, [base.dot(body(t)).dot(x) for t in tb], rng)
  a[:, 0] += origin - offset
  b[:, 0] += origin
  kind = c.index % 4
  guess, guess_offset = x, offset
  if kind == 1:
    guess = x.dot(gen.mild_motion(rng, 0.1))
  elif kind == 2:
    guess_offset = offset + float(rng.integers(-20, 20)) / 64.0
  elif kind == 3:
    d = np.identity(4)
    d[:3, 3] = rng.uniform(-0.05, 0.05, size=3)
    guess = x.dot(d)
  tp, to = float(10.0 ** rng.uniform(-2.5, -0.5)), float(10.0 ** rng.uniform(-1, 1.5))
  config = config_with(tp, to)
  dq = DualQuaternion.from_vector(gen.sign(rng) * ref.dq(guess))
  c.input(a, b, guess, guess_offset)
  c.describe(kind=["true", "wrong transform", "wrong offset", "wrong translation"][kind],
             rows_a=len(a), rows_b=len(b), offset=guess_offset)
  with c.unchanged("inputs unchanged", a, b, dq, config):
    (rp, ro), inliers = evaluate_calibration(a, b, dq, guess_offset, config)
  shifted = a[:, 0] + guess_offset
  start = max(shifted[0], b[0, 0])
  if np.median(np.diff(a[:, 0])) > np.median(np.diff(b[:, 0])):
    must, may = c07.side(shifted, b[:, 0], start)
  else:
    must, may = c07.side(b[:, 0], shifted, start)
  if not may:
    c.check("no common time", math.isinf(rp) and math.isinf(ro) and inliers == 0, rp, ro, inliers)
    return
  extra = sorted(may - must)
  must = sorted(must)
  if must and extra and extra[0] < must[-1]:
    c.count("skipped near gap limit")
    return
  options = []
  for k in range(len(extra) + 1):
    times = must + extra[:k]
    if not times:
      continue
    ep, eo = reference(a, b, guess_offset, guess, times)
    options.append((rms(ep), rms(eo), sum(u < tp and v < to for u, v in zip(ep, eo)),
                    all(abs(u - tp) > 1e-6 and abs(v - to) > 1e-5 for u, v in zip(ep, eo))))
  fits = [o for o in options if abs(o[0] - rp) < 1e-6 and abs(o[1] - ro) < 1e-4]
  c.check("errors by the definition", bool(fits), "observed", (rp, ro), "expected", options[:3])
  if fits and all(o[3] for o in fits):
    c.check("inliers of the calibration", any(int(inliers) == o[2] for o in fits),
            inliers, [o[2] for o in fits])


def few(c):
  """None, one or two common pairs: a slow sensor meets a fast one only here and there."""
  rng = c.rng
  want = c.index % 3
  slow = np.cumsum(rng.integers(900000, 1200000, size=6)) * 2.0 ** -20
  common = sorted(int(i) for i in rng.permutation(5)[:want])
  spread = np.arange(-4, 5) * 3.0 / 64.0 + 1.0 / 128.0
  # Data of the fast sensor around the chosen stamps, and between stamps elsewhere.
  fast = [slow[i] + spread for i in common] + [slow[i] + 0.45 + spread for i in range(6)]
  fast = np.unique(np.round(np.concatenate(fast) * 2.0 ** 20)) * 2.0 ** -20
  offset = c07.grid_offset(rng)
  body, base, x = gen.Smooth(rng), gen.mild_motion(rng), gen.mild_motion(rng)
  wrong = bool(rng.integers(2))
  guess = x.dot(gen.mild_motion(rng, 0.1)) if wrong else x
  if rng.integers(2):
    ta, tb = slow, fast
  else:
    ta, tb = fast, slow
  a = gen.table(ta, [body(t) for t in ta], rng)
  b = gen.table(tb, [base.dot(body(t)).dot(x) for t in tb], rng)
  a[:, 0] -= offset
  config = config_with(0.02, 1.0)
  c.input(a, b, guess, offset)
  c.describe(common=want, slow_first=len(ta) == 6, wrong=wrong)
  (rp, ro), inliers = evaluate_calibration(a, b, DualQuaternion.from_vector(ref.dq(guess)), offset, config)
  times = [float(slow[i]) for i in common]
  if not times:
    c.check("no common time", math.isinf(rp) and math.isinf(ro) and inliers == 0, rp, ro, inliers)
    return
  ep, eo = reference(a, b, offset, guess, times)
  c.close("few pairs: errors", [rp, ro], [rms(ep), rms(eo)], 1e-4)
  if all(abs(u - 0.02) > 1e-4 and abs(v - 1.0) > 1e-3 for u, v in zip(ep, eo)):
    c.check("few pairs: inliers", int(inliers) == sum(u < 0.02 and v < 1.0 for u, v in zip(ep, eo)),
            inliers, ep, eo)


def exact(c):
  """Common stamps: the truth has no error, a wrong one the error it causes."""
  rng = c.rng
  n = int(rng.integers(4, 40))
  t = np.cumsum(rng.integers(20000, 80000, size=n)) * 2.0 ** -20
  offset = c07.grid_offset(rng)
  mats = [gen.mild_motion(rng, 2.0) for _ in range(n)] if rng.integers(2) else \
      [gen.Smooth(rng)(s) for s in t]
  base, x = gen.mild_motion(rng), gen.mild_motion(rng)
  a = gen.table(t - offset, mats, rng)
  b = gen.table(t, [base.dot(m).dot(x) for m in mats], rng)
  config = config_with(0.02, 1.0)
  c.input(a, b)
  c.describe(rows=n, offset=offset)
  (rp, ro), inliers = evaluate_calibration(a, b, DualQuaternion.from_vector(ref.dq(x)), offset, config)
  c.close("true calibration has no error", [rp, ro], [0.0, 0.0], 1e-5)
  c.check("true calibration has only inliers", n - 1 <= int(inliers) <= n, inliers, n)
  # A rotated mounting is noticed.
  wrong = x.dot(ref.transform(np.append([0.3, -0.2, 0.1], ref.quat(0.6, gen.direction(rng)))))
  (wp, wo), wrong_inliers = evaluate_calibration(
      a, b, DualQuaternion.from_vector(ref.dq(wrong)), offset, config)
  times = sorted(float(s) for s in t)
  ep, eo = reference(a, b, offset, wrong, times[:-1])
  ep2, eo2 = reference(a, b, offset, wrong, times)
  c.check("wrong calibration has its error",
          any(abs(wp - rms(u)) < 1e-6 and abs(wo - rms(v)) < 1e-4 for u, v in ((ep, eo), (ep2, eo2))),
          (wp, wo), (rms(ep), rms(eo)))
  # No common time.
  far = b.copy()
  far[:, 0] += 1000.0
  (ip, io), none = evaluate_calibration(a, far, DualQuaternion.from_vector(ref.dq(x)), offset, config)
  c.check("no common time", math.isinf(ip) and math.isinf(io) and ip > 0 and io > 0 and none == 0,
          ip, io, none)


GROUPS = [
    Group("alignment", alignment, 300, 8000),
    Group("mismatched", mismatched, 5, 50),
    Group("calibrations", calibrations, 48, 1200),
    Group("few", few, 60, 1500),
    Group("exact", exact, 40, 1000)]
REQUIRED = ["position error", "orientation error", "inliers", "errors by the definition",
            "inliers of the calibration", "true calibration has no error",
            "true calibration has only inliers", "wrong calibration has its error",
            "no common time", "few pairs: errors", "few pairs: inliers", "inputs unchanged"]
