"""C25: sequences of library calls on shared data."""
import copy
import json
import os
import pickle
import random

import numpy as np

import gen
import ref
import solve
from core import Group
from hand_eye_calibration import calibration_verification
from hand_eye_calibration import csv_io
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
from hand_eye_calibration import hand_eye_calibration_plotting_tools as plots
from hand_eye_calibration import time_alignment
from hand_eye_calibration import time_alignment_plotting_tools as time_plots
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
from hand_eye_calibration.quaternion import Quaternion

PROPERTY = "C25"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["the last bits lost by normalising in place are not data"]


class Data(object):
  """Everything the calls share."""

  def __init__(self, rng):
    body = gen.Smooth(rng)
    n = int(rng.integers(40, 70))
    x = gen.mild_motion(rng)
    base = gen.mild_motion(rng)
    self.offset = float(rng.uniform(-3, 3))
    origin = gen.time_origin(rng)
    ta = gen.stamps(rng, n, 0.08, 0.2, 0.0)
    tb = gen.stamps(rng, int(1.5 * n), 0.05, 0.2, 0.3)
    self.a = gen.table(ta + origin - self.offset, [body(t) for t in ta], rng)
    self.b = gen.table(tb + origin, [base.dot(body(t)).dot(x) for t in tb], rng)
    self.times_a, self.times_b = self.a[:, 0].copy(), self.b[:, 0].copy()
    self.quat_a = [Quaternion(q=p[4:].copy()) for p in self.a]
    self.quat_b = [Quaternion(q=p[4:].copy()) for p in self.b]
    mats = solve.trajectory(rng, "random", 18)
    self.first = solve.wrap(solve.vectors(rng, mats))
    self.second = solve.wrap(solve.vectors(rng, [base.dot(m).dot(x) for m in mats]))
    # The solver of the published method wants paths that start at the origin.
    self.start_first = solve.wrap(solve.vectors(rng, solve.relative(mats, 0)))
    self.start_second = solve.wrap(solve.vectors(rng, solve.relative([m.dot(x) for m in mats], 0)))
    self.start_first[0].dq[:] = self.start_second[0].dq[:] = [0, 0, 0, 1, 0, 0, 0, 0]
    self.poses_a = np.array([ref.pose(m) for m in mats])
    self.poses_b = np.array([ref.pose(m.dot(gen.mild_motion(rng, 0.02))) for m in mats])
    self.samples = np.sort(rng.uniform(self.a[0, 0], self.a[-1, 0], size=12))
    self.signal = rng.normal(size=(60, 3))
    self.x = DualQuaternion.from_vector(gen.sign(rng) * ref.dq(x))
    self.base = DualQuaternion.from_vector(gen.sign(rng) * ref.dq(base))
    loop = [gen.mild_motion(rng) for _ in range(6)]
    self.loop = solve.wrap(solve.vectors(rng, loop))
    self.calibration = ExtrinsicCalibration(self.offset, DualQuaternion.from_vector(ref.dq(x)))
    self.filtering = time_alignment.FilteringConfig()
    self.filtering.smoothing_kernel_size_A = self.filtering.smoothing_kernel_size_B = int(rng.integers(1, 6))
    self.configs = {v: solve.config(v) for v in solve.VARIANTS}
    for v in self.configs.values():
      v.min_num_inliers = 5
      v.visualize_plot_every_nth_pose = 3
    self.config = he.HandEyeConfig()
    # More inliers wanted than there are pairs.
    self.strict = {v: solve.config(v) for v in solve.VARIANTS}
    for v in self.strict.values():
      v.min_num_inliers = 12
    # Two ways to see the same motion: tables, orientations and dual quaternions.
    self.matrix = ref.dq_to_transform(self.x.dq)
    self.point = rng.normal(size=3)
    self.index = int(rng.integers(18))


def twin(d, rng):
  """Other data with the same sizes, time stamps, first and last entries."""
  t = copy.deepcopy(d)
  move = gen.mild_motion(rng)
  for table in (t.a, t.b):
    for i in range(1, len(table) - 1):
      table[i, 1:] = ref.pose(move.dot(ref.transform(table[i, 1:])))
  for quats, table in ((t.quat_a, t.a), (t.quat_b, t.b)):
    quats[1:-1] = [Quaternion(q=p[4:].copy()) for p in table[1:-1]]
  for poses in (t.poses_a, t.poses_b):
    for i in range(1, len(poses) - 1):
      poses[i] = ref.pose(move.dot(ref.transform(poses[i])))
  x = t.matrix
  for paths in ((t.first, t.second), (t.loop, None)):
    for i in range(1, len(paths[0]) - 1):
      g = gen.mild_motion(rng)
      for path, move in zip(paths, (g, np.linalg.inv(x).dot(g).dot(x))):
        if path is not None:
          path[i] = DualQuaternion.from_vector(ref.dq(ref.dq_to_transform(path[i].dq).dot(move)))
  t.samples[1:-1] = np.sort(rng.uniform(t.samples[0], t.samples[-1], size=len(t.samples) - 2))
  t.signal[1:-1] += rng.normal(size=t.signal[1:-1].shape)
  return t


def described(v):
  """The data as nested tuples; rotations as unit quaternions."""
  if isinstance(v, DualQuaternion):
    return ("motion", v.dq / np.linalg.norm(v.dq[:4]))
  if isinstance(v, Quaternion):
    return ("rotation", ref.unit(v.q))
  if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] in (7, 8) and len(v) > 0:
    k = v.shape[1] - 7
    return ("table", v[:, :k + 3].tobytes(), np.array([ref.unit(q) for q in v[:, k + 3:]]))
  if isinstance(v, (list, tuple)):
    return tuple(described(x) for x in v)
  if isinstance(v, dict):
    return tuple((k, described(x)) for k, x in sorted(v.items()))
  if isinstance(v, np.ndarray):
    return ("array", v.shape, v.tobytes())
  if hasattr(v, "__dict__"):
    return (type(v).__name__, described(vars(v)))
  return repr(v)


def alike(a, b, tol=1e-9):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      return False
    if a.dtype.kind not in "fc" or b.dtype.kind not in "fc":
      return bool(np.array_equal(a, b))
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))
  if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
    return alike(np.array(a), np.array(b), tol)
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
  if isinstance(a, DualQuaternion) and isinstance(b, DualQuaternion):
    return alike(a.dq, b.dq, tol)
  if isinstance(a, Quaternion) and isinstance(b, Quaternion):
    return alike(a.q, b.q, tol)
  if isinstance(a, ExtrinsicCalibration) and isinstance(b, ExtrinsicCalibration):
    return alike([a.time_offset, a.pose_dq], [b.time_offset, b.pose_dq], tol)
  return type(a) is type(b) and a == b


def solved(config, first, second):
  """A solver's result without the measured time, or that it gave up."""
  try:
    out = solve.solve(config, first, second)
  except AssertionError:
    return "gave up"
  return tuple(out[:5]) + tuple(out[6:])


def written(path):
  with open(path) as f:
    text = f.read()
  try:
    data = json.loads(text)
    return [data["delay"], [data["rotation"][k] for k in "ijkw"], [data["translation"][k] for k in "xyz"]]
  except (ValueError, TypeError):
    return [[float(v) for v in line.split(",")] for line in text.splitlines()]


def operations(d, scratch):
  """Name -> (function, does it draw random numbers, may it draw plots)."""
  ops = {}

  def add(name, function, draws=False):
    ops[name] = (function, draws)

  add("time offset", lambda p: time_alignment.calculate_time_offset(
      d.times_a, d.quat_a, d.times_b, d.quat_b, d.filtering, p))
  add("time offset back", lambda p: time_alignment.calculate_time_offset(
      d.times_b, d.quat_b, d.times_a, d.quat_a, d.filtering, p))
  add("align", lambda p: time_alignment.compute_aligned_poses(d.a, d.b, d.offset, p))
  add("align back", lambda p: time_alignment.compute_aligned_poses(d.b, d.a, -d.offset, p))
  add("interpolate", lambda p: time_alignment.interpolate_poses_from_samples(d.a, d.samples))
  add("resample", lambda p: time_alignment.resample_quaternions(d.times_a, d.quat_a, 0.1))
  add("velocities", lambda p: time_alignment.compute_angular_velocity_norms(
      d.quat_a, d.times_a, 3, 99.0, p))
  add("smooth", lambda p: time_alignment.filter_and_smooth_angular_velocity(d.signal, 5, 95.0, p))
  add("correlate", lambda p: time_alignment.calculate_time_offset_from_signals(
      d.times_a[:30], d.signal[:30, 0], d.times_b[:40], d.signal[20:, 0], p, False))
  add("re-base", lambda p: he.align_paths_at_index(d.first, d.index))
  add("re-base signs", lambda p: he.align_paths_at_index(d.second, d.index, False))
  add("prefilter", lambda p: he.prefilter_using_screw_axis(d.first, d.second, 0.95))
  add("offset path", lambda p: he.compute_dual_quaternions_with_offset(d.first, d.x, d.base))
  add("linear system", lambda p: he.setup_t_matrix(d.loop[:1], d.loop[:1]))
  add("calibrate", lambda p: he.compute_hand_eye_calibration(d.start_first, d.start_second, 1e-2))
  add("evaluate pairs", lambda p: he.evaluate_alignment(d.poses_a, d.poses_b, d.config, p))
  add("pose error", lambda p: he.compute_pose_error(d.poses_a[d.index], d.poses_b[d.index]))
  add("transfer", lambda p: he.get_aligned_poses(d.first, d.second, d.x))
  add("loop", lambda p: calibration_verification.compute_loop_error(d.loop, 4, p))

  def evaluate(p):
    d.config.visualize = p
    try:
      return calibration_verification.evaluate_calibration(d.a, d.b, d.x, d.offset, d.config)
    finally:
      d.config.visualize = False

  add("evaluate", evaluate)
  for v in d.configs:
    if v == "EC":
      continue

    def run(p, v=v):
      d.configs[v].visualize = p
      try:
        return solved(d.configs[v], d.first, d.second)
      finally:
        d.configs[v].visualize = False

    add("solve " + v, run, draws=v.startswith(("RC", "RS")))
    if not v.startswith(("RC", "RS")):
      add("solve few " + v, lambda p, v=v: solved(d.strict[v], d.first[:9], d.second[:9]))

  def poses_file(p):
    path = os.path.join(scratch, "poses.csv")
    csv_io.write_time_stamped_poses_to_csv_file(d.a, path)
    out = csv_io.read_time_stamped_poses_from_csv_file(path, p)
    return written(path)

  def offset_file(p):
    path = os.path.join(scratch, "offset.csv")
    csv_io.write_double_numpy_array_to_csv_file(np.array([d.offset]), path)
    return written(path)

  def calibration_file(p):
    path = os.path.join(scratch, "calibration.json")
    # Both conventions one after the other; only the last stays.
    d.calibration.writeJson(path, True)
    d.calibration.writeJson(path, False)
    return written(path)

  def read_poses(p):
    path = os.path.join(scratch, "input.csv")
    return csv_io.read_time_stamped_poses_from_csv_file(path, True)[:2]

  def read_calibration(p):
    return ExtrinsicCalibration.fromJson(os.path.join(scratch, "input.json"), True)

  add("write poses", poses_file)
  add("write offset", offset_file)
  add("write calibration", calibration_file)
  add("read poses", read_poses)
  add("read calibration", read_calibration)
  add("compose", lambda p: d.calibration * d.calibration)
  add("print", lambda p: (str(d.calibration), str(d.x), str(d.quat_a[0])))
  add("convert", lambda p: (d.x.to_pose(), d.x.to_matrix(), d.base.inverse(), d.base * d.x, d.x.screw_axis(),
                            d.x.passive_transform_point(d.point), d.x.active_transform_point(d.point),
                            d.first[3].conjugate(), d.x + d.base, d.x - d.base, d.first[2] / d.first[3],
                            DualQuaternion.from_transformation_matrix(d.matrix),
                            DualQuaternion.from_pose_vector(d.poses_a[0])))
  add("rotations", lambda p: (d.quat_a[0] * d.quat_a[1], d.quat_a[2].inverse(), d.quat_a[3] / d.quat_a[4],
                              d.quat_a[0].angle_axis(), d.quat_a[1].to_rotation_matrix(), -d.quat_a[2],
                              d.quat_a[0].rotate_vector(d.point), d.quat_a[5] - d.quat_a[6],
                              Quaternion.from_rotation_matrix(d.matrix[:3, :3])))
  add("plot poses", lambda p: plots.plot_poses([d.poses_a, d.poses_b], bool(d.index % 2), "t", False) and None)
  add("plot stamped poses", lambda p: time_plots.plot_time_stamped_poses("t", d.a, d.b, False) and None)
  return ops


def alone(call):
  """The result of a call in a process that made no other call."""
  read, write = os.pipe()
  child = os.fork()
  if child == 0:
    status = 1
    try:
      os.close(read)
      with os.fdopen(write, "wb") as f:
        f.write(pickle.dumps(call()))
      status = 0
    finally:
      os._exit(status)
  os.close(write)
  with os.fdopen(read, "rb") as f:
    data = f.read()
  _, status = os.waitpid(child, 0)
  if status != 0:
    # The call itself says what is wrong.
    return call()
  return pickle.loads(data)


def seeded(seed, call):
  random.seed(seed)
  np.random.seed(seed)
  return call()


def prepare(d, scratch):
  with open(os.path.join(scratch, "input.csv"), "w") as f:
    for row in d.a:
      f.write(", ".join(repr(float(v)) for v in row) + "\n")
  with open(os.path.join(scratch, "input.json"), "w") as f:
    p = ref.pose(d.matrix)
    json.dump({"delay": 0.5, "rotation": dict(zip("ijkw", [float(v) for v in p[3:]])),
               "translation": dict(zip("xyz", [float(v) for v in p[:3]]))}, f)


def session(c):
  rng = c.rng
  d = Data(rng)
  scratch = c.scratch()
  prepare(d, scratch)
  c.input(d.a, d.b)
  other = twin(d, rng)
  data = [d, other]
  pristine = copy.deepcopy(data)
  ops = [operations(x, scratch) for x in data]
  names = sorted(ops[0])
  # Some calls come twice in a row or again later.
  order = [names[int(i)] for i in rng.permutation(len(names))[:10]]
  order += [order[int(i)] for i in rng.integers(0, 10, size=8)]
  order.insert(1, order[0])
  # Most calls are on the first data, some on data that only look the same from afar.
  order = [(name, int(rng.integers(3) == 0)) for name in order]
  order += [(name, 1 - k) for name, k in order[:5]]
  c.describe(calls=order)
  before = [described(vars(x)) for x in data]
  # The same calls, each alone, on data of its own and before all others.
  seeds = {name: c.index * 7 + names.index(name) for name in names}
  expected = {}
  for name, which in set(order):
    fresh = operations(copy.deepcopy(pristine[which]), scratch)[name][0]
    expected[name, which] = alone(lambda: seeded(seeds[name], lambda: fresh(False)))
  for k, (name, which) in enumerate(order):
    function, draws = ops[which][name]
    seed = seeds[name]
    plot = bool(rng.integers(3) == 0)
    if plot:
      c.count("calls with plots")
    # Only calls that draw random numbers need the seed.
    result = seeded(seed if draws else int(rng.integers(2 ** 31)), lambda: function(plot))
    c.check("same result again", alike(result, expected[name, which]), name, "data", which, "call", k, "plots", plot,
            repr(result)[:600], "alone", repr(expected[name, which])[:600])
    after = [described(vars(x)) for x in data]
    if not alike(after, before, 1e-12):
      changed = [x[0] for x, y in zip(after[0] + after[1], before[0] + before[1]) if not alike(x, y, 1e-12)]
      c.check("inputs describe the same data", False, "after", name, "changed", changed)
      return
    c.check("inputs describe the same data", True)
    c.count("call: " + name)


GROUPS = [Group("session", session, 120, 2400)]
REQUIRED = ["same result again", "inputs describe the same data"]
