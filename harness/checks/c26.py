"""C26: the program that compares all algorithms on sets of pose files."""
import contextlib
import csv
import itertools
import json
import math
import os

import numpy as np

import gen
import programs
import ref
import solve
from checks import c08
from checks import c13
from core import Group
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
from hand_eye_calibration.algorithm_config import get_basic_config
from hand_eye_calibration.calibration_verification import evaluate_calibration
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration_experiments.experiment_results import ResultEntry

PROPERTY = "C26"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["the batch estimator and rosrun are stand-ins",
               "in most runs the solvers are stand-ins with recognisable results, in some they are the real ones",
               "the evaluation of a single calibration is judged by property C15"]
SCRIPT = "hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py"
BASE = ("baseline_filter", "baseline_no_filter", "RC_filter", "RC_no_filter", "RS_filter", "RS_no_filter", "EC", "ES")
NAMES = [b + o for b in BASE for o in ("_opt", "_no_opt")]


class Sensors(object):
  """Rigidly connected sensors, recorded at the same instants by different clocks."""

  def __init__(self, rng, count, poses=50, dt=0.2, axes=0):
    body = c08.Bursts(rng, poses * dt)
    place = gen.Smooth(rng, reach=0.5, speed=0.2)
    t = dt * np.arange(poses)
    self.mounts = [gen.mild_motion(rng, 0.4) for _ in range(count)]
    self.shifts = [float(dt * rng.integers(-15, 16)) for _ in range(count)]
    self.dt = dt
    self.tables = []
    few = []
    while axes and len(few) < axes:
      v = gen.axis(rng)
      if all(abs(v.dot(w)) < 0.9 for w in few):
        few.append(v)
    # With axes the body turns about few directions only, seen from its first pose.
    turns = [ref.rot(ref.quat(float(rng.uniform(0.5, 2.5)) if i else 0.0, few[i % axes])) if axes else ref.rot(body(u))
             for i, u in enumerate(t)]
    for x, shift in zip(self.mounts, self.shifts):
      base = gen.mild_motion(rng, 2.0)
      mats = []
      for u, turn in zip(t, turns):
        m = place(u)
        m[:3, :3] = turn
        mats.append(m)
      self.tables.append(gen.table(t + 100.0 + shift, [base.dot(m).dot(x) for m in mats], rng))
    self.pairs = list(itertools.combinations(range(count), 2))

  def truth(self, i, j):
    return self.shifts[j] - self.shifts[i], ref.inv(self.mounts[i]).dot(self.mounts[j])

  def write(self, rng, directory, same_names=False):
    self.files = []
    for i, table in enumerate(self.tables):
      name = ["poses %d.csv", "sensor_%d.csv", "data.%d.csv"][rng.integers(3)] % i
      folder = os.path.join(directory, "set %d" % i if rng.integers(2) else "data")
      os.makedirs(folder, exist_ok=True)
      path = os.path.join(folder, name)
      programs.write_table(path, table)
      self.files.append(path)

  def results(self, rng):
    """Prepared estimator results per pair of file names."""
    out = {}
    for i, j in self.pairs:
      offset, x = self.truth(i, j)
      some = []
      for kind in range(9):
        d = np.identity(4)
        if kind:
          d = ref.transform(np.append(0.005 * rng.normal(size=3), ref.quat(0.01 * rng.uniform(0.1, 1), gen.axis(rng))))
        t = offset + (self.dt * float(rng.choice([-1, 1])) if kind == 5 else 0.0)
        if kind == 6:
          d = gen.mild_motion(rng)
        if kind == 7:
          t = offset + 1e4  # No common time.
        if kind == 8:
          t = 0.0
        p = ref.pose(x.dot(d))
        some.append({"delay": t, "rotation": dict(zip("ijkw", [float(v) for v in gen.sign(rng) * p[3:]])),
                     "translation": dict(zip("xyz", [float(v) for v in p[:3]]))})
      some += some[:3]
      out[os.path.basename(self.files[i]) + "|" + os.path.basename(self.files[j])] = some
    return out


def calibration(data):
  """Delay and matrix of a calibration file."""
  return float(data["delay"]), ref.transform(
      [data["translation"][k] for k in "xyz"] + [data["rotation"][k] for k in "ijkw"])


def evaluated(sensors, i, j, data):
  """What the evaluation of an estimator result must give, and whether it is one."""
  delay, x = calibration(data)
  (rp, ro), inliers = evaluate_calibration(sensors.tables[i], sensors.tables[j],
                                           DualQuaternion.from_vector(ref.dq(x)), delay, get_basic_config()[1])
  return rp, ro, inliers


def loop_error(n, given):
  total = np.identity(4)
  for i in range(n - 1):
    total = total.dot(given[(i, i + 1)])
  total = total.dot(ref.inv(given[(0, n - 1)]))
  return float(np.linalg.norm(total[:3, 3])), math.degrees(
      ref.angle(ref.quat_from_rot(total[:3, :3]), [0, 0, 0, 1]))


def read_results(path):
  with open(path) as f:
    lines = f.read().splitlines()
  return lines[0] if lines else "", list(csv.DictReader(lines))


def truth_word(w):
  return {"True": True, "False": False}.get(w, w)


class Solvers(object):
  """Stand-ins for the solvers: quick, with recognisable results."""

  def __init__(self, rng, fail):
    self.rng, self.fail = rng, fail
    self.log = []

  def one(self, name):
    def solver(first, second, config):
      rng = self.rng
      entry = {"function": name, "config": config.algorithm_name, "baseline": config.use_baseline_approach,
               "exhaustive": config.enable_exhaustive_search, "filter": config.prefilter_poses_enabled,
               "inliers": config.ransac_inlier_classification,
               "first": [ref.dq_to_transform(d.dq) for d in first],
               "second": [ref.dq_to_transform(d.dq) for d in second]}
      runtime = float(rng.uniform(0.001, 9.0))
      if rng.uniform() < self.fail:
        out = (False, None, (None, None), None, int(rng.integers(2, 1000)), runtime, None, None)
      else:
        m = gen.mild_motion(rng, 3.0)
        out = (True, DualQuaternion.from_vector(ref.dq(m)),
               (float(rng.uniform(0, 1)), float(rng.uniform(0, 90))), int(rng.integers(10, 1000)),
               int(rng.integers(10, 1000)), runtime, np.sort(rng.uniform(0, 50, 8))[::-1].copy(),
               bool(rng.integers(4) == 0))
        entry["x"] = m
      entry["out"] = out
      self.log.append(entry)
      return out
    return solver

  @contextlib.contextmanager
  def installed(self):
    names = ("compute_hand_eye_calibration_RANSAC", "compute_hand_eye_calibration_BASELINE")
    saved = [getattr(he, n) for n in names]
    for n in names:
      setattr(he, n, self.one(n))
    try:
      yield
    finally:
      for n, f in zip(names, saved):
        setattr(he, n, f)


def same_motions(x, first, second):
  """Largest deviation of the two paths from A X = X B."""
  worst = 0.0
  for a, b in zip(first, second):
    a, b = ref.inv(first[0]).dot(a), ref.inv(second[0]).dot(b)
    worst = max(worst, float(np.max(np.abs(a.dot(x) - x.dot(b)))))
  return worst


def command(sensors, directory, rng, flags, iterations, extra=()):
  args = ["--aligned_poses_B_H_csv_files"] + sensors.files + ["--result_directory", directory]
  if flags is not None:
    args += ["--is_absolute_pose_sensor"] + [str(int(f)) for f in flags]
  if iterations is not None:
    args += ["--num_iterations", str(iterations)]
  return args + list(extra)


def expected_order(iterations, pairs):
  """Algorithm, repetition and pair of every line, without the order of the algorithms."""
  out = {}
  for name in NAMES:
    n = iterations if name.startswith(("RC", "RS")) else 1
    out[name] = [(k, p) for k in range(n) for p in range(len(pairs))]
  return out


def near(text, value, tol=1e-9):
  try:
    v = float(text)
  except (TypeError, ValueError):
    return False
  return v == value or (math.isnan(v) and math.isnan(value)) or abs(v - value) <= tol * (1 + abs(value))


def rows_of(text):
  return [[float(v) for v in line.strip().strip("[]").split()] for line in text.splitlines() if line.strip()]


def plumbing(c):
  """Stand-in solvers, every value in the result file has one origin."""
  rng = c.rng
  d = c.scratch()
  count = [2, 3, 3, 4][c.index % 4]
  sensors = Sensors(rng, count)
  sensors.write(rng, d)
  flags = None if c.index % 3 == 0 else [bool(rng.integers(2)) for _ in range(count)]
  iterations = [1, 2, None, 1][c.index % 4]
  if c.index % 12 == 4:
    iterations = 5
  plan = {"results": sensors.results(rng), "salt": str(c.index), "fail": [0.0, 0.15, 1.0, 0.3][(c.index // 2) % 4]}
  env = programs.estimator(d, plan)
  solvers = Solvers(rng, [0.0, 0.0, 0.2, 1.0][(c.index // 3) % 4])
  result = os.path.join(d, ["results", "a/b c/results", "x/"][rng.integers(3)])
  runs = 2 if c.index % 4 == 1 else 1
  c.input(sensors.tables, flags, iterations, plan)
  c.describe(files=sensors.files, flags=flags, iterations=iterations, fail=plan["fail"], solver_fail=solvers.fail,
             runs=runs)
  inputs = {f: open(f, "rb").read() for f in sensors.files}
  work = os.path.join(d, "work")
  os.makedirs(work)
  before, seen = 0, 0
  stored = {}
  for run in range(runs):
    extra = ["--visualize", "True", "--plot_every_nth_pose", "3"] if c.index % 5 == 4 else []
    with solvers.installed():
      status, out, err = programs.run_here(SCRIPT, command(sensors, result, rng, flags, iterations, extra), work, env)
    if not c.check("run completes", status == 0, status, err[-800:]):
      return
    header, rows = read_results(os.path.join(result, "results.csv"))
    c.check("header first", header + "\n" == ResultEntry().get_header(), header)
    log = programs.estimator_log(env)[seen:]
    seen += len(log)
    judge_rows(c, sensors, rows[before:], solvers.log, log, flags, 2 if iterations is None else iterations, plan,
               stored, result)
    before = len(rows)
    solvers.log = []
  judge_files(c, sensors, result, stored)
  c.check("input files unchanged", all(open(f, "rb").read() == v for f, v in inputs.items()))


def judge_rows(c, sensors, rows, calls, log, flags, iterations, plan, stored, result):
  count, pairs = len(sensors.files), sensors.pairs
  order = expected_order(iterations, pairs)
  wanted = sum(len(v) for v in order.values())
  c.check("one line per algorithm, repetition and pair", len(rows) == wanted, len(rows), wanted)
  c.check("every algorithm once", sorted({r["algorithm_name"] for r in rows}) == sorted(NAMES))
  for name in NAMES:
    mine = [(int(r["iteration_num"]), int(r["num_pose_pairs"])) for r in rows if r["algorithm_name"] == name]
    c.check("fixed order", mine == order[name], name, mine)
  by_time = {repr(e["out"][5]): e for e in calls}
  c.check("every pair solved once", len(by_time) == len(calls) == wanted, len(calls), wanted)
  unused = list(log)
  blocks = {}
  for r in rows:
    e = by_time.pop(repr(float(r["runtime_s"])), None)
    name, k, p = r["algorithm_name"], int(r["iteration_num"]), int(r["num_pose_pairs"])
    if not c.check("line belongs to one solver call", e is not None, r):
      return
    i, j = pairs[p]
    opt = name.endswith("_opt") and not name.endswith("_no_opt")
    base = name[:-len("_opt")] if opt else name[:-len("_no_opt")]
    c.check("files of the pair", (r["poses_B_H_csv_file"], r["poses_W_E_csv_file"]) ==
            (sensors.files[i], sensors.files[j]), r["poses_B_H_csv_file"], r["poses_W_E_csv_file"], (i, j))
    c.check("right algorithm", e["function"].endswith("BASELINE") == base.startswith("baseline") and
            e["config"] == base and e["exhaustive"] == base.startswith("E") and
            e["filter"] == (base in ("baseline_filter", "RC_filter", "RS_filter", "EC", "ES")),
            e["function"], e["config"], base)
    c.check("flags", truth_word(r["prefiltering"]) is e["filter"] and truth_word(r["optimization_enabled"]) is opt,
            r["prefiltering"], r["optimization_enabled"], name)
    offset, x = sensors.truth(i, j)
    c.check("pose pairs of the two files", len(e["first"]) == len(e["second"]) and len(e["first"]) >= 30 and
            same_motions(x, e["first"], e["second"]) < 1e-5, len(e["first"]), len(e["second"]))
    success, dq, rmse, inliers, kept, _, sv, bad = e["out"]
    c.check("success and counts", truth_word(r["success"]) is success and int(r["num_input_poses"]) == len(e["first"]) and
            int(r["num_posesafter_filtering"]) == kept and r["bad_singular_values"] == str(bad), r, e["out"])
    if sv is not None:
      c.check("singular values", np.allclose(rows_of(r["singular_values"])[0], sv, rtol=1e-6, atol=1e-6), r["singular_values"])
    block = blocks.setdefault((name, k), {"rows": [], "x": {}, "good": True})
    block["rows"].append(r)
    block["good"] = block["good"] and success
    found = e.get("x")
    if not opt:
      if success:
        c.check("errors of the solver", near(r["position_rmse"], rmse[0]) and near(r["orientation_rmse"], rmse[1]) and
                int(r["num_inliers"]) == inliers, r, rmse, inliers)
      c.check("nothing optimised", near(r["optimization_runtime_s"], 0.0) and truth_word(r["optimization_success"]) is True)
    else:
      mine = []
      if success:
        mine = [v for v in unused if v.get("guess") is not None and
                np.max(np.abs(calibration(v["guess"])[1] - e["x"])) < 1e-8]
        if not c.check("estimator started once for the pair", len(mine) == 1, len(mine), name, k, p):
          return
      found = judge_optimised(c, sensors, r, mine, unused, i, j, offset, flags, plan)
      block["good"] = block["good"] and found is not None and truth_word(r["optimization_success"]) is True
      if not mine:
        found = None
    if found is not None:
      stored.setdefault((name, p), []).append(found)
      block["x"][(i, j)] = found
  judge_times(c, rows)
  c.check("estimator not started otherwise", not unused, len(unused), unused[:1])
  c.check("every solver call in one line", not by_time, len(by_time))
  for (name, k), block in blocks.items():
    given = {(float(r["loop_error_position_m"]), float(r["loop_error_orientation_deg"])) for r in block["rows"]}
    if block["good"] and len(block["x"]) == len(pairs):
      want = loop_error(count, block["x"])
      c.check("loop error of the transforms", len(given) == 1 and abs(list(given)[0][0] - want[0]) < 1e-8 and
              abs(list(given)[0][1] - want[1]) < 1e-5, given, want)
      c.count("loops judged")
    else:
      c.check("no loop error claimed", given == {(-1.0, -1.0)}, given, name, k)


def judge_times(c, rows):
  """A failed optimisation does not take over the time of another one."""
  for a, b in zip([None] + rows[:-1], rows):
    t = float(b["optimization_runtime_s"])
    c.check("optimisation time not negative", t >= 0.0, b)
    if a and t > 0.0 and b["optimization_success"] == "False":
      c.check("optimisation time of its own", t != float(a["optimization_runtime_s"]), a, b)


def judge_optimised(c, sensors, r, mine, unused, i, j, offset, flags, plan):
  """Checks one line with optimisation; returns the transform it stands for."""
  if not mine:
    c.check("without initial guess marked as failed", truth_word(r["optimization_success"]) is False and
            near(r["position_rmse"], -1.0) and near(r["orientation_rmse"], -1.0) and int(r["num_inliers"]) == 0, r)
    return None
  v = mine[0]
  unused.remove(v)
  o = v["options"]
  c.check("estimator understood its arguments", v["problem"] is None, v["problem"], v["arguments"])
  c.check("estimator gets the files of the pair", (o.get("pose1_csv"), o.get("pose2_csv")) ==
          (sensors.files[i], sensors.files[j]), o, (i, j))
  want = [str(bool(flags and flags[k])).lower() for k in (i, j)]
  c.check("estimator gets the sensor types", sorted(o.get("model_config", "").split(",")) == sorted(
      ["pose1/absoluteMeasurements=" + want[0], "pose2/absoluteMeasurements=" + want[1]]), o.get("model_config"), want)
  c.close("estimator gets the clock offset", v["guess"]["delay"], offset, 1e-6)
  if v["status"] != 0:
    c.count("estimator failed: " + v["mode"])
    c.check("failure marked", truth_word(r["optimization_success"]) is False and near(r["position_rmse"], -1.0) and
            near(r["orientation_rmse"], -1.0) and int(r["num_inliers"]) == 0, r, v["mode"])
    return None
  data = plan["results"][os.path.basename(sensors.files[i]) + "|" + os.path.basename(sensors.files[j])][v["result"]]
  rp, ro, inliers = evaluated(sensors, i, j, data)
  c.check("errors of the estimator's result", near(r["position_rmse"], rp, 1e-7) and
          near(r["orientation_rmse"], ro, 1e-6) and int(r["num_inliers"]) == inliers,
          r["position_rmse"], r["orientation_rmse"], r["num_inliers"], "expected", rp, ro, inliers)
  c.check("optimisation success", truth_word(r["optimization_success"]) is (inliers > 0),
          r["optimization_success"], inliers)
  c.check("optimisation time", 0.0 < float(r["optimization_runtime_s"]) < 900.0, r["optimization_runtime_s"])
  c.count("estimator results evaluated")
  return calibration(data)[1]


def judge_files(c, sensors, result, stored):
  """Transforms per algorithm and pair."""
  expected = set()
  for name in NAMES:
    for p in range(len(sensors.pairs)):
      dq_file = os.path.join(result, "dq_H_E", "%s_pose_pair_%d_dq_H_E.txt" % (name, p))
      pose_file = os.path.join(result, "poses_H_E", "%s_pose_pair_%d_pose_H_E.txt" % (name, p))
      want = stored.get((name, p), [])
      for path, size in ((dq_file, 8), (pose_file, 7)):
        expected.add(path)
        lines = []
        if os.path.exists(path):
          with open(path) as f:
            lines = rows_of(f.read())
        if not c.check("one stored transform per success", len(lines) == len(want) and
                       all(len(v) == size for v in lines), path, len(lines), len(want)):
          continue
        for v, x in zip(lines, want):
          m = ref.dq_to_transform(np.array(v)) if size == 8 else ref.transform(v)
          c.close("stored transform", m, x, 1e-6, name, p)
  for folder in ("dq_H_E", "poses_H_E"):
    names = {os.path.join(result, folder, f) for f in os.listdir(os.path.join(result, folder))}
    c.check("no other transforms", names <= expected, sorted(names - expected)[:3])


def complete(c):
  """The real solvers on two sensors."""
  rng = c.rng
  d = c.scratch()
  # Enough directions for the baseline with filter, not too many for the exhaustive search.
  sensors = Sensors(rng, 2, poses=46, axes=int(rng.integers(12, 15)))
  kept = c13.select(*[[ref.dq(m) for m in solve.relative([ref.transform(v[1:]) for v in table], 0)]
                      for table in sensors.tables], 0.95)[0]
  sensors.write(rng, d)
  plan = {"results": sensors.results(rng), "salt": str(c.index), "fail": [0.0, 0.3][c.index % 2]}
  env = programs.estimator(d, plan)
  result = os.path.join(d, "results")
  work = os.path.join(d, "work")
  os.makedirs(work)
  c.input(sensors.tables, plan)
  c.describe(kept=len(kept))
  status, out, err = programs.run_here(SCRIPT, command(sensors, result, rng, None, 1), work, env)
  if not c.check("run completes", status == 0, status, err[-800:]):
    return
  _, rows = read_results(os.path.join(result, "results.csv"))
  c.check("one line per algorithm, repetition and pair", sorted(r["algorithm_name"] for r in rows) ==
          sorted(NAMES), len(rows))
  log = programs.estimator_log(env)
  c.check("estimator started once per optimised pair", len(log) == 8, len(log))
  offset, x = sensors.truth(0, 1)
  for v in log:
    t, m = calibration(v["guess"])
    c.close("initial guess is the true offset", t, offset, 1e-6)
    c.close("initial guess is the true transform", m, x, 1e-5)
  for r in rows:
    c.check("all algorithms succeed", r["success"] == "True", r["algorithm_name"])
    if r["optimization_enabled"] == "False":
      c.check("errors of exact data", float(r["position_rmse"]) < 1e-6 and float(r["orientation_rmse"]) < 1e-4,
              r["algorithm_name"], r["position_rmse"], r["orientation_rmse"])
      with open(os.path.join(result, "dq_H_E", r["algorithm_name"] + "_pose_pair_0_dq_H_E.txt")) as f:
        lines = rows_of(f.read())
      c.close("stored transform is the true one", ref.dq_to_transform(np.array(lines[0])), x, 1e-5, r["algorithm_name"])


def refused(c):
  rng = c.rng
  d = c.scratch()
  sensors = Sensors(rng, 3, poses=10)
  sensors.write(rng, d)
  env = programs.estimator(d, {"results": sensors.results(rng), "salt": "", "fail": 0.0})
  result = os.path.join(d, "results")
  kind = ["one file", "few flags", "many flags", "missing file", "no result directory"][c.index % 5]
  args = command(sensors, result, rng, [1, 0, 1], 1)
  files = list(sensors.files)
  if kind == "one file":
    args = ["--aligned_poses_B_H_csv_files", files[0], "--result_directory", result]
  elif kind == "few flags":
    args = command(sensors, result, rng, [1, 0], 1)
  elif kind == "many flags":
    args = command(sensors, result, rng, [1, 0, 1, 1], 1)
  elif kind == "missing file":
    args[1] = files[0] + ".missing"
  else:
    args = ["--aligned_poses_B_H_csv_files"] + files
  c.input(kind, c.index)
  c.describe(kind=kind)
  work = os.path.join(d, "work")
  os.makedirs(work)
  status, out, err = programs.run_here(SCRIPT, args, work, env)
  c.check("impossible tasks are refused", status != 0, kind, status)
  rows = []
  if os.path.exists(os.path.join(result, "results.csv")):
    rows = read_results(os.path.join(result, "results.csv"))[1]
  c.check("no result lines when refused", not rows and not programs.estimator_log(env), kind, len(rows))


GROUPS = [
    Group("plumbing", plumbing, 24, 480),
    Group("complete", complete, 4, 24),
    Group("refused", refused, 10, 50)]
REQUIRED = ["line belongs to one solver call", "estimator gets the files of the pair", "failure marked",
            "errors of the estimator's result", "loop error of the transforms", "no loop error claimed",
            "stored transform", "fixed order", "all algorithms succeed", "without initial guess marked as failed"]
