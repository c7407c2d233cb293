"""C20: experiment results, written and read back."""
import os
import string

import numpy as np

from core import Group
from hand_eye_calibration_experiments import all_algorithm_configs
from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv
from hand_eye_calibration_experiments.experiment_results import ResultEntry

PROPERTY = "C20"
LEVEL = "exploration"
ASSUMPTIONS = ["file names without commas, quotes and comment signs",
               "the data set column is appended to the lines, as the plotting program expects"]
METHODS = {
    "baseline_filter_opt": "PF_B_O", "baseline_no_filter_opt": "B_O",
    "baseline_filter_no_opt": "PF_B", "baseline_no_filter_no_opt": "B",
    "EC_no_opt": "PF_EC", "EC_opt": "PF_EC_O", "ES_no_opt": "PF_ES", "ES_opt": "PF_ES_O",
    "RC_filter_no_opt": "PF_RC", "RC_no_filter_no_opt": "RC", "RC_filter_opt": "PF_RC_O",
    "RC_no_filter_opt": "RC_O", "RS_filter_no_opt": "PF_RS", "RS_no_filter_no_opt": "RS",
    "RS_filter_opt": "PF_RS_O", "RS_no_filter_opt": "RS_O",
    "optimization_w_spoiled_init_calibration": "S_PF_ES_O"}
COLUMNS = ["algorithm_name", "num_pose_pairs", "iteration_num", "prefiltering", "poses_B_H_csv_file",
           "poses_W_E_csv_file", "success", "position_rmse", "orientation_rmse", "num_inliers",
           "num_input_poses", "num_posesafter_filtering", "runtime_s", "loop_error_position_m",
           "loop_error_orientation_deg", "singular_values", "bad_singular_values",
           "optimization_enabled", "optimization_success", "optimization_runtime_s",
           "spoiled_initial_guess_angle_offset", "spoiled_initial_guess_translation_offset",
           "spoiled_initial_guess_time_offset"]
LISTS = ["dataset_names", "success", "rmse", "num_inliers", "num_initial_poses", "num_poses_kept",
         "runtimes", "singular_values", "bad_singular_value", "optimization_success",
         "optimization_runtime", "spoiled_initial_guess_angle_offset",
         "spoiled_initial_guess_translation_offset", "spoiled_initial_guess_time_offset"]


def word(rng, n):
  letters = string.ascii_letters + string.digits + "_-./ "
  return "d" + "".join(letters[int(i)] for i in rng.integers(0, len(letters), size=n)).strip() + ".csv"


def value(rng, low=-6, high=3):
  return float(10.0 ** rng.uniform(low, high))


def configs():
  return all_algorithm_configs.get_all_configs() + [
      all_algorithm_configs.get_optimization_with_spoiled_initial_calibration_config()]


def entry(rng, pairs, config, spoiled):
  """A result entry as the experiment programs fill it, and the expected columns."""
  name, alignment, hand_eye, optimization = config
  e = ResultEntry()
  iteration = int(rng.integers(0, 50))
  e.init_from_configs(name, iteration, alignment, hand_eye, optimization)
  # As in the programs: there is a loop error if all pairs were calibrated.
  all_good = bool(rng.integers(2))
  if all_good:
    e.loop_error_position, e.loop_error_orientation = value(rng), value(rng)
    if rng.integers(3) == 0:
      e.loop_error_position = np.float64(e.loop_error_position)
    if rng.integers(8) == 0:
      e.loop_error_position = e.loop_error_orientation = 0.0
  rows = []
  for i in range(pairs):
    state = ["good", "good", "good", "bad singular", "failed", "failed optimisation"][
        rng.integers(4 if all_good else 6)]
    names = (word(rng, int(rng.integers(1, 70))), word(rng, int(rng.integers(1, 70))))
    n = int(rng.integers(3, 3000))
    kept = int(rng.integers(0, n + 1))
    if state == "failed":
      # Both kinds of failure reports.
      if rng.integers(2):
        rmse, inliers, bad = (None, None), None, None
      else:
        rmse, inliers, bad = (np.inf, np.inf), 0, True
      singular = None
      success = False
    else:
      rmse, inliers = (value(rng), value(rng)), int(rng.integers(0, kept + 1))
      singular = np.sort(10.0 ** rng.uniform(-6, 2, size=8))[::-1]
      bad = bool(state == "bad singular")
      success = True
    opt_ok = True
    if optimization.enable_optimization and (not success or state == "failed optimisation"):
      opt_ok, rmse, inliers = False, (-1, -1), 0
    opt_time = value(rng, -3, 4) if optimization.enable_optimization else 0.0
    if spoiled:
      t = rng.normal(size=3) * value(rng, -4, 1)
      if rng.integers(4) == 0:
        t[rng.integers(3)] = 0.0
      offsets = (value(rng, -4, 0.5), t, value(rng, -4, 0) * rng.choice([-1, 1]))
      if rng.integers(5) == 0:
        # A study of some perturbations only.
        offsets = tuple(None if rng.integers(2) else v for v in offsets)
    else:
      offsets = (None, None, None)
    if i and rng.integers(5) == 0 and rows[-1]["success"] and success:
      # Equal results happen, e.g. with rounded times.
      rmse, runtime = (rows[-1]["position_rmse"], rows[-1]["orientation_rmse"]), rows[-1]["runtime_s"]
      if optimization.enable_optimization:
        opt_time = rows[-1]["optimization_runtime_s"]
        opt_ok, inliers = rows[-1]["optimization_success"], rows[-1]["num_inliers"]
    else:
      runtime = value(rng, -3, 3)
    e.dataset_names.append(names)
    e.success.append(success)
    e.rmse.append(rmse)
    e.num_inliers.append(inliers)
    e.num_initial_poses.append(n)
    e.num_poses_kept.append(kept)
    e.runtimes.append(runtime)
    e.singular_values.append(singular)
    e.bad_singular_value.append(bad)
    e.optimization_success.append(opt_ok)
    e.optimization_runtime.append(opt_time)
    e.spoiled_initial_guess_angle_offset.append(offsets[0])
    e.spoiled_initial_guess_translation_offset.append(offsets[1])
    e.spoiled_initial_guess_time_offset.append(offsets[2])
    rows.append(dict(zip(COLUMNS, [
        name, i, iteration, hand_eye.prefilter_poses_enabled, names[0], names[1], success, rmse[0],
        rmse[1], inliers, n, kept, runtime, e.loop_error_position, e.loop_error_orientation,
        singular, bad, optimization.enable_optimization, opt_ok, opt_time, offsets[0], offsets[1],
        offsets[2]])))
  return e, rows


def same(text, expected):
  text = text.strip()
  if expected is None:
    return text in ("", "None")
  if isinstance(expected, (bool, np.bool_)):
    return text == str(bool(expected))
  if isinstance(expected, str):
    return text == expected.strip()
  if isinstance(expected, np.ndarray):
    if not (text.startswith("[") and text.endswith("]")):
      return False
    found = np.array([float(x) for x in text[1:-1].split()])
    return found.shape == expected.shape and np.max(np.abs(found - expected)) <= 1e-7 * max(
        1.0, np.max(np.abs(expected)))
  if isinstance(expected, int):
    return text == str(expected)
  return abs(float(text) - expected) <= 1e-9 * abs(expected) if np.isfinite(expected) else \
      float(text) == expected


def spoil(rng, config):
  return config[3].optimization_only or rng.integers(4) == 0


def written(c):
  rng = c.rng
  config = configs()[c.index % 17]
  pairs = int([1, 3, 6, 10][rng.integers(4)])
  e, rows = entry(rng, pairs, config, spoil(rng, config))
  c.input(rows)
  c.describe(algorithm=config[0], pairs=pairs, first=str(rows[0]))
  header = e.get_header()
  c.check("header ends the line", header.endswith("\n") and header.count("\n") == 1)
  columns = [x.strip() for x in header.strip().split(",")]
  c.check("header columns", columns == COLUMNS, columns)
  e.check_length(pairs)
  for i in rng.permutation(pairs):
    i = int(i)
    line = e.write_pose_pair_to_csv_line(i)
    c.check("one line", line.endswith("\n") and line.count("\n") == 1, line)
    cells = line[:-1].split(",")
    c.check("one cell per column", len(cells) == len(columns), line)
    if len(cells) != len(columns):
      continue
    for column, cell in zip(columns, cells):
      c.check("value under its header", same(cell, rows[i][column]), column, cell, rows[i][column])


def refused(c):
  """Any list that is too short or too long is noticed."""
  rng = c.rng
  config = configs()[int(rng.integers(17))]
  pairs = int(rng.integers(1, 7))
  e, rows = entry(rng, pairs, config, spoil(rng, config))
  which = LISTS[c.index % len(LISTS)]
  values = getattr(e, which)
  c.input(which, rows)
  if (c.index // len(LISTS)) % 2:
    values.append(values[0])
    change = "one more"
  else:
    values.pop(int(rng.integers(len(values))))
    change = "one less"
  c.describe(list=which, change=change, pairs=pairs)
  c.raises("inconsistent number refused", (AssertionError, ValueError, IndexError), e.check_length, pairs)


def independent(c):
  """Two entries do not share their lists."""
  rng = c.rng
  config = configs()[int(rng.integers(17))]
  a, _ = entry(rng, 2, config, False)
  c.input(a.dataset_names)
  b = ResultEntry()
  for name in LISTS:
    c.check("entries start empty", len(getattr(b, name)) == 0, name)
  c.check("no loop error claimed", b.loop_error_position == -1 and b.loop_error_orientation == -1)


def number(x):
  return 0.0 if x is None else float(x)


def read_back(c):
  rng = c.rng
  d = c.scratch()
  files, expected = [], []
  sets = ["set %d" % k if rng.integers(2) else "ds%d" % k for k in range(int(rng.integers(1, 4)))]
  if rng.integers(3) == 0:
    # Long names that differ in the last letter only.
    length = int(rng.integers(10, 50))
    sets = ["x" * length + letter for letter in "abc"[:len(sets)]]
  elif rng.integers(3) == 0:
    sets = ["Vicon run", "vicon run", "VICON_run"][:len(sets)]
  all_configs = configs()
  some = [all_configs[int(i)] for i in rng.choice(17, size=int(rng.integers(1, 6)), replace=False)]
  # Now and then many results of few methods, or all methods in one data set.
  large = ["many rows", "all methods"][int(rng.integers(2))] if rng.integers(12) == 0 else None
  if large == "many rows":
    some = some[:1 + int(rng.integers(2))]
  elif large == "all methods":
    some, sets = all_configs, sets[:1 + int(rng.integers(2))]
  for k in range(1 if large else int([1, 1, 2, 3, 6][rng.integers(5)])):
    path = os.path.join(d, "results %d.csv" % k)
    with open(path, "w") as f:
      count = 60 if large else int([1, 2, 6][rng.integers(3)])
      for j in range(count):
        config = some[j % len(some) if large else int(rng.integers(len(some)))]
        pairs = 10 if large == "many rows" else 1 if count == 1 and rng.integers(2) else int(rng.integers(1, 7))
        e, rows = entry(rng, pairs, config, spoil(rng, config))
        if j == 0:
          f.write(e.get_header().rstrip("\n") + ",dataset\n")
        for i in range(pairs):
          dataset = sets[int(rng.integers(len(sets)))]
          f.write(e.write_pose_pair_to_csv_line(i).rstrip("\n") + "," + dataset + "\n")
          expected.append((dataset, rows[i]))
    files.append(path)
  c.input(expected)
  c.describe(files=len(files), rows=len(expected), methods=[s[0] for s in some], sets=sets)
  before = [open(p, "rb").read() for p in files]
  (methods, datasets, position_by, orientation_by, positions, orientations, runtimes, runtimes_by,
   spoiled) = collect_data_from_csv(files)
  c.check("result files unchanged", [open(p, "rb").read() for p in files] == before)
  good = [(s, r) for s, r in expected
          if r["success"] and not r["bad_singular_values"] and r["optimization_success"]]
  c.count("rows left out", len(expected) - len(good))
  names = []
  for s, r in good:
    if METHODS[r["algorithm_name"]] not in names:
      names.append(METHODS[r["algorithm_name"]])
  c.check("methods", sorted(methods) == sorted(names), methods, names)
  c.check("data sets", sorted(datasets) == sorted(set(s for s, _ in good)), datasets)
  total = lambda r: number(r["runtime_s"]) + number(r["optimization_runtime_s"])
  for monitor, by, flat, get in (
      ("position errors", position_by, positions, lambda r: r["position_rmse"]),
      ("orientation errors", orientation_by, orientations, lambda r: r["orientation_rmse"]),
      ("run times", runtimes_by, runtimes, total)):
    want = {}
    for s, r in good:
      want.setdefault(s, {}).setdefault(METHODS[r["algorithm_name"]], []).append(get(r))
    c.check(monitor + " grouped", {s: sorted(by[s]) for s in by} == {s: sorted(want[s]) for s in want},
            list(by), list(want))
    for s in want:
      for m in want[s]:
        c.close(monitor, by[s][m], want[s][m], 1e-9 * max(want[s][m]))
    c.check(monitor + " per method", len(flat) == len(methods), len(flat), len(methods))
    for m, values in zip(methods, flat):
      all_of_method = [get(r) for _, r in good if METHODS[r["algorithm_name"]] == m]
      c.close(monitor + " per method", values, all_of_method, 1e-9 * max(all_of_method))
  closed = [r for _, r in good if r["loop_error_position_m"] >= 0]
  c.check("perturbation columns", len(spoiled) == 5 and all(len(x) == len(closed) for x in spoiled),
          [len(x) for x in spoiled], len(closed))
  c.count("rows without loop error left out", len(good) - len(closed))
  for k, (column, values, tol) in enumerate((
      ("loop error position", [r["loop_error_position_m"] for r in closed], 0.0),
      ("loop error orientation", [r["loop_error_orientation_deg"] for r in closed], 0.0),
      ("perturbation angle", [number(r["spoiled_initial_guess_angle_offset"]) for r in closed], 0.0),
      ("perturbation length", [
          0.0 if r["spoiled_initial_guess_translation_offset"] is None else
          float(np.linalg.norm(r["spoiled_initial_guess_translation_offset"])) for r in closed], 1e-7),
      ("perturbation time", [number(r["spoiled_initial_guess_time_offset"]) for r in closed], 0.0))):
    c.close(column, np.asarray(spoiled[k], dtype=float), np.asarray(values, dtype=float),
            tol * (1 + max([abs(v) for v in values] + [0.0])) + 1e-12)


GROUPS = [
    Group("written", written, 170, 3400),
    Group("refused", refused, 84, 840),
    Group("independent", independent, 10, 50),
    Group("read back", read_back, 200, 4000)]
REQUIRED = ["value under its header", "header columns", "inconsistent number refused",
            "position errors", "orientation errors", "run times", "perturbation length",
            "perturbation angle", "perturbation time", "loop error position"]
