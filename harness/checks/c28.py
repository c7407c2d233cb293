"""C28: the study of perturbed initial guesses."""
import math
import os
import re

import numpy as np

import gen
import programs
import ref
from checks import c26
from core import Group
from hand_eye_calibration_experiments.experiment_results import ResultEntry

PROPERTY = "C28"
LEVEL = "exploration"
WORKERS = 3
CHUNK = 1
ASSUMPTIONS = ["the batch estimator and rosrun are stand-ins",
               "the recordings are free of noise, the unperturbed guess is the true calibration",
               "the evaluation of a single calibration is judged by property C15",
               "the operating system decides which worker runs which experiment"]
SCRIPT = "hand_eye_calibration_experiments/bin/optimization_experiments.py"


def steps(width, count):
  return [(width * k, width * (k + 1)) for k in range(count)]


# Delays in seconds, angles in degrees and lengths in metres of the kinds of study.
OWN = "angle_translation_complete"
KINDS = {OWN: ([(0.0, 0.0)], steps(15.0, 12), steps(0.1, 10)),
         "time_angle": (steps(0.03, 8), steps(15.0, 8), steps(0.1, 1)),
         "time_translation": (steps(0.03, 8), steps(15.0, 1), steps(0.1, 8)),
         "angle_translation": (steps(0.03, 1), steps(15.0, 8), steps(0.1, 8))}


def program(d, kind):
  """The program for a kind of study, which is chosen by a word in it."""
  if kind == OWN:
    return SCRIPT, OWN
  with open(programs.path_of(SCRIPT)) as f:
    text = f.read()
  text, count = re.subn(r"""(?m)^( *plot_type *= *)(['"])%s\2""" % OWN, r'\1"%s"' % kind, text)
  if count != 1:
    # The kind is chosen in another way now: only the usual study is known.
    return SCRIPT, OWN
  path = os.path.join(d, "study.py")
  with open(path, "w") as f:
    f.write(text)
  return path, kind


def inside(value, limits, tol):
  return limits[0] - tol <= value <= limits[1] + tol


def study(c):
  rng = c.rng
  d = c.scratch()
  count = [2, 3][c.index % 2]
  sensors = c26.Sensors(rng, count, axes=[0, 9][c.index // 2 % 2])
  sensors.write(rng, d)
  flags = None if c.index % 4 == 3 else [bool(rng.integers(2)) for _ in range(count)]
  iterations = [2, 1][c.index % 2]
  if c.index % 8 == 4:
    iterations = None
  plan = {"results": sensors.results(rng), "salt": str(c.rng.integers(1 << 30)),
          "fail": [0.1, 0.03, 0.3, 0.0, 1.0][c.index % 5], "delay": float(rng.choice([0.0, 0.05]))}
  env = programs.estimator(d, plan)
  result = os.path.join(d, ["results", "deep/er re/sults"][rng.integers(2)])
  runs = 2 if c.index % 4 == 2 else 1
  c.input(sensors.tables, flags, iterations, plan)
  c.describe(files=sensors.files, flags=flags, iterations=iterations, fail=plan["fail"], runs=runs)
  inputs = {f: open(f, "rb").read() for f in sensors.files}
  work = os.path.join(d, "work")
  os.makedirs(work)
  script, kind = program(d, [OWN, OWN, "time_angle", OWN, "time_translation", OWN, "angle_translation", OWN][
      (c.index + c.index // 8) % 8])
  c.count("study: " + kind)
  before = seen = 0
  for run in range(runs):
    status, out, err = programs.run_child(script, c26.command(sensors, result, rng, flags, iterations), work, env, 600)
    if not c.check("run completes", status == 0, status, err[-800:]):
      return
    header, rows = c26.read_results(os.path.join(result, "results_optimization.csv"))
    c.check("header first", header + "\n" == ResultEntry().get_header(), header)
    log = programs.estimator_log(env)[seen:]
    seen += len(log)
    judge(c, sensors, rows[before:], log, flags, 2 if iterations is None else iterations, plan, kind)
    before = len(rows)
  c.check("input files unchanged", all(open(f, "rb").read() == v for f, v in inputs.items()))


def judge(c, sensors, rows, log, flags, iterations, plan, kind):
  pairs, count = sensors.pairs, len(sensors.files)
  order = [(t, a, s, k, p) for t in KINDS[kind][0] for a in KINDS[kind][1] for s in KINDS[kind][2]
           for k in range(iterations) for p in range(len(pairs))]
  if not c.check("one line per combination, repetition and pair", len(rows) == len(order), len(rows), len(order)):
    return
  if not c.check("one estimator run per line", len(log) == len(order), len(log), len(order)):
    return
  for key in ("init_guess_file", "output_file"):
    c.check("own files for every run", len({v["options"].get(key) for v in log}) == len(log), key)
  c.check("no result of another run in place", not any(v.get("had_output") for v in log))
  taken = {}
  for p, (i, j) in enumerate(pairs):
    mine = [v for v in log if (v["options"].get("pose1_csv"), v["options"].get("pose2_csv")) ==
            (sensors.files[i], sensors.files[j])]
    c.check("every pair equally often", len(mine) == len(order) // len(pairs), len(mine), p)
    taken[p] = (mine, np.array([ref.pose(c26.calibration(v["guess"])[1])[:3] for v in mine]) -
                ref.pose(sensors.truth(i, j)[1])[:3], set())
  drawn = []
  template = {}
  experiments = []
  for n, (r, (times, angles, lengths, k, p)) in enumerate(zip(rows, order)):
    i, j = pairs[p]
    offset, x = sensors.truth(i, j)
    c.check("fixed order", int(r["iteration_num"]) == k and int(r["num_pose_pairs"]) == p and
            (r["poses_B_H_csv_file"], r["poses_W_E_csv_file"]) == (sensors.files[i], sensors.files[j]), n, r)
    moved = np.array(c26.rows_of(r["spoiled_initial_guess_translation_offset"])[0])
    turned = float(r["spoiled_initial_guess_angle_offset"])
    delayed = float(r["spoiled_initial_guess_time_offset"])
    c.check("recorded perturbation within its ranges", inside(np.linalg.norm(moved), lengths, 1e-7) and
            inside(math.degrees(turned), angles, 1e-6) and inside(abs(delayed), times, 1e-9),
            n, np.linalg.norm(moved), lengths, math.degrees(turned), angles, delayed, times)
    mine, offsets, used = taken[p]
    if not len(mine):
      return
    distance = np.linalg.norm(offsets - moved, axis=1)
    best = int(np.argmin(distance))
    if not c.check("recorded perturbation is that of one guess", distance[best] < 1e-5 and best not in used, n,
                   distance[best], best in used):
      return
    used.add(best)
    v = mine[best]
    t, guess = c26.calibration(v["guess"])
    c.close("perturbed by the recorded angle", math.degrees(ref.rot_angle(guess[:3, :3].dot(x[:3, :3].T))),
            math.degrees(turned), 1e-3, n)
    c.close("clock offset of the guess", t, offset + delayed, 1e-6)
    relative = guess[:3, :3].dot(x[:3, :3].T)
    drawn.append(np.concatenate([moved / np.linalg.norm(moved), relative.ravel()]))
    template.setdefault(p, set()).add(tuple(r[f] for f in (
        "success", "num_input_poses", "num_posesafter_filtering", "runtime_s", "singular_values",
        "bad_singular_values", "prefiltering")))
    c.check("marked as optimised", r["optimization_enabled"] == "True" and r["success"] == "True" and
            r["algorithm_name"] == "optimization_w_spoiled_init_calibration", r)
    unused = [v]
    found = c26.judge_optimised(c, sensors, r, [v], unused, i, j, t, flags, plan)
    if p == 0:
      experiments.append(({}, [], []))
    experiments[-1][0][(i, j)] = found
    experiments[-1][1].append(r["optimization_success"] == "True")
    experiments[-1][2].append((float(r["loop_error_position_m"]), float(r["loop_error_orientation_deg"])))
  c26.judge_times(c, rows)
  c.check("all runs of a pair start from the same guess", all(len(v) == 1 for v in template.values()), template)
  # Two runs that share the random numbers share directions, also when their ranges differ.
  drawn = np.array(drawn)
  for part, name in ((slice(0, 3), "translation"), (slice(3, 12), "rotation")):
    some = drawn[:, part]
    closest = min(np.sort(np.linalg.norm(some - v, axis=1))[1] for v in some)
    c.check("different runs draw different perturbations", closest > 1e-6, name, closest)
  for found, good, errors in experiments:
    if all(good):
      want = c26.loop_error(count, found)
      c.check("loop error of the transforms", len(set(errors)) == 1 and abs(errors[0][0] - want[0]) < 1e-8 and
              abs(errors[0][1] - want[1]) < 1e-5, errors, want)
    else:
      c.check("no loop error claimed", set(errors) == {(-1.0, -1.0)}, errors)


def refused(c):
  rng = c.rng
  d = c.scratch()
  sensors = c26.Sensors(rng, 3, poses=10)
  sensors.write(rng, d)
  env = programs.estimator(d, {"results": sensors.results(rng), "salt": "", "fail": 0.0})
  result = os.path.join(d, "results")
  kind = ["one file", "few flags", "many flags", "missing file", "no repetition"][c.index % 5]
  args = c26.command(sensors, result, rng, [1, 0, 1], 1)
  if kind == "one file":
    args = ["--aligned_poses_B_H_csv_files", sensors.files[0], "--result_directory", result]
  elif kind == "few flags":
    args = c26.command(sensors, result, rng, [1, 0], 1)
  elif kind == "many flags":
    args = c26.command(sensors, result, rng, [1, 0, 1, 1], 1)
  elif kind == "missing file":
    args[1] = sensors.files[0] + ".missing"
  else:
    args = c26.command(sensors, result, rng, None, 0)
  c.input(kind, c.index)
  c.describe(kind=kind)
  work = os.path.join(d, "work")
  os.makedirs(work)
  status, out, err = programs.run_child(SCRIPT, args, work, env)
  c.check("impossible tasks are refused", status != 0, kind, status)
  c.check("estimator not started when refused", not programs.estimator_log(env), kind)


GROUPS = [
    Group("study", study, 8, 120),
    Group("refused", refused, 5, 20)]
REQUIRED = ["recorded perturbation is that of one guess", "perturbed by the recorded angle", "failure marked",
            "errors of the estimator's result", "loop error of the transforms", "no loop error claimed",
            "different runs draw different perturbations", "own files for every run", "fixed order",
            "impossible tasks are refused"]
