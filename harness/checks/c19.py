"""C19: the alignment and calibration programs on files."""
import json
import os
import subprocess

import numpy as np

import gen
import programs
import ref
import solve
from checks import c06
from checks import c07
from checks import c08
from core import Group

PROPERTY = "C19"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["both recordings contain the whole informative motion",
               "programs run in this process through runpy, some as child processes",
               "rosrun and the batch estimator are stand-ins"]
ALIGN = "hand_eye_calibration/bin/compute_aligned_poses.py"
CALIBRATE = "hand_eye_calibration/bin/compute_hand_eye_calibration.py"
COMPLETE = "hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh"


def start(c, name, args, cwd):
  if c.index % 12 == 5:
    c.count("child processes")
    return programs.run_child(name, args, cwd)
  return programs.run_here(name, args, cwd)


def recordings(rng):
  """Two sensors on one body: tables, true offset, mounting, step."""
  length = float(rng.uniform(12, 18))
  body = c08.Bursts(rng, length)
  place = gen.Smooth(rng, reach=0.5, speed=0.2)
  dt_a, dt_b = [float(x) for x in rng.choice([0.01, 0.0125, 0.02], size=2)]
  offset = float(rng.uniform(-20, 20))
  ta = np.arange(rng.uniform(-1, 0.2), length + rng.uniform(0, 1), dt_a)
  tb = np.arange(rng.uniform(-1, 0.2), length + rng.uniform(0, 1), dt_b)
  if rng.integers(5) == 0:
    # Both sensors recorded at the same instants by one clock.
    dt_b, offset, tb = dt_a, 0.0, ta
  elif rng.integers(5) == 0:
    # One clock counts from the start of the system.
    offset += float(rng.choice([-1478163000.0, 1478163000.0]))
  x, base = gen.mild_motion(rng, 0.4), gen.mild_motion(rng, 2.0)

  def where(t):
    m = place(t)
    m[:3, :3] = ref.rot(body(t))
    return m

  a = gen.table(ta, [where(t) for t in ta], rng)
  b = gen.table(tb, [base.dot(where(t)).dot(x) for t in tb], rng)
  origin = float(rng.choice([0.0, 50.0, 1478163000.0]))
  a[:, 0] += origin - offset
  b[:, 0] += origin
  return a, b, offset, x, max(dt_a, dt_b)


def jpl(table):
  out = table.copy()
  out[:, 4:7] *= -1.0
  return out


def align(c):
  rng = c.rng
  a, b, offset, x, dt = recordings(rng)
  form = ["Hamilton", "JPL", None][c.index % 3]
  d = c.scratch()
  names = {k: os.path.join(d, v) for k, v in (
      ("a", "hand poses.csv"), ("b", "eye.csv"), ("oa", "aligned_hand.csv"), ("ob", "aligned_eye.csv"),
      ("t", "offset.csv"))}
  programs.write_table(names["a"], jpl(a) if form == "JPL" else a, [", ", ","][rng.integers(2)])
  programs.write_table(names["b"], jpl(b) if form == "JPL" else b)
  args = ["--poses_B_H_csv_file", names["a"], "--poses_W_E_csv_file", names["b"],
          "--aligned_poses_B_H_csv_file", names["oa"], "--aligned_poses_W_E_csv_file", names["ob"]]
  want_offset = c.index % 4 != 3
  if want_offset:
    args += ["--time_offset_output_csv_file", names["t"]]
  if form:
    args += ["--quaternion_format", form]
  if c.index % 5 == 2:
    args += ["--visualize", "True"]
  elif c.index % 5 == 3:
    args += ["--visualize=0"]
  c.input(a, b, form)
  c.describe(rows=[len(a), len(b)], offset=offset, format=form, args=args[8:])
  before = programs.listing(d)
  status, out, err = start(c, ALIGN, args, d)
  c.check("alignment succeeds", status == 0, status, err[-500:])
  after = programs.listing(d)
  c.check("input files unchanged", all(after.get(k) == v for k, v in before.items()))
  expected = set(before) | {"aligned_hand.csv", "aligned_eye.csv"} | ({"offset.csv"} if want_offset else set())
  c.check("only the requested files written", set(after) == expected, sorted(after), sorted(expected))
  if status != 0:
    return
  if "True" in args:
    # Plots are for looking at only.
    again = programs.run_here(ALIGN, args[:args.index("--visualize")], d)
    now = programs.listing(d)
    if c.check("same files without plots", again[0] == 0 and set(now) == set(after), again[2][-300:]):
      for name in sorted(set(now) - set(before)):
        c.close("same values without plots", *[[float(v) for v in t[name].decode().replace(",", " ").split()]
                                               for t in (now, after)], 1e-9)
  oa, ob = np.array(programs.read_table(names["oa"])), np.array(programs.read_table(names["ob"]))
  if want_offset:
    found = programs.read_table(names["t"])
    c.check("one offset", np.shape(found) == (1, 1), found)
    found = found[0][0]
    c.check("offset is the true one", abs(found - offset) <= 2 * dt, found, offset, dt)
  else:
    # The offset is the one that makes the first recording match.
    found = None
  c.check("aligned files match", oa.shape == ob.shape and oa.ndim == 2 and oa.shape[1] == 8 and
          np.array_equal(oa[:, 0], ob[:, 0]), oa.shape, ob.shape)
  c.check("pairs found", len(oa) > 0.5 * min(len(a), len(b)), len(oa), len(a), len(b))
  c.check("increasing", np.all(np.diff(oa[:, 0]) > 0))
  unix = max(np.max(np.abs(a[:, 0])), np.max(np.abs(b[:, 0]))) > 1e6
  for row in ob[::7]:
    t = row[0]
    # Files hold stamps with a limited number of decimals.
    if not c.check("stamps inside the recording", b[0, 0] - 1e-12 <= t <= b[-1, 0] + 1e-12, t, b[0, 0], b[-1, 0]):
      continue
    t = min(max(t, b[0, 0]), b[-1, 0])
    p, q = c06.expected(b, t)
    c.close("second poses", row[1:4], p, 1e-7)
    c.check("second rotations", ref.same_rotation(row[4:8], q) < 1e-6, row, q)
  if found is not None:
    shifted = a.copy()
    shifted[:, 0] += found
    for row in oa[::7]:
      t = min(max(row[0], shifted[0, 0]), shifted[-1, 0])
      p, q = c06.expected(shifted, t)
      c.close("first poses", row[1:4], p, 1e-5 if unix else 1e-7)
      c.check("first rotations", ref.same_rotation(row[4:8], q) < (2e-5 if unix else 1e-6), row, q)
    start_t = max(shifted[0, 0], b[0, 0])
    options = [c07.side(shifted[:, 0], b[:, 0], start_t), c07.side(b[:, 0], shifted[:, 0], start_t)]
    used = oa[:, 0]
    c.check("every eligible stamp", any(
        all(np.min(np.abs(used - t)) < 1e-6 for t in sorted(must)[::5]) for must, _ in options))


def pose_rows(times, mats, rng, invert):
  return gen.table(times, [ref.inv(m) if invert else m for m in mats], rng)


def judge_calibration(c, d, x, offset, csv_name, json_name, tol):
  if csv_name:
    e = np.array(programs.read_table(os.path.join(d, csv_name))).ravel()
    c.check("extrinsics layout", e.shape == (7,), e)
    c.close("extrinsics file", ref.transform(e), x, tol)
    c.close("extrinsics unit rotation", np.linalg.norm(e[3:]), 1.0, 1e-9)
  if json_name:
    data = json.load(open(os.path.join(d, json_name)))
    q = [data["rotation"][k] for k in "ijkw"]
    t = [data["translation"][k] for k in "xyz"]
    c.close("calibration file", ref.transform(t + q), x, tol)
    c.close("calibration unit rotation", np.linalg.norm(q), 1.0, 1e-9)
    c.close("calibration delay", data["delay"], offset, 1e-12 * (1 + abs(offset)))
    if csv_name:
      c.close("files agree", ref.transform(t + q), ref.transform(e), 1e-9)


def problem(rng, n):
  """Exact pairs from which the program's variant can find the mounting."""
  while True:
    kind = ["random", "smooth", "pauses", "large"][rng.integers(4)]
    mats = solve.trajectory(rng, kind, n)
    x = solve.mounting(rng, solve.MOUNTINGS[rng.integers(len(solve.MOUNTINGS))])
    base = solve.base(rng)
    second = [base.dot(m).dot(x) for m in mats]
    if min(solve.conditioning(mats, second, k) for k in range(0, n, 4)) > 0.8:
      return mats, second, x


def calibrate(c):
  rng = c.rng
  n = int(rng.integers(14, 26))
  mats, second, x = problem(rng, n)
  times = gen.stamps(rng, n, 0.1, 0.2, gen.time_origin(rng))
  invert_a, invert_b = bool(c.index & 1), bool(c.index & 2)
  d = c.scratch()
  # Rotations need not have unit length in the file.
  ta, tb = pose_rows(times, mats, rng, invert_a), pose_rows(times, second, rng, invert_b)
  if rng.integers(2):
    ta[:, 4:8] *= 10.0 ** rng.uniform(-0.5, 0.5, size=(n, 1))
  programs.write_table(os.path.join(d, "a.csv"), ta)
  programs.write_table(os.path.join(d, "b.csv"), tb)
  offset = float(rng.uniform(-30, 30)) if rng.integers(5) else [0.0, 1e-9][rng.integers(2)]
  args = ["--aligned_poses_%s_csv_file" % ("H_B" if invert_a else "B_H"), "a.csv",
          "--aligned_poses_%s_csv_file" % ("E_W" if invert_b else "W_E"), "b.csv"]
  kind = (c.index // 4) % 4
  csv_name = "x.csv" if kind in (0, 2) else None
  json_name = "c.json" if kind in (0, 1) else None
  if json_name or kind == 3:
    programs.write_table(os.path.join(d, "t.csv"), [[offset]])
    args += ["--time_offset_input_csv_file", "t.csv"]
  if csv_name:
    args += ["--extrinsics_output_csv_file", csv_name]
  if json_name:
    args += ["--calibration_output_json_file", json_name]
  plots = c.index % 7 == 3
  if plots:
    args += ["--visualize", "true", "--plot_every_nth_pose", "3"]
  c.input(ta, tb, args)
  c.describe(pairs=n, args=args, x=ref.pose(x))
  before = programs.listing(d)
  status, out, err = start(c, CALIBRATE, args, d)
  after = programs.listing(d)
  c.check("calibration succeeds", status == 0, status, err[-500:])
  c.check("input files unchanged", all(after.get(k) == v for k, v in before.items()))
  expected = set(before) | {f for f in (csv_name, json_name) if f}
  c.check("only the requested files written", set(after) == expected, sorted(after), sorted(expected))
  if status == 0 and set(after) == expected:
    size = 1 + max(np.max(np.abs(m)) for m in mats + second + [x])
    judge_calibration(c, d, x, offset, csv_name, json_name, 3e-8 * size * size)


def refused(c):
  """Contradictory, missing and broken inputs."""
  rng = c.rng
  d = c.scratch()
  n = 12
  mats, second, x = problem(rng, n)
  times = gen.stamps(rng, n, 0.1)
  programs.write_table(os.path.join(d, "a.csv"), gen.table(times, mats))
  programs.write_table(os.path.join(d, "b.csv"), gen.table(times, second))
  programs.write_table(os.path.join(d, "short.csv"), gen.table(times[:-1], second[:-1]))
  programs.write_table(os.path.join(d, "t.csv"), [[0.5]])
  with open(os.path.join(d, "text.csv"), "w") as f:
    f.write("t, x, y, z, qx, qy, qz, qw\n1, 2, 3, 4, 5, 6, 7, word\n")
  ok_a = ["--aligned_poses_B_H_csv_file", "a.csv"]
  ok_b = ["--aligned_poses_W_E_csv_file", "b.csv"]
  outs = ["--extrinsics_output_csv_file", "x.csv"]
  full = outs + ["--time_offset_input_csv_file", "t.csv", "--calibration_output_json_file", "c.json"]
  two = ["--aligned_poses_B_H_csv_file", "oa.csv", "--aligned_poses_W_E_csv_file", "ob.csv"]
  cases = [
      ("no first poses", CALIBRATE, ok_b + full),
      ("no second poses", CALIBRATE, ok_a + full),
      ("first poses twice", CALIBRATE, ok_a + ["--aligned_poses_H_B_csv_file", "a.csv"] + ok_b + full),
      ("second poses twice", CALIBRATE, ok_a + ok_b + ["--aligned_poses_E_W_csv_file", "b.csv"] + full),
      ("calibration without offset", CALIBRATE, ok_a + ok_b + outs + ["--calibration_output_json_file", "c.json"]),
      ("different lengths", CALIBRATE, ok_a + ["--aligned_poses_W_E_csv_file", "short.csv"] + full),
      ("missing file", CALIBRATE, ok_a + ["--aligned_poses_W_E_csv_file", "none.csv"] + full),
      ("not numbers", CALIBRATE, ok_a + ["--aligned_poses_W_E_csv_file", "text.csv"] + full),
      ("unclear switch", CALIBRATE, ok_a + ok_b + full + ["--visualize", "maybe"]),
      ("nothing", CALIBRATE, []),
      ("no inputs", ALIGN, two),
      ("no outputs", ALIGN, ["--poses_B_H_csv_file", "a.csv", "--poses_W_E_csv_file", "b.csv"]),
      ("missing recording", ALIGN, ["--poses_B_H_csv_file", "a.csv", "--poses_W_E_csv_file", "none.csv"] + two),
      ("not numbers", ALIGN, ["--poses_B_H_csv_file", "text.csv", "--poses_W_E_csv_file", "b.csv"] + two),
      ("unknown convention", ALIGN, ["--poses_B_H_csv_file", "a.csv", "--poses_W_E_csv_file", "b.csv"] + two +
       ["--quaternion_format", "Shuster"])]
  name, program, args = cases[c.index % len(cases)]
  c.input(name, program, mats)
  c.describe(kind=name, program=os.path.basename(program), args=args)
  before = programs.listing(d)
  status, out, err = programs.run_here(program, args, d)
  c.check("refused with an exit status", status != 0, name, args)
  c.check("nothing written when refused", programs.listing(d) == before, sorted(programs.listing(d)))


def unsolvable(c):
  """Without a solution nothing is written."""
  rng = c.rng
  d = c.scratch()
  n = int(rng.integers(12, 20))
  mats = solve.trajectory(rng, "random", n)
  kind = ["inconsistent", "few"][c.index % 2]
  second = solve.trajectory(rng, "random", n)
  if kind == "few":
    n = int(rng.integers(4, 9))
    base, x = gen.mild_motion(rng), gen.mild_motion(rng)
    mats = mats[:n]
    second = [base.dot(m).dot(x) for m in mats]
  times = gen.stamps(rng, n, 0.1)
  programs.write_table(os.path.join(d, "a.csv"), gen.table(times, mats))
  programs.write_table(os.path.join(d, "b.csv"), gen.table(times, second))
  programs.write_table(os.path.join(d, "t.csv"), [[0.5]])
  if rng.integers(2):
    for name in ("x.csv", "c.json"):
      with open(os.path.join(d, name), "w") as f:
        f.write("earlier result")
  c.input(mats, second)
  c.describe(kind=kind, pairs=n)
  before = programs.listing(d)
  status, out, err = programs.run_here(CALIBRATE, [
      "--aligned_poses_B_H_csv_file", "a.csv", "--aligned_poses_W_E_csv_file", "b.csv",
      "--extrinsics_output_csv_file", "x.csv", "--time_offset_input_csv_file", "t.csv",
      "--calibration_output_json_file", "c.json"], d)
  c.check("no calibration without a solution", programs.listing(d) == before, kind, sorted(programs.listing(d)))


def shell(name, args, cwd, env):
  p = subprocess.run(["bash", programs.path_of(name)] + args, cwd=cwd, env=dict(os.environ, **env),
                     stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
  return p.returncode, p.stdout.decode(errors="replace")


def complete(c):
  """The complete pipeline: two recordings in, calibration out."""
  rng = c.rng
  a, b, offset, x, dt = recordings(rng)
  d = c.scratch()
  data, work = os.path.join(d, "the data"), os.path.join(d, "work here")
  os.mkdir(data)
  os.mkdir(work)
  programs.write_table(os.path.join(data, "hand.csv"), a)
  programs.write_table(os.path.join(data, "eye.csv"), b)
  env = programs.rosrun(d, start=True)
  c.input(a, b)
  c.describe(offset=offset, x=ref.pose(x), rows=[len(a), len(b)])
  status, text = shell(COMPLETE, [os.path.join(data, "hand.csv"), os.path.join(data, "eye.csv")], work, env)
  c.check("pipeline succeeds", status == 0, text[-500:])
  calls = programs.calls(env)
  c.check("three programs in order", [k[:2] for k in calls] == [
      ["hand_eye_calibration", "compute_aligned_poses.py"],
      ["hand_eye_calibration", "compute_hand_eye_calibration.py"],
      ["hand_eye_calibration_batch_estimation", "batch_estimator"]], calls)
  c.check("inputs kept", np.array_equal(programs.read_table(os.path.join(data, "hand.csv")), a) and
          np.array_equal(programs.read_table(os.path.join(data, "eye.csv")), b))
  c.check("aligned files", sorted(os.listdir(data)) == ["aligned_eye.csv", "aligned_hand.csv", "eye.csv", "hand.csv"],
          sorted(os.listdir(data)))
  result = json.load(open(os.path.join(work, "calibration.json")))
  found = ref.transform([result["translation"][k] for k in "xyz"] + [result["rotation"][k] for k in "ijkw"])
  e_p, e_o = ref.pose_error(found, x)
  c.check("pipeline offset", abs(result["delay"] - offset) <= 2 * dt, result["delay"], offset)
  c.check("pipeline transform", e_p < 0.05 and e_o < 4.0, "position", e_p, "angle", e_o)
  last = programs.options(calls[-1][2:])
  for key, value in (("pose1_csv", os.path.join(data, "hand.csv")), ("pose2_csv", os.path.join(data, "eye.csv")),
                     ("init_guess_file", "calibration.json"), ("output_file", "calibration_optimized.json")):
    c.check("estimator inputs", last.get(key) == value, last)


def stopped(c):
  """A step of the pipeline that fails ends it."""
  rng = c.rng
  d = c.scratch()
  kind = ["no first", "no second", "estimator"][c.index % 3]
  if kind == "estimator":
    a, b, _, _, _ = recordings(rng)
  else:
    times = np.arange(0.0, 2.0, 0.02)
    a = b = gen.table(times, [gen.mild_motion(rng) for _ in times])
  names = [os.path.join(d, "hand.csv"), os.path.join(d, "eye.csv")]
  env = programs.rosrun(d, fail=["all"], start=True)
  for k, (name, table) in enumerate(zip(names, (a, b))):
    if kind != ["no first", "no second"][k]:
      programs.write_table(name, table)
    if rng.integers(2) and kind != "estimator":
      # Left over from an earlier run.
      mats = solve.trajectory(rng, "random", 20)
      programs.write_table(os.path.join(d, "aligned_" + os.path.basename(name)),
                           gen.table(np.arange(20.0), mats))
  if kind != "estimator":
    programs.write_table(os.path.join(d, "time_offset.csv"), [[0.25]])
  c.input(kind, a, b)
  c.describe(kind=kind)
  before = programs.listing(d)
  status, text = shell(COMPLETE, names, d, env)
  c.check("failed pipeline reported", status != 0, kind, text[-300:])
  if kind != "estimator":
    c.check("pipeline stops", [k[1] for k in programs.calls(env)] == ["compute_aligned_poses.py"],
            programs.calls(env))
    c.check("nothing calibrated", "calibration.json" not in programs.listing(d))
    c.check("inputs kept", all(programs.listing(d)[k] == v for k, v in before.items()
                               if not k.startswith("tools/")))


GROUPS = [
    Group("align", align, 18, 400),
    Group("calibrate", calibrate, 64, 1500),
    Group("refused", refused, 30, 150),
    Group("unsolvable", unsolvable, 10, 200),
    Group("complete", complete, 4, 80),
    Group("stopped", stopped, 6, 60)]
REQUIRED = ["alignment succeeds", "offset is the true one", "first poses", "second poses",
            "calibration succeeds", "extrinsics file", "calibration file", "calibration delay",
            "refused with an exit status", "no calibration without a solution", "pipeline transform",
            "pipeline stops", "failed pipeline reported",
            "input files unchanged"]
