"""C17: pose files."""
import os

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.csv_io import (
    read_time_stamped_poses_from_csv_file, write_double_numpy_array_to_csv_file,
    write_time_stamped_poses_to_csv_file)

PROPERTY = "C17"
LEVEL = "exploration"
ASSUMPTIONS = ["eight numbers per line, no header, no blank lines"]


def rows(rng, n=None):
  if n is None:
    n = int([1, 2, 3, 10, 80, 80, 1100][rng.integers(7)])
  start = gen.time_origin(rng) + (float(rng.random()) if rng.integers(4) else 0.0)
  steps = 10.0 ** rng.uniform(-4, 1, size=n)
  times = start + np.cumsum(steps) - (steps[0] if rng.integers(2) else 0.0)
  if rng.integers(3) == 0:
    times = np.round(times, 6)
  if rng.integers(6) == 0:
    # Recorders do not always write in order of time.
    times = rng.permutation(times)
  scale = 10.0 ** rng.uniform(-6, 4)
  table = np.column_stack([times, rng.normal(size=(n, 3)) * scale,
                           np.array([gen.quat(rng) for _ in range(n)])])
  if rng.integers(4) == 0 and n > 1:
    # A sensor at rest, or a message that was recorded twice.
    i = int(rng.integers(1, n))
    k = int(rng.integers(1, 4))
    table[i:i + k, 1:] = table[i - 1, 1:]
    if rng.integers(2):
      table[i:i + k, 0] = table[i - 1, 0]
  return table


def judge(c, path, table, jpl, eps_time=1e-17, eps=1e-15):
  content = open(path, "rb").read()
  if jpl is None:
    poses, times, quaternions = read_time_stamped_poses_from_csv_file(path)
  elif c.rng.integers(2):
    poses, times, quaternions = read_time_stamped_poses_from_csv_file(path, jpl)
  else:
    poses, times, quaternions = read_time_stamped_poses_from_csv_file(
        path, JPL_quaternion_format=jpl)
  c.check("file unchanged", open(path, "rb").read() == content)
  c.check("one pose per line", np.shape(poses) == (len(table), 8) and len(times) == len(table)
          and len(quaternions) == len(table), np.shape(poses), len(times), len(quaternions))
  c.close("times", times, table[:, 0], eps_time)
  c.close("times in the table", poses[:, 0], table[:, 0], eps_time)
  c.close("positions", poses[:, 1:4], table[:, 1:4], eps)
  label = "JPL " if jpl else ""
  for row, q, given in zip(poses, quaternions, table):
    want = ref.unit(given[4:8])
    if jpl:
      want = ref.qconj(want)
    c.check(label + "rotation in the table", ref.same_rotation(row[4:8], want) < 1e-12, row[4:8], want)
    c.check(label + "rotation", ref.same_rotation(q.q, want) < 1e-12, q.q, want)
    c.close("unit length", [np.linalg.norm(row[4:8]), np.linalg.norm(q.q)], [1.0, 1.0], 1e-12)
  # Returned values do not share memory.
  before = poses.copy()
  times[0] += 5.0
  quaternions[0].q[:] = 9.0
  c.close("values independent", poses, before, 0.0)


def round_trip(c):
  # Now and then a recording of several minutes.
  table = rows(c.rng, 6000 if c.index % 75 == 40 else None)
  path = os.path.join(c.scratch(), "poses.csv")
  c.input(table)
  c.describe(rows=len(table), first=table[0])
  with c.unchanged("poses unchanged", table):
    write_time_stamped_poses_to_csv_file(table, path)
  lines = open(path).read().strip().split("\n")
  c.check("one line per pose", len(lines) == len(table), len(lines))
  read = np.array([[float(x) for x in l.split(",")] for l in lines])
  c.close("plain numbers", read, table, 1e-15)
  jpl = [None, False, True][c.index % 3]
  judge(c, path, table, jpl)
  # Writing what was read gives the same poses again; a second file is overwritten.
  poses = read_time_stamped_poses_from_csv_file(path)[0]
  write_time_stamped_poses_to_csv_file(poses[:1], path)
  write_time_stamped_poses_to_csv_file(poses, path)
  judge(c, path, poses, jpl)


def foreign(c):
  """Files written by other programs: spacing, notation, quaternion length."""
  rng = c.rng
  table = rows(rng)
  scale = 1.0
  if rng.integers(2):
    scale = 10.0 ** rng.uniform(-3, 3)
  kind = int(rng.integers(3))
  if kind == 0:
    table[:, 4:8] *= scale * rng.uniform(0.5, 2.0, size=(len(table), 1))
  elif kind == 1:
    # Slightly off, by any amount.
    table[:, 4:8] *= 1.0 + 10.0 ** rng.uniform(-9, -1, size=(len(table), 1)) * rng.choice([-1, 1], size=(len(table), 1))
  else:
    # Rounded to a few digits.
    table[:, 4:8] = np.round(table[:, 4:8], int(rng.integers(2, 8)))
  sep = [",", ", ", " , ", ",\t"][rng.integers(4)]
  fmt = ["%.9f", "%.15e", "%.17g", "%r"][rng.integers(4)]
  end = ["\n", "\r\n"][rng.integers(2)]
  text = end.join(sep.join(fmt % float(x) for x in row) for row in table)
  if rng.integers(2):
    text += end
  path = os.path.join(c.scratch(), "foreign poses.csv")
  with open(path, "w", newline="") as f:
    f.write(text)
  c.input(text)
  c.describe(rows=len(table), separator=sep, format=fmt, scale=scale, kind=kind)
  kept = np.array([[float(fmt % float(x)) for x in row] for row in table])
  if np.min(np.linalg.norm(kept[:, 4:8], axis=1)) < 1e-6:
    return
  judge(c, path, kept, [None, False, True][c.index % 3], 0.0, 1e-12)


def both_conventions(c):
  """Reading as JPL gives the inverse rotations of reading as Hamilton."""
  table = rows(c.rng)
  path = os.path.join(c.scratch(), "p.csv")
  write_time_stamped_poses_to_csv_file(table, path)
  c.input(table)
  h, ht, hq = read_time_stamped_poses_from_csv_file(path, False)
  j, jt, jq = read_time_stamped_poses_from_csv_file(path, True)
  c.close("convention keeps stamps and positions", j[:, :4], h[:, :4], 0.0)
  for a, b, x, y in zip(h, j, hq, jq):
    c.close("conventions are inverse", ref.rot(b[4:8]), ref.rot(a[4:8]).T, 1e-12)
    c.close("conventions are inverse", ref.rot(y.q), ref.rot(x.q).T, 1e-12)


def numbers(c):
  """Tables of any shape written as numbers."""
  rng = c.rng
  shape = [(1,), (5,), (1, 1), (3, 2), (6, 9)][rng.integers(5)]
  a = rng.normal(size=shape) * 10.0 ** rng.uniform(-3, 9)
  path = os.path.join(c.scratch(), "n.csv")
  c.input(a)
  with c.unchanged("array unchanged", a):
    write_double_numpy_array_to_csv_file(a, path)
  read = [[float(x) for x in l.split(",")] for l in open(path).read().strip().split("\n")]
  c.close("numbers written", np.array(read).reshape(-1), a.reshape(-1), 1e-15)
  c.check("lines written", len(read) == a.shape[0], len(read))


GROUPS = [
    Group("round trip", round_trip, 150, 3000),
    Group("foreign", foreign, 150, 3000),
    Group("conventions", both_conventions, 60, 1000),
    Group("numbers", numbers, 60, 1000)]
REQUIRED = ["one pose per line", "times", "times in the table", "positions", "rotation",
            "rotation in the table", "JPL rotation", "JPL rotation in the table", "unit length",
            "file unchanged", "conventions are inverse"]
