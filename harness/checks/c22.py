"""C22: transforms exported from a recording."""
import json
import os

import numpy as np

import gen
import programs
import ref
import rosbag
import rospy
import tf
from core import Group
from hand_eye_calibration.csv_io import read_time_stamped_poses_from_csv_file

PROPERTY = "C22"
LEVEL = "exploration"
ASSUMPTIONS = ["rosbag, rospy, tf and tf2_msgs are stand-ins: recordings are JSON files, transforms are "
               "looked up in a tree of frames with interpolation",
               "stamps are equal or at least 0.1 ms apart"]
TOOL = "hand_eye_calibration/bin/tf_to_csv.py"
TREES = [
    # frame -> parent
    {"arm": "base"},
    {"tool": "arm", "arm": "base"},
    {"tool": "arm", "arm": "base", "camera": "base"},
    {"tool": "arm", "arm": "base", "other": "elsewhere"},
    {"/world/arm": "world"},
    # One name begins or ends like the other.
    {"camera": "world", "camera_left": "world", "left": "world"},
    {"arm": "arm_base", "arm_tool": "arm"}]


def pose_list(rng, scale):
  t = [float(x) for x in rng.normal(size=3) * scale]
  q = gen.sign(rng) * gen.quat(rng)
  return t, [float(x) for x in q]


def history(rng):
  """A recording, and the frames to export."""
  tree = TREES[rng.integers(len(TREES))]
  frames = sorted(tree)
  names = sorted(set(frames) | set(tree.values()))
  start = int(rng.choice([0, 1, 12, 1478163000])) * 1000000000 + int(rng.integers(1, 999999999))
  n = int([0, 1, 2, 3, 5, 8, 20, 40, 60, 150][rng.integers(10)])
  # Recordings of up to half an hour, well within the hour that the export keeps.
  slow = int(rng.integers(1, 1000)) if rng.integers(4) == 0 else 1
  scale = 10.0 ** rng.uniform(-6, 3)
  messages, stamp = [], start
  # Each frame is published during a part of the time.
  part = {f: sorted(rng.random(2)) if rng.integers(3) == 0 else [0.0, 1.0] for f in frames}
  repeat = rng.integers(3) == 0
  # A frame may be put down elsewhere for some time, then it is not connected.
  loose = frames[rng.integers(len(frames))] if rng.integers(2) else None
  connected = True
  for i in range(n):
    kind = int(rng.integers(20))
    if kind == 0:
      messages.append([["/image", "/tf_static", "/odom"][rng.integers(3)], stamp, None])
    elif kind == 1:
      messages.append(["/tf", stamp, []])
    elif kind == 2:
      # The same frame on another topic is not exported.
      f = frames[rng.integers(len(frames))]
      messages.append(["/tf_old", stamp, [[tree[f], f, stamp, *pose_list(rng, scale)]]])
    transforms = []
    for f in [frames[int(j)] for j in rng.permutation(len(frames))]:
      if not part[f][0] <= i / max(n - 1, 1) <= part[f][1]:
        continue
      late = int(rng.integers(0, 3)) * 100000 if rng.integers(2) else 0
      if rng.integers(3) == 0:
        connected = not connected
      parent = tree[f] if f != loose or connected else "floor"
      transforms.append([parent, f, stamp + late, *pose_list(rng, scale)])
      if repeat and rng.integers(4) == 0:
        transforms.append(list(transforms[-1]))
    k = int(rng.integers(1, 3))
    for j in range(0, len(transforms), k):
      messages.append(["/tf", stamp, transforms[j:j + k]])
    step = [10000000, 20000000, 5000000, 700000000][rng.choice(4, p=[0.5, 0.3, 0.15, 0.05])]
    step *= slow
    if rng.integers(60) == 0:
      # The recording pauses.
      step = int(rng.integers(2, 60)) * 1000000000
    if stamp + step > start + 1800000000000:
      step = 10000000
    stamp += step + int(rng.integers(0, 3000000))
    if rng.integers(25) == 0:
      stamp = max(stamp - 2 * step, start)
  if rng.integers(2):
    # Transforms of the same frame are collected in common messages.
    joined = []
    for m in messages:
      if joined and m[0] == joined[-1][0] == "/tf" and rng.integers(3):
        joined[-1][2] = joined[-1][2] + m[2]
      else:
        joined.append(m)
    messages = joined
  stamps = sorted(set(t[2] for m in messages for t in (m[2] or [])))
  close = any(0 < b - a < 100000 for a, b in zip(stamps, stamps[1:]))
  source = frames[rng.integers(len(frames))]
  others = [x for x in names if x != source]
  target = others[rng.integers(len(others))]
  if rng.integers(12) == 0:
    target = "nowhere"
  return messages, target, source, close


def expectation(path, messages, target, source):
  """What the transforms say, message by message."""
  tree = tf.Transformer(True, rospy.Duration(3600.0))
  bag = rosbag.Bag(path)
  for _, msg, _ in bag.read_messages(topics=["/tf"]):
    for t in msg.transforms:
      tree.setTransform(t)
  rows, failed, last = [], 0, None
  for topic, _, transforms in messages:
    if topic != "/tf":
      continue
    for _, child, stamp, _, _ in transforms:
      if child != source:
        continue
      try:
        t, q = tree.lookupTransform(target, source, rospy.Time(0, stamp))
      except tf.Exception:
        failed += 1
        continue
      if last is not None and stamp <= last:
        continue
      last = stamp
      rows.append((stamp, t, q))
  return rows, failed


def export(c):
  rng = c.rng
  while True:
    messages, target, source, close = history(rng)
    if not close:
      break
  d = c.scratch()
  path, out = os.path.join(d, "the recording.bag"), os.path.join(d, "out.csv")
  with open(path, "w") as f:
    json.dump(messages, f)
  content = open(path).read()
  rows, failed = expectation(path, messages, target, source)
  c.input(messages, target, source)
  c.describe(messages=len(messages), target=target, source=source, expected_rows=len(rows), unresolved=failed)
  if rng.integers(2):
    with open(out, "w") as f:
      f.write("0, left over from before\n" * 5)
  args = ["--bag", path, "--tf_source_frame", source, "--tf_target_frame", target, "--csv_output_file", out]
  run = programs.run_child if c.index % 40 == 7 else programs.run_here
  status, _, err = run(TOOL, args, d)
  c.check("export succeeds", status == 0, status, err[-300:])
  c.check("recording unchanged", open(path).read() == content)
  c.check("only the requested file written", sorted(os.listdir(d)) == ["out.csv", "the recording.bag"],
          sorted(os.listdir(d)))
  if status != 0:
    return
  text = open(out).read()
  c.check("whole lines", text == "" or text.endswith("\n"), text[-100:])
  lines = text.splitlines()
  c.check("one line per resolved transform", len(lines) == len(rows), len(lines), len(rows), failed)
  if len(lines) != len(rows):
    return
  if failed:
    c.count("unresolved messages skipped", failed)
  before = None
  for line, (stamp, t, q) in zip(lines, rows):
    values = [float(x) for x in line.split(",")]
    c.check("eight columns", len(values) == 8, line)
    exact = stamp // 1000000000 + (stamp % 1000000000) / 1e9
    c.check("stamp at full precision", abs(values[0] - exact) <= 2 * np.spacing(exact), values[0], exact)
    c.check("stamps increase", before is None or values[0] > before, values[0], before)
    before = values[0]
    c.close("translation", values[1:4], t, 1e-12 * (1 + max(abs(x) for x in t)))
    c.check("rotation", ref.same_rotation(values[4:8], q) < 1e-12, values[4:8], q)
  if rows:
    poses, times, quats = read_time_stamped_poses_from_csv_file(out)
    c.check("readable as a pose file", np.shape(poses) == (len(rows), 8), np.shape(poses))
    c.close("pose file positions", poses[:, 1:4], [r[1] for r in rows],
            1e-12 * (1 + np.max(np.abs([r[1] for r in rows]))))


def simple(c):
  """One frame in its parent: the recorded numbers themselves."""
  rng = c.rng
  d = c.scratch()
  n = int(rng.integers(1, 30))
  stamp = int(rng.choice([0, 1478163000])) * 1000000000 + 123456789
  rows, messages = [], []
  for _ in range(n):
    t, q = pose_list(rng, 1.0)
    rows.append((stamp, t, q))
    messages.append(["/tf", stamp, [["w", "s", stamp, t, q]]])
    stamp += int(rng.integers(1000000, 30000000))
  path, out = os.path.join(d, "a.bag"), os.path.join(d, "o.csv")
  with open(path, "w") as f:
    json.dump(messages, f)
  c.input(messages)
  c.describe(rows=n)
  status, _, err = programs.run_here(TOOL, ["--bag", path, "--tf_source_frame", "s", "--tf_target_frame", "w",
                                            "--csv_output_file", out], d)
  c.check("export succeeds", status == 0, err[-300:])
  table = programs.read_table(out)
  c.check("one line per resolved transform", len(table) == n, len(table), n)
  for values, (stamp, t, q) in zip(table, rows):
    c.close("recorded numbers", values[1:], t + q, 1e-14)


def refused(c):
  rng = c.rng
  d = c.scratch()
  path = os.path.join(d, "a.bag")
  with open(path, "w") as f:
    json.dump([], f)
  full = {"--bag": path, "--tf_source_frame": "s", "--tf_target_frame": "w", "--csv_output_file": "o.csv"}
  kind = sorted(full)[c.index % 4]
  args = [x for k in sorted(full) if k != kind for x in (k, full[k])]
  if c.index >= 4:
    kind = "no such recording"
    full["--bag"] = os.path.join(d, "none.bag")
    args = [x for k in sorted(full) for x in (k, full[k])]
  c.input(kind)
  c.describe(missing=kind)
  status, _, _ = programs.run_here(TOOL, args, d)
  c.check("refused", status != 0, kind)


GROUPS = [
    Group("export", export, 240, 6000),
    Group("simple", simple, 40, 500),
    Group("refused", refused, 5, 5)]
REQUIRED = ["one line per resolved transform", "stamp at full precision", "stamps increase", "translation",
            "rotation", "readable as a pose file", "recorded numbers", "export succeeds"]
