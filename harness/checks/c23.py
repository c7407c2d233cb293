"""C23: the programs that start the exporters."""
import os

import yaml

import programs
from core import Group

PROPERTY = "C23"
LEVEL = "exploration"
ASSUMPTIONS = ["rosrun is a stand-in that records its arguments",
               "the names of recordings differ and frame names contain no slashes"]
WORKERS = 8
JOBS = "hand_eye_calibration/bin/bag_to_csv_with_config.py"
EXTRACT = "hand_eye_calibration/bin/target_extractor_interface.py"
WORDS = ["arm", "base_link", "optitrack", "primesense", "falcon", "imu", "tool 0", "odom", "cam-1", "W", "x.y"]
TOPICS = ["/camera/rgb/image_raw", "/falcon/color/color", "/cam0/image_raw", "/cam1/image_raw", "/a",
          "/falcon/infrared/infrared", "/ximea asl/image_raw", "/a_", "/cam0/image_raw_", "/_a"]


def pick(rng, words, n):
  return [words[int(i)] for i in rng.permutation(len(words))[:n]]


def configuration(rng, bags):
  names = ["1_falcon_merged-2017-04-07-12-16-44.bag", "h_e_1.bag", "run.2.bag", "run.3.bag", "long name.bag",
           "plain", "v1.0 final.bag"]
  out = []
  for name in pick(rng, names, bags):
    entry = {
        "name": name,
        "bag_path": ["/data/", "/Users/me/Google Drive/fsr/", "", "./rel/"][rng.integers(4)],
        "intrinsics_path": ["/calib/", "/my calib/"][rng.integers(2)],
        "target_config_path": ["/targets/", ""][rng.integers(2)],
        "target": ["target_83_249.yaml", "target 2.yaml"][rng.integers(2)],
        "tf_frames": None, "cameras": None}
    n = int(rng.integers(0, 5))
    if n:
      entry["tf_frames"] = {"source": pick(rng, WORDS, n), "target": pick(rng, WORDS, n)}
      if rng.integers(3) == 0:
        # One frame in several, or several frames in one.
        side = ["source", "target"][rng.integers(2)]
        entry["tf_frames"][side] = [entry["tf_frames"][side][0]] * n
    elif rng.integers(2):
      entry["tf_frames"] = {"source": [], "target": []}
    n = int(rng.integers(0, 5))
    if n:
      entry["cameras"] = {"cam_topics": pick(rng, TOPICS, n),
                          "cam_intrinsics": ["%s_%d.yaml" % (WORDS[rng.integers(len(WORDS))], i) for i in range(n)]}
    elif rng.integers(2):
      entry["cameras"] = {"cam_topics": [], "cam_intrinsics": []}
    if rng.integers(3) == 0:
      entry[int(rng.integers(9))] = None  # As in the examples: a numbered list.
    out.append(entry)
  return out


def write(path, bags, rng):
  with open(path, "w") as f:
    yaml.safe_dump({"bags": bags}, f, default_flow_style=bool(rng.integers(2)))


def expected_calls(bags):
  out = []
  for b in bags:
    stem = os.path.splitext(b["name"])[0]
    for s, t in zip(*[(b["tf_frames"] or {}).get(k, []) for k in ("source", "target")]):
      out.append(("hand_eye_calibration", "tf_to_csv.py", {
          "bag": b["bag_path"] + b["name"], "tf_source_frame": s, "tf_target_frame": t,
          "csv_output_file": stem + "_" + t + "_" + s + ".csv"}))
    for topic, intrinsics in zip(*[(b["cameras"] or {}).get(k, []) for k in ("cam_topics", "cam_intrinsics")]):
      out.append(("hand_eye_calibration", "target_extractor_interface.py", {
          "bag": b["bag_path"] + b["name"], "image_topic": topic,
          "calib_file_camera": b["intrinsics_path"] + intrinsics,
          "calib_file_target": b["target_config_path"] + b["target"],
          "output_file": stem + "_W_" + topic.replace("/", "_")[1:] + ".csv"}))
  return out


def jobs(c):
  rng = c.rng
  d = c.scratch()
  bags = configuration(rng, int(rng.integers(1, 5)))
  path = os.path.join(d, "the config.yaml")
  write(path, bags, rng)
  expected = expected_calls(bags)
  fail = ["all"] if rng.integers(5) == 0 else [int(k) for k in rng.integers(0, 10, size=2)]
  env = programs.rosrun(d, fail=fail)
  c.input(bags)
  c.describe(bags=[b["name"] for b in bags], calls=len(expected), failing=fail)
  content = open(path).read()
  status, _, err = programs.run_here(JOBS, ["--yaml_config_file", path], d, env)
  c.check("jobs started without error", status == 0, err[-300:])
  found = [(k[0], k[1], programs.options(k[2:])) for k in programs.calls(env)]
  c.check("one call per job", len(found) == len(expected), len(found), len(expected))
  for f, e in zip(found, expected):
    c.check("program", f[:2] == e[:2], f, e)
    c.check("exact arguments", f[2] == e[2], f[2], e[2])
  outputs = [f[2].get("csv_output_file", f[2].get("output_file")) for f in found]
  c.check("outputs do not collide", len(set(outputs)) == len(outputs), outputs)
  c.check("configuration unchanged", open(path).read() == content)
  c.check("nothing else written", sorted(os.listdir(d)) == ["the config.yaml", "tools"], os.listdir(d))


def refused(c):
  rng = c.rng
  d = c.scratch()
  bags = configuration(rng, 2)
  kind = ["frames", "cameras", "no file", "no option"][c.index % 4]
  path = os.path.join(d, "c.yaml")
  first = len(expected_calls(bags[:1]))
  if kind == "frames":
    bags[1]["tf_frames"] = {"source": ["a", "b"], "target": ["c"]} if rng.integers(2) else {
        "source": ["a"], "target": ["b", "c"]}
  elif kind == "cameras":
    bags[1]["cameras"] = {"cam_topics": ["/a"], "cam_intrinsics": ["a.yaml", "b.yaml"]} if rng.integers(2) else {
        "cam_topics": ["/a", "/b"], "cam_intrinsics": ["a.yaml"]}
    first += len(expected_calls([dict(bags[1], cameras=None)]))
  if kind != "no file":
    write(path, bags, rng)
  env = programs.rosrun(d)
  c.input(kind, bags)
  c.describe(kind=kind)
  status, _, _ = programs.run_here(JOBS, [] if kind == "no option" else ["--yaml_config_file", path], d, env)
  c.check("mismatch refused", status != 0, kind)
  c.check("no job of the refused list", len(programs.calls(env)) <= (first if kind in ("frames", "cameras") else 0),
          kind, programs.calls(env))


LAYOUT = {"april_tag_number_vertical": "april_tag_number_vertical",
          "april_tag_number_horizontal": "april_tag_number_horizontal",
          "april_tag_number_pixel_boarder": "april_tag_pixel_boarder",
          "april_tag_size_m": "april_tag_size_m",
          "april_tag_gap_size_m": "april_tag_gap_size_m"}


def extraction(c):
  rng = c.rng
  d = c.scratch()
  layout = {"april_tag_number_vertical": int(rng.integers(1, 12)),
            "april_tag_number_horizontal": int(rng.integers(1, 12)),
            "april_tag_number_pixel_boarder": int(rng.integers(1, 4)),
            "april_tag_size_m": float(rng.choice([0.055, 0.083, 1.0, round(float(rng.uniform(0.001, 1)), 6), 1e-4,
                                                   float(rng.uniform(0.001, 1))])),
            "april_tag_gap_size_m": float(rng.choice([0.0165, 0.0249, 0.0, round(float(rng.uniform(0.0001, 1)), 6),
                                                       float(rng.uniform(0.001, 1))]))}
  target = os.path.join(d, "target file.yaml")
  with open(target, "w") as f:
    yaml.safe_dump(dict(layout, other="ignored"), f)
  out = ["poses.csv", "sub dir/poses.csv", "/abs/path/p.q.csv", "./a_W_cam.csv"][rng.integers(4)]
  args = {"bag": ["/d/x.bag", "my recording.bag"][rng.integers(2)],
          "calib_file_camera": ["/c/cam.yaml", "cam 2.yaml"][rng.integers(2)],
          "calib_file_target": target,
          "image_topic": TOPICS[rng.integers(len(TOPICS))], "output_file": out}
  env = programs.rosrun(d, fail=["all"] if rng.integers(5) == 0 else [])
  line = [x for k in pick(rng, sorted(args), len(args)) for x in ("--" + k, args[k])]
  c.input(layout, args)
  c.describe(layout=layout, args=args)
  status, _, err = programs.run_here(EXTRACT, line, d, env)
  c.check("extraction started without error", status == 0, err[-300:])
  found = programs.calls(env)
  c.check("one extraction", len(found) == 1 and found[0][:2] == [
      "hand_eye_calibration_target_extractor", "target_extractor"], found)
  if len(found) != 1:
    return
  o = programs.options(found[0][2:])
  for name, flag in LAYOUT.items():
    value = o.get(flag)
    c.check("tag layout", value is not None and float(value) == layout[name], flag, value, layout[name])
  for flag, value in (("bag", args["bag"]), ("topic", args["image_topic"]),
                      ("eval_camera_yaml", args["calib_file_camera"]),
                      ("camera_pose_T_C_G_output_file_timestamped", out)):
    c.check("extraction arguments", o.get(flag) == value, flag, o.get(flag), value)
  c.check("no header in the pose file", str(o.get("write_csv_header")).lower() in ("false", "0"), o)
  sequenced = str(o.get("camera_pose_T_C_G_output_file"))
  c.check("two different output files", sequenced != out and os.path.dirname(sequenced) == os.path.dirname(out) and
          os.path.basename(out) in os.path.basename(sequenced), sequenced, out)


def extraction_refused(c):
  d = c.scratch()
  target = os.path.join(d, "t.yaml")
  layout = {k: 2 for k in LAYOUT}
  args = {"bag": "b.bag", "calib_file_camera": "c.yaml", "calib_file_target": target,
          "image_topic": "/a", "output_file": "o.csv"}
  kinds = sorted(args) + sorted(layout) + ["no file"]
  kind = kinds[c.index % len(kinds)]
  if kind in layout:
    del layout[kind]
  if kind in args:
    del args[kind]
  if kind != "no file":
    with open(target, "w") as f:
      yaml.safe_dump(layout, f)
  env = programs.rosrun(d)
  c.input(kind)
  c.describe(missing=kind)
  status, _, _ = programs.run_here(EXTRACT, [x for k in args for x in ("--" + k, args[k])], d, env)
  c.check("incomplete extraction refused", status != 0 and programs.calls(env) == [], kind, programs.calls(env))


GROUPS = [
    Group("jobs", jobs, 120, 2000),
    Group("refused", refused, 24, 200),
    Group("extraction", extraction, 80, 1500),
    Group("extraction refused", extraction_refused, 11, 11)]
REQUIRED = ["one call per job", "exact arguments", "outputs do not collide", "mismatch refused", "tag layout",
            "extraction arguments", "incomplete extraction refused"]
