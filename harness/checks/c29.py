"""C29: what the plots of the experiments show."""
import math
import re
import runpy
import warnings

import matplotlib
from matplotlib.axes import Axes
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
import numpy as np

import programs
from core import Group
from hand_eye_calibration_experiments.experiment_results import ResultEntry

PROPERTY = "C29"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["perturbations at least 1e-9 of a step away from the edges of a cell, or exactly on "
               "edges that are exact binary fractions",
               "grids whose number of cells does not depend on rounding"]
SCRIPT = "hand_eye_calibration_experiments/bin/generate_plots.py"
ORDERS = {  # Slices, rows and columns.
    "translation_time_angle": ("translation", "time", "angle"),
    "angle_time_translation": ("angle", "time", "translation"),
    "time_translation_angle": ("time", "translation", "angle")}


class Watch(object):
  """Collects the figures that are shown and the boxes drawn in them."""

  def __enter__(self):
    plt.close("all")
    self.figures = []
    self.boxes = []
    self.show, self.bxp = plt.show, Axes.bxp
    watch = self

    def bxp(axes, stats, *args, **kwargs):
      out = watch.bxp(axes, stats, *args, **kwargs)
      watch.boxes.append((axes, stats, out))
      return out

    def show(*args, **kwargs):
      watch.collect()

    # Also the name in pylab, if it was imported before.
    from matplotlib import pylab
    self.pylab, self.pylab_show = pylab, pylab.show
    plt.show = pylab.show = show
    Axes.bxp = bxp
    return self

  def collect(self):
    for k in plt.get_fignums():
      fig = plt.figure(k)
      maps = [read_map(ax) for ax in fig.axes if ax.images]
      boxes = [read_boxes(ax, s, o) for ax, s, o in self.boxes if ax.figure is fig]
      self.figures.append((maps, boxes))
      plt.close(fig)
    self.boxes = []

  def __exit__(self, *args):
    plt.show, Axes.bxp, self.pylab.show = self.show, self.bxp, self.pylab_show
    self.collect()
    return False


def read_map(ax):
  """Cells of an image with the labels beside them."""
  image = ax.images[0]
  return {"values": np.array(image.get_array(), dtype=float), "title": ax.get_title(),
          "colours": [float(v) for v in image.get_clim()],
          "x": [(float(p), t.get_text()) for p, t in zip(ax.get_xticks(), ax.get_xticklabels())],
          "y": [(float(p), t.get_text()) for p, t in zip(ax.get_yticks(), ax.get_yticklabels())],
          "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
          "extent": [float(v) for v in image.get_extent()], "images": len(ax.images)}


def read_boxes(ax, stats, drawn):
  legend = ax.get_legend()
  names = []
  if legend is not None:
    names = [(t.get_text(), mcolors.to_hex(p.get_facecolor()))
             for t, p in zip(legend.get_texts(), legend.get_patches())]
  boxes = []
  for i, s in enumerate(stats):
    line = drawn["boxes"][i]
    boxes.append({"median": float(drawn["medians"][i].get_ydata()[0]),
                  "centre": float(np.mean(drawn["medians"][i].get_xdata())),
                  "low": float(np.min(line.get_ydata())), "high": float(np.max(line.get_ydata())),
                  "whiskers": sorted([float(drawn["whiskers"][2 * i].get_ydata()[1]),
                                      float(drawn["whiskers"][2 * i + 1].get_ydata()[1])]),
                  "colour": mcolors.to_hex(line.get_color())})
  return {"ylabel": ax.get_ylabel(), "boxes": boxes, "legend": names, "twins": [
      a.get_ylabel() for a in ax.figure.axes], "ticks": [
          (float(p), t.get_text()) for p, t in zip(ax.figure.axes[-1].get_xticks(),
                                                  ax.figure.axes[-1].get_xticklabels())]}


def functions():
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    return runpy.run_path(programs.path_of(SCRIPT), run_name="plots")


def numbers(text):
  return [float(v) for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)]


def grid(rng, kind):
  """One axis: start, end, step and its edges."""
  cells = int(rng.integers(1, 6))
  if kind == "time":
    step = float([0.03, 0.05, 0.125, 0.25][rng.integers(4)])
  elif kind == "translation":
    step = float([0.1, 0.25, 0.02, 0.5][rng.integers(4)])
  else:
    step = float([math.radians(15), math.radians(5), 0.5, 0.25][rng.integers(4)])
  start = 0.0 if rng.integers(3) else step * int(rng.integers(1, 3))
  # An end in the middle of the last cell leaves no doubt about their number.
  end = start + (cells - 0.5) * step
  return {"start": start, "end": end, "step": step}, [start + k * step for k in range(cells + 1)]


def draw(rng, low, high, exact):
  if exact and rng.integers(3) == 0:
    return low
  margin = 1e-9 * (high - low)
  kind = rng.integers(5)
  if kind == 0:
    return low + margin
  if kind == 1:
    return high - margin
  return float(rng.uniform(low + margin, high - margin))


def samples(rng, edges, per_cell, offset=1.0):
  """Experiments in every cell and the mean errors per cell."""
  rows = []
  for k in range(len(edges["translation"]) - 1):
    for j in range(len(edges["time"]) - 1):
      for i in range(len(edges["angle"]) - 1):
        for _ in range(per_cell):
          cell = {"translation": k, "time": j, "angle": i}
          v = {}
          for axis in cell:
            e = edges[axis]
            step = e[1] - e[0]
            exact = (step * 64) == round(step * 64) and (e[0] * 64) == round(e[0] * 64)
            v[axis] = draw(rng, e[cell[axis]], e[cell[axis] + 1], exact or cell[axis] == 0 and e[0] == 0)
          if rng.integers(2):
            v["time"] = -v["time"]
          p, o = float(10.0 ** rng.uniform(-4, 1)), float(10.0 ** rng.uniform(-3, 2.2))
          kind = rng.integers(12)
          rows.append((v, cell, 0.0 if kind == 0 else p, 0.0 if kind == 1 else o))
  return [rows[int(i)] for i in rng.permutation(len(rows))]


def arguments(rows):
  return [[r[2] for r in rows], [r[3] for r in rows], [r[0]["angle"] for r in rows],
          [r[0]["translation"] for r in rows], [r[0]["time"] for r in rows]]


def judge_maps(c, figures, order, edges, rows):
  slices, ys, xs = ORDERS[order]
  nx, ny, ns = [len(edges[a]) - 1 for a in (xs, ys, slices)]
  if not c.check("one figure per slice", len(figures) == ns, len(figures), ns):
    return
  for k, (maps, _) in enumerate(figures):
    if not c.check("two maps per figure", len(maps) == 2 and all(m["images"] == 1 for m in maps), len(maps)):
      return
    titles = [m["title"].lower() for m in maps]
    if not c.check("maps named", "transl" in titles[0].split(",")[0] and "angul" in titles[1].split(",")[0], titles):
      return
    for m, column in zip(maps, (2, 3)):
      c.check("one row and column per cell", m["values"].shape == (ny, nx), m["values"].shape, (ny, nx))
      if m["values"].shape != (ny, nx):
        return
      for j in range(ny):
        for i in range(nx):
          own = [r[column] for r in rows if (r[1][slices], r[1][ys], r[1][xs]) == (k, j, i)]
          c.close("mean of the cell", m["values"][j, i], float(np.mean(own)), 1e-9 * (1 + abs(np.mean(own))),
                  "slice", k, "row", j, "column", i)
      low, high = float(np.min(m["values"])), float(np.max(m["values"]))
      tol = 1e-9 * (1 + abs(high))
      c.check("colours tell the values apart", m["colours"][0] <= low + tol and m["colours"][1] >= high - tol,
              m["colours"], low, high)
      # Where the labels stand is what a reader sees.
      scale = 180.0 / math.pi if xs == "angle" else 1.0
      labels = {int(round(p)): numbers(t) for p, t in m["x"]}
      c.check("columns labelled", sorted(labels) == list(range(nx)), m["x"])
      for i in range(nx):
        want = [edges[xs][i] * scale, edges[xs][i + 1] * scale]
        got = labels.get(i, [])
        c.check("column label is its range", len(got) == 2 and np.allclose(
            got, want, rtol=0, atol=0.51 if xs == "angle" else 1e-6), got, want)
      c.check("columns named", xs in m["xlabel"].lower(), m["xlabel"], xs)
      c.check("upright image", abs(m["extent"][0] + 0.5) < 1e-9 and abs(m["extent"][1] - nx + 0.5) < 1e-9 and
              sorted(m["extent"][2:]) == [-0.5, ny - 0.5], m["extent"])
      inside = m["title"].split("\\in")[-1].replace("^\\circ", "")
      got = numbers(inside)
      scale = 180.0 / math.pi if slices == "angle" else 1.0
      want = [edges[slices][k] * scale, edges[slices][k + 1] * scale]
      c.check("slice named", len(got) == 2 and np.allclose(got, want, rtol=0, atol=1e-6), m["title"], want)
    labels = {int(round(p)): numbers(t) for p, t in maps[0]["y"]}
    c.check("rows labelled", sorted(labels) == list(range(ny)), maps[0]["y"])
    for j in range(ny):
      want = edges[ys][j:j + 2]
      got = labels.get(j, [])
      c.check("row label is its range", len(got) == 2 and np.allclose(got, want, rtol=0, atol=1e-6), got, want)
    c.check("rows named", ys in maps[0]["ylabel"].lower(), maps[0]["ylabel"], ys)
  c.count("slices judged", ns)


def maps(c):
  rng = c.rng
  order = sorted(ORDERS)[c.index % 3]
  ranges, edges = {}, {}
  for axis in ("time", "translation", "angle"):
    ranges[axis], edges[axis] = grid(rng, axis)
  per_cell = int(rng.integers(1, 5))
  rows = samples(rng, edges, per_cell)
  c.input(arguments(rows), order)
  c.describe(order=order, edges=edges, per_cell=per_cell)
  data = arguments(rows)
  function = functions()["generate_optimization_circle_error_plot"]
  with Watch() as watch, c.unchanged("inputs unchanged", data):
    function(ranges["time"], ranges["translation"], ranges["angle"], data, order, per_cell)
  judge_maps(c, watch.figures, order, edges, rows)


OWN = {  # The grids that the program itself uses.
    "translation_time_angle": ({"start": 0.0, "end": 0.23, "step": 0.03}, 8, {"start": 0.0, "end": 0.1, "step": 0.1}, 1,
                               {"start": 0.0, "end": 120.0 / 180 * np.pi, "step": 15.0 / 180 * np.pi}, 8),
    "angle_time_translation": ({"start": 0.0, "end": 0.23, "step": 0.03}, 8, {"start": 0.0, "end": 0.8, "step": 0.1}, 8,
                               {"start": 0.0, "end": 15.0 / 180 * np.pi, "step": 15.0 / 180 * np.pi}, 1),
    "time_translation_angle": ({"start": 0.0, "end": 0.03, "step": 0.03}, 1, {"start": 0.0, "end": 0.8, "step": 0.1}, 8,
                               {"start": 0.0, "end": 120.0 / 180 * np.pi, "step": 15.0 / 180 * np.pi}, 8),
    "maximum": ({"start": 0.0, "end": 0.1, "step": 0.1}, 1, {"start": 0.0, "end": 1.0, "step": 0.1}, 10,
                {"start": 0.0, "end": 179.0 / 180 * np.pi, "step": 15.0 / 180 * np.pi}, 12)}


def own(c):
  rng = c.rng
  name = sorted(OWN)[c.index % 4]
  t, nt, s, ns, a, na = OWN[name]
  edges = {"time": [t["step"] * k for k in range(nt + 1)], "translation": [s["step"] * k for k in range(ns + 1)],
           "angle": [a["step"] * k for k in range(na + 1)]}
  rows = samples(rng, edges, 2)
  order = "time_translation_angle" if name == "maximum" else name
  c.input(name, arguments(rows))
  function = functions()["generate_optimization_circle_error_plot"]
  with Watch() as watch:
    function(dict(t), dict(s), dict(a), arguments(rows), order, 2)
  judge_maps(c, watch.figures, order, edges, rows)


def refused(c):
  rng = c.rng
  order = sorted(ORDERS)[(c.index // 7) % 3]
  ranges, edges = {}, {}
  for axis in ("time", "translation", "angle"):
    ranges[axis], edges[axis] = grid(rng, axis)
  per_cell = int(rng.integers(1, 4))
  rows = samples(rng, edges, per_cell)
  kind = ["missing", "surplus", "moved", "above", "below", "unequal", "nothing"][c.index % 7]
  axis = ["time", "translation", "angle"][rng.integers(3)]
  k = int(rng.integers(len(rows)))
  if kind == "below" and all(e[0] == 0 for e in edges.values()):
    kind = "missing"
  if kind == "moved" and len(rows) == per_cell:
    kind = "surplus"
  data = None
  if kind == "missing":
    del rows[k]
  elif kind == "surplus":
    rows.append(rows[k])
  elif kind == "moved":
    # One cell gets the experiment of another.
    other = [r for r in rows if r[1] != rows[k][1]]
    rows[k] = other[int(rng.integers(len(other)))]
  elif kind == "above":
    rows[k][0][axis] = edges[axis][-1] * (1.0 + 1e-6) + float(rng.choice([0.0, 1.0]))
  elif kind == "below":
    axis = [a for a in edges if edges[a][0] > 0][0]
    rows[k][0][axis] = edges[axis][0] * float(rng.choice([0.0, 0.5, 1 - 1e-6]))
  elif kind == "nothing":
    rows = []
  data = arguments(rows)
  if kind == "unequal":
    del data[int(rng.integers(2))][k]
  c.input(kind, order, data)
  c.describe(kind=kind, order=order, axis=axis, edges=edges, per_cell=per_cell)
  function = functions()["generate_optimization_circle_error_plot"]
  with Watch():
    c.raises("incomplete or impossible data are refused", Exception, function, ranges["time"],
             ranges["translation"], ranges["angle"], data, order, per_cell)


def box_of(values):
  q1, med, q3 = np.percentile(values, [25, 50, 75])
  low = [v for v in values if v >= q1 - 1.5 * (q3 - q1)]
  high = [v for v in values if v <= q3 + 1.5 * (q3 - q1)]
  lo = min(low) if low and min(low) <= q1 else q1
  hi = max(high) if high and max(high) >= q3 else q3
  return med, q1, q3, [lo, hi]


def judge_box(c, box, values):
  med, q1, q3, whiskers = box_of(values)
  tol = 1e-9 * (1 + max(abs(v) for v in values))
  c.close("box shows the median", box["median"], med, tol)
  c.close("box shows the quartiles", [box["low"], box["high"]], [q1, q3], tol)
  c.close("whiskers show the spread", box["whiskers"], whiskers, tol)


def method_names(rng):
  names = ["PF_B_O", "B_O", "PF_B", "B", "PF_EC", "PF_ES", "RC", "PF_RS_O", "S_PF_ES_O"]
  return [names[int(i)] for i in rng.permutation(len(names))[:int(rng.integers(1, 7))]]


def some(rng):
  top = [1, 1, 1, 5][rng.integers(4)]
  out = [float(v) for v in 10.0 ** rng.uniform(-3, top, size=int(rng.integers(1, 12)))]
  if rng.integers(5) == 0:
    out[rng.integers(len(out))] = 0.0
  return out


def nearest(ticks, x):
  return min(ticks, key=lambda t: abs(t[0] - x))[1]


def error_boxes(c):
  rng = c.rng
  methods = method_names(rng)
  position = [some(rng) for _ in methods]
  orientation = [[10 * v for v in some(rng)] for _ in methods]
  c.input(methods, position, orientation)
  c.describe(methods=methods)
  with Watch() as watch, c.unchanged("inputs unchanged", methods, position, orientation):
    functions()["generate_box_plot"]("data set", methods, position, orientation)
  if c.check("one figure", len(watch.figures) == 1, len(watch.figures)):
    judge_error_boxes(c, watch.figures[0], methods, position, orientation)


def judge_error_boxes(c, figure, methods, position, orientation):
  panels = figure[1]
  if not c.check("two groups of boxes", len(panels) == 2, len(panels)):
    return
  for values, word in ((position, "position"), (orientation, "orientation")):
    panel = [p for p in panels if word in p["ylabel"].lower()]
    if not c.check("boxes on the named axis", len(panel) == 1, [p["ylabel"] for p in panels]):
      return
    judge_panel(c, panel[0], methods, values)


def judge_panel(c, panel, methods, values):
  shown = {}
  for b in panel["boxes"]:
    shown.setdefault(nearest(panel["ticks"], b["centre"]), []).append(b)
  c.check("one box per method", sorted(shown) == sorted(methods) and
          all(len(v) == 1 for v in shown.values()), sorted(shown), methods)
  for m, v in zip(methods, values):
    if len(shown.get(m, [])) == 1:
      judge_box(c, shown[m][0], v)


def time_boxes(c):
  rng = c.rng
  methods = method_names(rng)
  datasets = ["a", "b set", "third", "four"][:int(rng.integers(1, 5))]
  runtimes = {d: {m: some(rng) for m in methods} for d in datasets}
  colours = ["b", "g", "c", "m", "y", "k", "r"]
  c.input(methods, datasets, runtimes)
  c.describe(methods=methods, datasets=datasets)
  with Watch() as watch, c.unchanged("inputs unchanged", methods, datasets, runtimes):
    functions()["generate_time_plot"](methods, datasets, runtimes, colours)
  if c.check("one figure", len(watch.figures) == 1, len(watch.figures)):
    judge_time_boxes(c, watch.figures[0], methods, datasets, runtimes)


def judge_time_boxes(c, figure, methods, datasets, runtimes):
  panels = figure[1]
  boxes = [b for p in panels for b in p["boxes"]]
  if not c.check("all boxes drawn", len(boxes) == len(methods) * len(datasets), len(boxes)):
    return
  legend = dict(panels[0]["legend"])
  c.check("legend names every data set", sorted(legend) == sorted(datasets), legend)
  for d in datasets:
    mine = [b for b in boxes if b["colour"] == legend.get(d)]
    judge_panel(c, {"boxes": mine, "ticks": panels[0]["ticks"]}, methods, [runtimes[d][m] for m in methods])


def program(c):
  """The program itself, from result files to figures."""
  rng = c.rng
  edges = {"time": [0.03 * k for k in range(9)], "translation": [0.0, 0.1],
           "angle": [math.radians(15) * k for k in range(9)]}
  per_cell = 60
  rows = samples(rng, edges, per_cell)
  d = c.scratch()
  names = [d + "/first.csv", d + "/second.csv"][:1 + c.index % 2]
  files = [[] for _ in names]
  called = {"S_PF_ES_O": "optimization_w_spoiled_init_calibration", "PF_ES_O": "ES_opt", "RC": "RC_no_filter_no_opt"}
  methods = [["S_PF_ES_O"], ["PF_ES_O", "S_PF_ES_O", "RC"]][c.index // 2 % 2]
  sets = [["set"], ["set", "other set", "a"]][(c.index + c.index // 2) % 2]
  expected = []
  for k, (v, cell, p, o) in enumerate(rows):
    direction = rng.normal(size=3)
    translation = v["translation"] * direction / np.linalg.norm(direction)
    text = "[" + " ".join("%.12g" % x for x in translation) + "]"
    rp, ro, rt, ot = [float(x) for x in rng.uniform(0.1, 2, 4)]
    method, dataset = methods[rng.integers(len(methods))], sets[rng.integers(len(sets))]
    files[k % len(names)].append([called[method], 0, k % 60, True, "a.csv", "b.csv", True, rp,
                                  ro, 20, 30, 25, rt, p, o, "", False, True, True, ot, repr(v["angle"]), text,
                                  repr(v["time"]), dataset])
    expected.append((k % len(names), rp, ro, rt + ot, method, dataset))
  for k, (name, lines) in enumerate(zip(names, files)):
    with open(name, "w") as f:
      f.write(ResultEntry().get_header().strip() + "\n")
      for line in lines:
        f.write(",".join(str(x) for x in line) + "\n")
  c.input(names, files)
  with Watch() as watch:
    status, out, err = programs.run_here(SCRIPT, ["--csv_file_names"] + names, d)
  matplotlib.rcdefaults()
  matplotlib.use("Agg")
  c.check("program succeeds", status == 0, status, err[-500:])
  if status != 0 or not c.check("all figures", len(watch.figures) == len(sets) + 2, len(watch.figures)):
    return
  order = [e for k in range(len(names)) for e in expected if e[0] == k]
  sets = list(dict.fromkeys(e[5] for e in order))

  def of(method, dataset, i):
    return [e[i] for e in order if e[4:] == (method, dataset)]

  for figure, s in zip(watch.figures, sets):
    judge_error_boxes(c, figure, methods, [of(m, s, 1) for m in methods], [of(m, s, 2) for m in methods])
  judge_time_boxes(c, watch.figures[len(sets)], methods, sets, {s: {m: of(m, s, 3) for m in methods} for s in sets})
  judge_maps(c, watch.figures[len(sets) + 1:], "translation_time_angle", edges, rows)


GROUPS = [
    Group("maps", maps, 45, 900),
    Group("own", own, 8, 80),
    Group("refused", refused, 84, 1680),
    Group("error_boxes", error_boxes, 24, 480),
    Group("time_boxes", time_boxes, 24, 480),
    Group("program", program, 4, 20)]
REQUIRED = ["mean of the cell", "column label is its range", "row label is its range", "slice named",
            "incomplete or impossible data are refused", "box shows the median", "box shows the quartiles",
            "program succeeds"]
