"""C21: the named algorithm configurations."""
import itertools
import random

import numpy as np

import gen
import ref
import solve
from checks import c08
from checks import c10
from checks import c13
from core import Group
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    HandEyeConfig, align_paths_at_index, compute_hand_eye_calibration)
from hand_eye_calibration.time_alignment import FilteringConfig, calculate_time_offset
from hand_eye_calibration import algorithm_config
from hand_eye_calibration_experiments import all_algorithm_configs as experiments

PROPERTY = "C21"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["a configuration is the tuple of name, alignment, solver and optimisation settings"]
NAMES = ["baseline_filter_opt", "baseline_no_filter_opt", "baseline_filter_no_opt",
         "baseline_no_filter_no_opt", "RC_filter_opt", "RC_no_filter_opt", "RC_filter_no_opt",
         "RC_no_filter_no_opt", "RS_filter_opt", "RS_no_filter_opt", "RS_filter_no_opt",
         "RS_no_filter_no_opt", "EC_opt", "EC_no_opt", "ES_opt", "ES_no_opt"]
FACTORIES = [
    ("get_baseline_and_optimization_config", 2), ("get_RC_and_optimization_config", 2),
    ("get_RS_and_optimization_config", 2), ("get_EC_and_optimization_config", 1),
    ("get_ES_and_optimization_config", 1),
    ("get_optimization_with_spoiled_initial_calibration_config", 0)]
SPOILED = "optimization_w_spoiled_init_calibration"


def filtered(name):
  return "no_filter" not in name


def judge(c, entry):
  name, alignment, solver, optimization = entry
  c.check("types", isinstance(alignment, FilteringConfig) and isinstance(solver, HandEyeConfig), name)
  c.check("prefilter as named", solver.prefilter_poses_enabled is (True if name == SPOILED else filtered(name)), name)
  c.check("baseline as named", bool(solver.use_baseline_approach) == name.startswith("baseline"), name)
  c.check("optimisation as named", optimization.enable_optimization is (not name.endswith("no_opt")), name)
  c.check("only the perturbation study optimises only", bool(optimization.optimization_only) == (name == SPOILED), name)
  if name == SPOILED:
    kind = "ES"
  else:
    kind = name.split("_")[0]
    c.check("solver name agrees", name in (solver.algorithm_name + "_opt", solver.algorithm_name + "_no_opt"),
            name, solver.algorithm_name)
  if kind != "baseline":
    c.check("search as named", bool(solver.enable_exhaustive_search) == (kind[0] == "E"), name)
    expected = "rmse_threshold" if kind[1] == "C" else "scalar_part_equality"
    c.check("inliers as named", solver.ransac_inlier_classification == expected, name,
            solver.ransac_inlier_classification)
    c.check("sample size fits the method", (solver.ransac_sample_size >= 3) if kind[1] == "C" else
            (solver.ransac_sample_size >= 1), name, solver.ransac_sample_size)
  else:
    c.check("search as named", not solver.enable_exhaustive_search, name)
  c.check("no plots by default", solver.visualize is False, name)


def listed(c):
  configs = experiments.get_all_configs()
  c.input("all", c.index)
  names = [e[0] for e in configs]
  c.check("every combination once", sorted(names) == sorted(NAMES), names)
  for entry in configs:
    judge(c, entry)
  judge(c, experiments.get_optimization_with_spoiled_initial_calibration_config())


def singles(c):
  """Every combination requested on its own."""
  rng = c.rng
  which, count = FACTORIES[c.index % len(FACTORIES)]
  args = [bool(rng.integers(2)) for _ in range(count)]
  c.input(which, args)
  c.describe(factory=which, args=args)
  entry = getattr(experiments, which)(*args)
  judge(c, entry)
  if count:
    c.check("optimisation as requested", entry[3].enable_optimization is args[-1], which, args)
  if count == 2:
    c.check("prefilter as requested", entry[2].prefilter_poses_enabled is args[0], which, args)


def state(entry):
  return [entry[0]] + [dict(vars(x)) for x in entry[1:]]


def changed(value, rng):
  if isinstance(value, bool):
    return not value
  if isinstance(value, (int, float)):
    return value + int(rng.integers(1, 9))
  return str(value) + "x"


def request(rng):
  kind = int(rng.integers(3))
  if kind == 0:
    return experiments.get_all_configs()
  if kind == 1:
    which, count = FACTORIES[int(rng.integers(len(FACTORIES)))]
    return [getattr(experiments, which)(*[bool(rng.integers(2)) for _ in range(count)])]
  f = [lambda: algorithm_config.get_basic_config(),
       lambda: algorithm_config.get_RANSAC_classic_config(bool(rng.integers(2))),
       lambda: algorithm_config.get_baseline_config(bool(rng.integers(2))),
       lambda: algorithm_config.get_exhaustive_search_scalar_part_inliers_config()]
  out = f[int(rng.integers(len(f)))]()
  return [(None,) + tuple(out)]


def independent(c):
  """Configurations requested in any order, changed one at a time."""
  rng = c.rng
  reference = {e[0]: state(e) for e in experiments.get_all_configs()}
  held = []
  script = []
  for _ in range(int(rng.integers(2, 6))):
    new = request(rng)
    held += [(e, state(e)) for e in new]
    i = int(rng.integers(len(held)))
    entry = held[i][0]
    part = entry[1 + int(rng.integers(len(entry) - 1))]
    key = sorted(vars(part))[int(rng.integers(len(vars(part))))]
    setattr(part, key, changed(getattr(part, key), rng))
    held[i] = (entry, state(entry))
    script.append((entry[0], key))
    for e, s in held:
      c.check("changing one leaves the others", state(e) == s, script)
  c.input(script, c.index)
  c.describe(script=str(script))
  again = {e[0]: state(e) for e in experiments.get_all_configs()}
  c.check("later requests are unaffected", again == reference, script)


def problem(rng, n=24):
  while True:
    first = solve.trajectory(rng, "random", n)
    x = gen.mild_motion(rng, 0.5)
    b = solve.base(rng)
    second = [b.dot(m).dot(x) for m in first]
    if min(solve.conditioning(first, second, k) for k in range(0, n, 6)) > 1.0:
      return first, second, x


def attempt(cfg, first, second, seed):
  random.seed(seed)
  try:
    return solve.solve(cfg, solve.wrap(first), solve.wrap(second))
  except (AssertionError, ValueError):
    return (False, None, (None, None), None, None, 0.0, None, None)


def triple(fv, sv, chosen, cfg):
  """The calibration of three pairs alone."""
  first = align_paths_at_index(solve.wrap([fv[i] for i in chosen]), 0)
  second = align_paths_at_index(solve.wrap([sv[i] for i in chosen]), 0)
  try:
    out = compute_hand_eye_calibration(first, second, cfg.hand_eye_calibration_scalar_part_equality_tolerance)[0]
  except AssertionError:
    return None
  out.normalize()
  return ref.dq_to_transform(out.dq)


def settings(c):
  """Each setting has the effect it is meant to have."""
  rng = c.rng
  seed = int(rng.integers(1 << 30))
  configs = [e for e in experiments.get_all_configs() if e[0].endswith("no_opt")]
  name, _, cfg, _ = configs[c.index % len(configs)]
  kind = name.split("_")[0]
  what = ["required inliers", "filter threshold", "filter switch", "pose thresholds", "scalar tolerance",
          "solver tolerance", "error over inliers", "samples", "search", "refinement"][(c.index // len(configs)) % 10]
  first, second, x = problem(rng, 24 if kind == "EC" or rng.integers(3) else int(rng.integers(90, 140)))
  n = len(first)
  fv, sv = [ref.dq(m) for m in first], [ref.dq(m) for m in second]
  c.input(name, what, fv, sv)
  c.describe(configuration=name, setting=what)
  if what == "required inliers":
    # All pairs are inliers; a required number above that cannot be met.
    cfg.prefilter_poses_enabled = False
    if kind == "EC":
      fv, sv = fv[:14], sv[:14]
    m = len(fv)
    cfg.min_num_inliers = m + 1
    c.check("required inliers respected", not attempt(cfg, fv, sv, seed)[0])
    cfg.min_num_inliers = m - 1
    out = attempt(cfg, fv, sv, seed)
    c.check("attainable inliers found", out[0] and out[3] == m, out[:4])
  elif what in ("filter threshold", "filter switch"):
    cfg.min_num_inliers = 3
    cfg.ransac_max_number_samples = 60
    if kind == "EC":
      fv, sv = fv[:12], sv[:12]
    if what == "filter threshold":
      cfg.prefilter_poses_enabled = True
      cfg.prefilter_dot_product_threshold = float(rng.uniform(0.3, 0.9))
      kept, margin = c13.select(fv, sv, cfg.prefilter_dot_product_threshold)
      if margin < 1e-7 or len(kept) < 5:
        c.trivial = True
        return
    else:
      cfg.prefilter_poses_enabled = False
      kept = fv
    out = attempt(cfg, fv, sv, seed)
    c.check("filter settings used", out[4] == len(kept), out[4], len(kept), cfg.prefilter_dot_product_threshold)
  elif what in ("pose thresholds", "scalar tolerance", "solver tolerance"):
    rows = [c10.noisy(rng, m, 0.002, 0.002) for m in second]
    nv = [ref.dq(m) for m in rows]
    cfg.ransac_max_number_samples = 40
    cfg.prefilter_dot_product_threshold = 0.9
    if kind == "EC":
      fv, nv = fv[:14], nv[:14]
      cfg.prefilter_dot_product_threshold = 0.7
    # The baseline only counts the poses that the prefilter leaves.
    cfg.min_num_inliers = 4 if kind == "baseline" else 8
    if what == "pose thresholds":
      if kind not in ("RC", "EC"):
        c.trivial = True
        return
      which = ["ransac_position_error_threshold_m", "ransac_orientation_error_threshold_deg"][int(rng.integers(2))]
      setattr(cfg, which, 1e-7)
      c.check("tight pose threshold respected", not attempt(cfg, fv, nv, seed)[0], which)
      cfg.ransac_position_error_threshold_m = cfg.ransac_orientation_error_threshold_deg = 10.0
    elif what == "scalar tolerance":
      if kind == "baseline":
        c.trivial = True
        return
      cfg.ransac_sample_rejection_scalar_part_equality_tolerance = 1e-9
      c.check("tight scalar tolerance respected", not attempt(cfg, fv, nv, seed)[0])
      cfg.ransac_sample_rejection_scalar_part_equality_tolerance = 5e-2
      cfg.ransac_position_error_threshold_m, cfg.ransac_orientation_error_threshold_deg = 0.2, 5.0
    else:
      cfg.hand_eye_calibration_scalar_part_equality_tolerance = 1e-9
      c.check("tight solver tolerance respected", not attempt(cfg, fv, nv, seed)[0])
      cfg.hand_eye_calibration_scalar_part_equality_tolerance = 5e-2
      cfg.ransac_position_error_threshold_m, cfg.ransac_orientation_error_threshold_deg = 0.2, 5.0
    out = attempt(cfg, fv, nv, seed)
    c.check("wide setting accepts", bool(out[0]), what)
  elif what == "error over inliers":
    if kind == "EC":
      cfg.prefilter_dot_product_threshold = 0.8
    wrong = c10.outlier(rng, first, second, 7)
    second[7] = wrong
    sv = [ref.dq(m) for m in second]
    cfg.prefilter_poses_enabled = kind == "EC"
    cfg.ransac_evaluate_refined_model_on_inliers_only = True
    out = attempt(cfg, fv, sv, seed)
    if out[0]:
      c.check("errors of the inliers only", out[2][0] < 1e-5 and out[2][1] < 1e-4, out[2])
    cfg.ransac_evaluate_refined_model_on_inliers_only = False
    out = attempt(cfg, fv, sv, seed)
    if out[0]:
      c.check("errors of all pairs", out[2][0] > 1e-3 or out[2][1] > 1e-2, out[2])
  elif what == "samples":
    if kind == "baseline":
      c.trivial = True
      return
    # As many samples as poses cannot be drawn.
    cfg.ransac_sample_size = n
    c.check("sample size respected", not attempt(cfg, fv, sv, seed)[0])
    if kind in ("RC", "RS"):
      cfg.ransac_sample_size = 3
      cfg.ransac_max_number_samples = 0
      c.check("no sample, no solution", not attempt(cfg, fv, sv, seed)[0])
      cfg.ransac_max_number_samples = 1000
      cfg.ransac_max_number_iterations = 0
      c.check("no iteration, no solution", not attempt(cfg, fv, sv, seed)[0])
  elif what == "refinement":
    if kind not in ("RC", "EC"):
      c.trivial = True
      return
    # Without refinement the result is that of three of the pairs.
    m = 9
    rows = [c10.noisy(rng, w, 0.001, 0.001) for w in second]
    nv = [ref.dq(w) for w in rows][:m]
    fv = fv[:m]
    cfg.min_num_inliers = 6
    cfg.prefilter_poses_enabled = False
    cfg.ransac_position_error_threshold_m, cfg.ransac_orientation_error_threshold_deg = 0.3, 10.0
    cfg.ransac_sample_rejection_scalar_part_equality_tolerance = 5e-2
    cfg.ransac_max_number_samples = 60
    alone = [triple(fv, nv, s, cfg) for s in itertools.permutations(range(m), 3)]
    for refine in (False, True):
      cfg.ransac_model_refinement = refine
      out = attempt(cfg, fv, nv, seed)
      if not out[0]:
        c.count("refinement without solution")
        continue
      found = ref.dq_to_transform(out[1].dq)
      gap = min(np.max(np.abs(found - a)) for a in alone if a is not None)
      if refine:
        c.check("refined with all inliers", gap > 1e-9, gap)
      else:
        c.check("not refined unless asked for", gap < 1e-9, gap)
  else:
    if kind == "EC":
      cfg.prefilter_dot_product_threshold = 0.7
      cfg.min_num_inliers = 5
    rows = [c10.noisy(rng, m, 0.001, 0.001) for m in second]
    nv = [ref.dq(m) for m in rows]
    cfg.ransac_position_error_threshold_m, cfg.ransac_orientation_error_threshold_deg = 0.2, 5.0
    results = [attempt(cfg, fv, nv, seed + k) for k in range(4)]
    if not all(r[0] for r in results):
      c.count("search without solution")
      return
    distinct = len(set(tuple(np.round(r[1].dq, 12)) for r in results))
    if cfg.enable_exhaustive_search or cfg.use_baseline_approach:
      c.check("exhaustive search does not draw", distinct == 1, [r[1].dq for r in results])
    elif kind == "RC" and not cfg.prefilter_poses_enabled:
      c.count("random searches")


def exhaustive(c):
  """An exhaustive search finds the few pairs that agree wherever they are."""
  rng = c.rng
  name = ["EC", "ES", "baseline"][c.index % 3]
  cfg = {"EC": algorithm_config.get_exhaustive_search_pose_inliers_config,
         "ES": algorithm_config.get_exhaustive_search_scalar_part_inliers_config,
         "baseline": lambda: algorithm_config.get_baseline_config(False)}[name]()[1]
  cfg.enable_exhaustive_search = True
  cfg.prefilter_poses_enabled = False
  cfg.min_num_inliers = 8
  few = 10
  n = int(rng.integers(24, 30)) if name == "EC" else int(rng.integers(30, 120))
  first, second, x = problem(rng, n)
  place = ["end", "start", "scattered"][(c.index // 3) % 3]
  good = {"end": range(n - few, n), "start": range(few), "scattered": rng.permutation(n)[:few]}[place]
  good = sorted(int(i) for i in good)
  for i in range(n):
    if i not in good:
      second[i] = c10.outlier(rng, first, second, i)
  if min(solve.conditioning([first[i] for i in good], [second[i] for i in good], k) for k in range(few)) < 1.0:
    c.trivial = True
    return
  fv, sv = [ref.dq(m) for m in first], [ref.dq(m) for m in second]
  sv = c10.same_signs(fv, sv)
  c.input(name, fv, sv)
  c.describe(configuration=name, pairs=n, agreeing=good)
  out = attempt(cfg, fv, sv, 1)
  if c.check("exhaustive search finds the solution", bool(out[0]), name, place, out[:4]):
    c.close("exhaustive search finds the solution", ref.dq_to_transform(out[1].dq), x, 1e-5, name, place)
    c.check("exhaustive search counts its inliers", out[3] == few, out[3])


class Watched(object):
  """Records which settings are read."""

  def __getattribute__(self, name):
    if not name.startswith("_"):
      object.__getattribute__(self, "_read").add(name)
    return object.__getattribute__(self, name)


def watch(config):
  kind = type("Watched" + type(config).__name__, (Watched, type(config)), {})
  out = object.__new__(kind)
  object.__setattr__(out, "_read", set())
  out.__dict__.update(vars(config))
  return out


def settings_read(c):
  rng = c.rng
  configs = [e for e in experiments.get_all_configs() if e[0].endswith("no_opt")]
  name, _, cfg, _ = configs[c.index % len(configs)]
  kind = name.split("_")[0]
  first, second, x = problem(rng, 20)
  if kind == "EC":
    cfg.prefilter_dot_product_threshold = 0.7
  cfg.min_num_inliers = 5
  watched = watch(cfg)
  c.input(name, first, second)
  c.describe(configuration=name)
  random.seed(int(rng.integers(1 << 30)))
  try:
    out = solve.solve(watched, solve.wrap([ref.dq(m) for m in first]), solve.wrap([ref.dq(m) for m in second]))
  except AssertionError:
    out = (False,)
  if not out[0]:
    c.count("no solution")
    return
  expected = {"prefilter_poses_enabled", "min_num_inliers", "enable_exhaustive_search",
              "hand_eye_calibration_scalar_part_equality_tolerance",
              "ransac_position_error_threshold_m", "ransac_orientation_error_threshold_deg",
              "ransac_evaluate_refined_model_on_inliers_only"}
  if cfg.prefilter_poses_enabled:
    expected.add("prefilter_dot_product_threshold")
  if kind != "baseline":
    expected |= {"ransac_sample_size", "ransac_sample_rejection_scalar_part_equality_tolerance",
                 "ransac_inlier_classification"}
    if kind[1] == "C":
      expected.add("ransac_model_refinement")
  if kind[0] == "R":
    expected |= {"ransac_max_number_iterations", "ransac_max_number_samples", "ransac_enable_early_abort"}
    if cfg.ransac_enable_early_abort:
      expected |= {"ransac_outlier_probability", "ransac_success_probability_threshold"}
  read = object.__getattribute__(watched, "_read")
  c.check("settings read", expected <= read, name, sorted(expected - read))


def alignment_read(c):
  rng = c.rng
  length = 8.0
  body = c08.Bursts(rng, length)
  times = np.arange(-0.5, length + 0.5, 0.04)
  from hand_eye_calibration.quaternion import Quaternion
  quats = [Quaternion(q=np.array(body(t))) for t in times]
  cfg = watch(FilteringConfig())
  c.input(times, [q.q for q in quats])
  calculate_time_offset(times, quats, times + 1.0, quats, cfg)
  read = object.__getattribute__(cfg, "_read")
  expected = {"smoothing_kernel_size_A", "clipping_percentile_A", "smoothing_kernel_size_B", "clipping_percentile_B"}
  c.check("alignment settings read", expected <= read, sorted(expected - read))


GROUPS = [
    Group("listed", listed, 2, 5),
    Group("singles", singles, 40, 200),
    Group("independent", independent, 60, 1500),
    Group("settings", settings, 160, 1600),
    Group("exhaustive", exhaustive, 18, 240),
    Group("settings read", settings_read, 16, 160),
    Group("alignment read", alignment_read, 3, 20)]
REQUIRED = ["every combination once", "prefilter as named", "baseline as named", "optimisation as named",
            "search as named", "inliers as named", "changing one leaves the others",
            "later requests are unaffected", "required inliers respected", "attainable inliers found",
            "filter settings used", "tight pose threshold respected", "tight scalar tolerance respected",
            "tight solver tolerance respected", "wide setting accepts", "errors of the inliers only",
            "errors of all pairs", "sample size respected", "no sample, no solution", "settings read"]
