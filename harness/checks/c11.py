"""C11: solver outcomes are honest and every run ends."""
import math

import numpy as np

import gen
import ref
import solve
from checks import c10
from checks import c13
from core import Group

PROPERTY = "C11"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["steps are loop iterations and calls inside the repository's code",
               "single axis data with noise stays below the singular value threshold of the solver"]
STEPS = 4000000

HOPELESS = ("inconsistent", "unrelated axes", "unrelated positions", "static", "first static", "second static", "single axis",
            "noisy single axis", "single axis screw", "translation only", "too few",
            "one pair", "nothing")
OPEN = ("mixture", "mostly outliers", "short", "near threshold", "huge noise")


def data(rng, kind):
  n = int(rng.integers(12, 26))
  x, base = gen.mild_motion(rng), gen.mild_motion(rng)
  if kind == "static":
    m = gen.mild_motion(rng)
    return [m] * n, [base.dot(m).dot(x)] * n, x
  if kind == "nothing":
    return [], [], x
  if kind in ("one pair", "too few", "short"):
    n = {"one pair": 1, "too few": int(rng.integers(2, 10)), "short": int(rng.integers(10, 13))}[kind]
  mats = solve.trajectory(rng, ["random", "smooth"][rng.integers(2)], n)
  if kind in ("single axis", "noisy single axis"):
    axis = gen.axis(rng)
    mats = [ref.transform(np.append(rng.uniform(-1, 1, 3), ref.quat(rng.uniform(-1.4, 1.4), axis)))
            for _ in range(n)]
  if kind == "single axis screw":
    axis = gen.axis(rng)
    mats = [ref.transform(np.append(0.3 * a * ref.unit(axis), ref.quat(a, axis)))
            for a in rng.uniform(-1.4, 1.4, n)]
  if kind == "translation only":
    r = gen.mild_motion(rng)
    mats = [ref.transform(np.append(rng.uniform(-1, 1, 3), ref.quat_from_rot(r[:3, :3])))
            for _ in range(n)]
  first = list(mats)
  second = [base.dot(m).dot(x) for m in mats]
  if kind == "inconsistent":
    second = solve.trajectory(rng, "random", n)
  elif kind == "unrelated axes":
    # Seen from the first pose all angles and distances agree, the axes do not.
    second = []
    for m in solve.relative(first, 0):
      y = gen.mild_motion(rng)
      second.append(base.dot(ref.inv(y)).dot(m).dot(y))
  elif kind == "unrelated positions":
    # Seen from the first pose all rotations fit the mounting, the positions do not.
    second = []
    for m in solve.relative(first, 0):
      m = ref.inv(x).dot(m).dot(x)
      away = np.cross(ref.quat_from_rot(m[:3, :3])[:3], gen.direction(rng))
      m[:3, 3] += rng.uniform(2.0, 4.0) * away
      second.append(base.dot(m))
  elif kind == "first static":
    first = [mats[0]] * n
  elif kind == "second static":
    second = [second[0]] * n
  elif kind == "noisy single axis":
    level = 10.0 ** rng.uniform(-4, -1)
    first = [c10.noisy(rng, m, 1e-3 * level, math.radians(0.1) * level) for m in first]
    second = [c10.noisy(rng, m, 1e-3 * level, math.radians(0.1) * level) for m in second]
  elif kind == "mixture":
    y = gen.mild_motion(rng)
    second = [m if rng.integers(2) else base.dot(f).dot(y) for m, f in zip(second, first)]
  elif kind == "mostly outliers":
    second = [m if rng.uniform() < 0.4 else gen.mild_motion(rng) for m in second]
  elif kind == "near threshold":
    level = rng.uniform(2.0, 8.0)
    second = [c10.noisy(rng, m, 1e-3 * level, math.radians(0.1) * level) for m in second]
  elif kind == "huge noise":
    second = [c10.noisy(rng, m, 0.05, 0.05) for m in second]
  return first, second, x


def adjust(rng, cfg):
  """Other settings of the search, each with some probability."""
  changed = {}
  if rng.integers(3) == 0:
    changed["min_num_inliers"] = int(rng.choice([3, 5, 10, 14]))
  if rng.integers(4) == 0:
    changed["ransac_max_number_iterations"] = int(rng.choice([1, 3, 50]))
  if rng.integers(4) == 0:
    changed["ransac_enable_early_abort"] = False
  if rng.integers(4) == 0:
    changed["ransac_evaluate_refined_model_on_inliers_only"] = True
  if rng.integers(5) == 0:
    changed["ransac_model_refinement"] = False
  if rng.integers(5) == 0:
    changed["ransac_outlier_probability"] = float(rng.choice([0.1, 0.5, 0.9]))
  if rng.integers(5) == 0:
    changed["prefilter_dot_product_threshold"] = float(rng.choice([0.8, 0.9, 0.975, 0.99]))
  for k, v in changed.items():
    setattr(cfg, k, v)
  return changed


def valid(c, out, cfg, variant, first, second, fv, sv):
  """What must hold for any reported success."""
  n = len(first)
  v = np.asarray(out[1].dq, dtype=float)
  c.check("finite", np.all(np.isfinite(v)), v)
  c.close("unit length", np.linalg.norm(v[:4]), 1.0, 1e-9)
  size = 1.0 + np.linalg.norm(v[4:])
  c.close("parts orthogonal", np.dot(v[:4], v[4:]) / size, 0.0, 1e-2 if out[7] else 2e-2)
  c.check("non-negative scalar part", v[3] >= 0.0, v)
  least = cfg.min_num_inliers
  if cfg.use_baseline_approach and not cfg.enable_exhaustive_search:
    least += 1
  most = n
  if cfg.prefilter_poses_enabled:
    kept, margin = c13.select(fv, sv, cfg.prefilter_dot_product_threshold)
    if margin > 1e-7:
      c.check("kept poses", out[4] == len(kept), out[4], "expected", len(kept))
    if cfg.use_baseline_approach:
      most = len(kept)
  else:
    c.check("kept poses", out[4] == n, out[4], "expected", n)
  c.check("inlier count", least <= out[3] <= most, out[3], "minimum", least, "pairs", most)
  c.check("run time", np.isfinite(out[5]) and out[5] >= 0.0, out[5])
  s = np.asarray(out[6], dtype=float)
  c.check("singular values", s.shape == (8,) and np.all(np.diff(s) <= 1e-12) and np.all(s >= 0), s)
  if s.shape == (8,) and np.min(np.abs(s - 0.5)) > 1e-9:
    c.check("flag follows the singular values",
            bool(out[7]) == bool(np.any(s[:6] < 0.5) or np.any(s[6:] > 0.5)), s, out[7])
  x = ref.dq_to_transform(v)
  if np.max(np.abs(x)) > 1e4:
    c.count("far solution, errors not compared")
    return
  reported = np.array(out[2], dtype=float)
  if cfg.ransac_evaluate_refined_model_on_inliers_only:
    c.check("errors finite", np.all(np.isfinite(reported)) and np.all(reported >= 0), reported)
    return
  best = np.inf
  for k in range(n):
    r = solve.rmse(x, first, second, k)
    best = min(best, np.max(np.abs(r - reported) / (1e-6 + 1e-6 * np.abs(r) + 1e-7 * np.max(np.abs(x)) +
                                                    np.array([0.0, 1e-4]))))
  c.check("errors are those of the data", best <= 1.0, "reported", reported, "off by", best)


def run(c, kind, variant, cfg, changed):
  first, second, x = data(c.rng, kind)
  fv, sv = solve.vectors(c.rng, first), solve.vectors(c.rng, second)
  if variant.startswith("baseline"):
    sv = c10.same_signs(fv, sv)
  c.input(kind, variant, changed, fv, sv)
  c.describe(kind=kind, variant=variant, pairs=len(fv), changed=changed, x=ref.pose(x))
  try:
    with c.tracer.budget(STEPS):
      out = solve.solve(cfg, solve.wrap(fv), solve.wrap(sv))
  except Exception as e:
    c.check("terminates", True)
    c.count("refused with " + type(e).__name__)
    return None, first, second, fv, sv
  c.check("terminates", True)
  c.count("steps", c.tracer.steps)
  c.check("result complete", len(out) == 8 and isinstance(out[0], bool), out)
  if out[0]:
    valid(c, out, cfg, variant, first, second, fv, sv)
    c.count("success")
  else:
    c.check("no transform with a failure", out[1] is None, out[1])
    c.count("reported failure")
  return out, first, second, fv, sv


def hopeless(c):
  kind = HOPELESS[c.index % len(HOPELESS)]
  variant = solve.VARIANTS[(c.index // len(HOPELESS)) % len(solve.VARIANTS)]
  cfg = solve.config(variant)
  changed = adjust(c.rng, cfg) if c.index % 3 == 2 else {}
  if kind in ("inconsistent", "too few", "one pair", "first static", "second static") and "min_num_inliers" in changed:
    # With a smaller minimum a handful of pairs may fit by chance.
    del changed["min_num_inliers"]
    cfg.min_num_inliers = 10
  if variant == "EC" and "prefilter_dot_product_threshold" in changed:
    del changed["prefilter_dot_product_threshold"]
    cfg.prefilter_dot_product_threshold = 0.95
  if not variant.startswith("RC") or kind not in ("inconsistent", "first static", "second static"):
    # Samples of the other kinds are only rejected after an expensive evaluation.
    cfg.ransac_max_number_samples = 40
  out = run(c, kind, variant, cfg, changed)[0]
  c.check("never presented as good", out is None or not out[0] or bool(out[7]), kind, variant,
          None if out is None else out)


def undecided(c):
  kind = OPEN[c.index % len(OPEN)]
  variant = solve.VARIANTS[(c.index // len(OPEN)) % len(solve.VARIANTS)]
  cfg = solve.config(variant)
  changed = adjust(c.rng, cfg) if c.index % 2 else {}
  if variant == "EC":
    cfg.prefilter_dot_product_threshold = 0.8
    changed["prefilter_dot_product_threshold"] = 0.8
  cfg.ransac_max_number_samples = 150
  run(c, kind, variant, cfg, changed)


def minimum(c):
  """Exact data with just enough pairs, and one less."""
  rng = c.rng
  variant = [v for v in solve.VARIANTS if v != "EC" and not v.startswith("baseline_filter")][c.index % 7]
  cfg = solve.config(variant)
  cfg.min_num_inliers = int(rng.choice([4, 7, 10, 15]))
  cfg.ransac_max_number_samples = 40
  need = cfg.min_num_inliers
  if variant == "baseline_no_filter":
    need += 1
  for n in (need - 1, need):
    while True:
      mats = solve.trajectory(rng, "random", n)
      x, base = gen.mild_motion(rng), gen.mild_motion(rng)
      first, second = mats, [base.dot(m).dot(x) for m in mats]
      fv, sv = solve.vectors(rng, first), solve.vectors(rng, second)
      if (len(c13.select(fv, sv, 0.95)[0]) >= 3 and
          min(solve.conditioning(first, second, k) for k in range(n)) > 0.6):
        break
    c.input(variant, fv, sv)
    c.describe(variant=variant, minimum=cfg.min_num_inliers)
    try:
      with c.tracer.budget(STEPS):
        out = solve.solve(cfg, solve.wrap(fv), solve.wrap(sv))
    except AssertionError:
      out = (False,)
    if n < need:
      c.check("too few pairs are no success", out[0] is False, n, "pairs, minimum", cfg.min_num_inliers, out)
    else:
      c.check("enough pairs are a success", out[0] is True, n, "pairs, minimum", cfg.min_num_inliers, out)
      valid(c, out, cfg, variant, first, second, fv, sv)


GROUPS = [
    Group("hopeless", hopeless, 240, 5500),
    Group("undecided", undecided, 150, 4000),
    Group("minimum", minimum, 28, 700)]
REQUIRED = ["terminates", "never presented as good", "no transform with a failure",
            "errors are those of the data", "inlier count", "kept poses", "unit length",
            "too few pairs are no success", "enough pairs are a success"]
