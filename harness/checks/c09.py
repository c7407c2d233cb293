"""C09: every solver variant on exact data."""
import math

import numpy as np

import gen
import ref
import solve
from checks import c13
from core import Group
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    align_paths_at_index, compute_hand_eye_calibration)

PROPERTY = "C09"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["at least twelve pose pairs, so that the configured minimum of ten inliers can be met",
               "enough pairs with distinct screw axes remain when a variant prefilters",
               "no relative rotation of exactly half a turn",
               "motions and mounting for which the published linear system has full rank"]


def problem(rng, kind, where, n):
  mats = solve.trajectory(rng, kind, n)
  x = solve.mounting(rng, where)
  a, b = solve.base(rng), solve.base(rng)
  first = [a.dot(m) for m in mats]
  second = [b.dot(m).dot(x) for m in mats]
  return first, second, x


def exact_tolerance(first, second):
  return 1e-9 * (10.0 + max(np.max(np.abs(m)) for m in first + second))


def judge(c, result, cfg, first, second, x):
  c.check("success", result[0] is True, result[:5])
  if not result[0]:
    return
  tol = exact_tolerance(first, second)
  found = ref.dq_to_transform(result[1].dq)
  reach = 1.0 + max(np.max(np.abs(m[:3, 3])) for m in solve.relative(first, 0) + [x])
  c.close("rotation found", found[:3, :3], x[:3, :3], 100 * tol)
  c.close("translation found", found[:3, 3], x[:3, 3], 100 * tol * reach)
  c.check("position error is zero", 0.0 <= result[2][0] <= 300 * tol * reach, result[2][0])
  c.check("orientation error is zero", 0.0 <= result[2][1] <= 1e-2 * math.sqrt(tol) + 1e4 * tol,
          result[2][1])
  s = np.asarray(result[6], dtype=float)
  c.check("well conditioned", s.shape == (8,) and not result[7], s, result[7])


def enough(variant, first_v, second_v):
  """Whether the pairs left by the prefilter are enough for this variant."""
  if variant not in solve.FILTERED:
    return True, len(first_v)
  kept, margin = c13.select(first_v, second_v, 0.95)
  need = {"baseline_filter": 11, "baseline_filter_exhaustive": 10}.get(variant, 3)
  return len(kept) >= need and margin > 1e-7, len(kept)


def variants(c):
  rng = c.rng
  variant = solve.VARIANTS[c.index % len(solve.VARIANTS)]
  cfg = solve.config(variant)
  while True:
    kind = solve.TRAJECTORIES[rng.integers(len(solve.TRAJECTORIES))]
    where = solve.MOUNTINGS[rng.integers(len(solve.MOUNTINGS))]
    n = int(rng.integers(12, 24))
    if variant == "EC":
      n = 12
    elif kind in ("smooth", "steps", "pauses"):
      n = int(rng.integers(30, 50))
    if variant != "EC" and rng.integers(12) == 0:
      n = int(rng.integers(105, 160))
    if variant == "baseline_filter_exhaustive" and kind == "steps":
      continue
    first, second, x = problem(rng, kind, where, n)
    if min(solve.conditioning(first, second, k) for k in range(0, n, 3)) < 0.8:
      continue
    fv, sv = solve.vectors(rng, first), solve.vectors(rng, second)
    if variant.startswith("baseline"):
      # The baseline gives both rotations of a pair the same sign first.
      sv = [w if v[3] * w[3] >= 0 else -w for v, w in zip(fv, sv)]
    ok, kept = enough(variant, fv, sv)
    if ok and (variant != "EC" or kept <= 12):
      break
    c.count("problems skipped, too few distinct pairs")
  c.input(fv, sv, variant)
  c.describe(variant=variant, trajectory=kind, mounting=where, pairs=n, kept=kept, x=ref.pose(x))
  judge(c, solve.solve(cfg, solve.wrap(fv), solve.wrap(sv)), cfg, first, second, x)


def invariance(c):
  """The same data in other frames, signs and orders gives the same answer."""
  rng = c.rng
  variant = solve.VARIANTS[c.index % len(solve.VARIANTS)]
  if variant == "EC":
    variant = "ES"
  cfg = solve.config(variant)
  n = int(rng.integers(14, 22))
  while True:
    mats = solve.trajectory(rng, "random", n)
    x = solve.mounting(rng, solve.MOUNTINGS[rng.integers(len(solve.MOUNTINGS))])
    runs = []
    for _ in range(3):
      a, b = solve.base(rng), solve.base(rng)
      order = rng.permutation(n)
      first = [a.dot(mats[i]) for i in order]
      second = [b.dot(mats[i]).dot(x) for i in order]
      fv, sv = solve.vectors(rng, first), solve.vectors(rng, second)
      if variant.startswith("baseline"):
        sv = [w if v[3] * w[3] >= 0 else -w for v, w in zip(fv, sv)]
      runs.append((first, second, fv, sv))
    if all(enough(variant, r[2], r[3])[0] for r in runs):
      break
  c.input(mats, x, variant)
  c.describe(variant=variant, pairs=n, x=ref.pose(x))
  found = []
  for first, second, fv, sv in runs:
    out = solve.solve(cfg, solve.wrap(fv), solve.wrap(sv))
    judge(c, out, cfg, first, second, x)
    if out[0]:
      found.append(out[1].dq)
  for f in found[1:]:
    c.close("independent of frames, signs and order", ref.dq_to_transform(f),
            ref.dq_to_transform(found[0]), 1e-4)


def core(c):
  """The linear solution itself, from three pairs up."""
  rng = c.rng
  kind = solve.TRAJECTORIES[rng.integers(len(solve.TRAJECTORIES))]
  where = solve.MOUNTINGS[rng.integers(len(solve.MOUNTINGS))]
  while True:
    n = int(rng.integers(3, 7)) if kind not in ("smooth", "pauses") else int(rng.integers(8, 30))
    if rng.integers(20) == 0:
      n = int(rng.integers(60, 220))
    first, second, x = problem(rng, kind, where, n)
    k = int(rng.integers(n))
    if solve.conditioning(first, second, k) > 0.2:
      break
  c.input(first, second)
  c.describe(trajectory=kind, mounting=where, pairs=n, x=ref.pose(x))
  a = align_paths_at_index(solve.wrap(solve.vectors(rng, first)), k)
  b = align_paths_at_index(solve.wrap(solve.vectors(rng, second)), k)
  for p in a[1:] + b[1:]:
    # The signs of the pairs may disagree, in either way.
    if rng.integers(2):
      p.dq = -p.dq
  out, s, bad = compute_hand_eye_calibration(a, b)
  tol = exact_tolerance(first, second)
  reach = 1.0 + max(np.max(np.abs(m[:3, 3])) for m in solve.relative(first, 0) + [x])
  found = ref.dq_to_transform(out.dq)
  c.close("rotation found", found[:3, :3], x[:3, :3], 300 * tol * reach)
  c.close("translation found", found[:3, 3], x[:3, 3], 300 * tol * reach ** 2)
  c.check("non-negative scalar part", out.dq[3] >= 0.0, out.dq)
  c.close("unit length", np.linalg.norm(out.dq[:4]), 1.0, 1e-9)
  c.close("parts orthogonal", np.dot(out.dq[:4], out.dq[4:]), 0.0, 1e-6 * reach)
  s = np.asarray(s, dtype=float)
  c.check("two vanishing singular values", s.shape == (8,) and np.all(s[6:] < 1e-6 * reach), s)
  if np.min(np.abs(s - 0.5)) > 1e-9 and s.shape == (8,):
    c.check("flag follows the singular values", bool(bad) == bool(np.any(s[:6] < 0.5) or
                                                                  np.any(s[6:] > 0.5)), s, bad)


GROUPS = [
    Group("variants", variants, 160, 4000),
    Group("invariance", invariance, 30, 600),
    Group("core", core, 400, 15000)]
REQUIRED = ["success", "rotation found", "translation found", "position error is zero",
            "orientation error is zero", "well conditioned",
            "independent of frames, signs and order", "two vanishing singular values"]
