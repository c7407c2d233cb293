"""C10: solver variants on noisy data and on data with gross outliers."""
import math

import numpy as np

import gen
import ref
import solve
from checks import c13
from core import Group

PROPERTY = "C10"
LEVEL = "exploration"
WORKERS = 8
ASSUMPTIONS = ["outliers differ from every other pair by more than three times the inlier tolerance",
               "at least twenty pose pairs, and enough consistent ones left by the prefilter",
               "noise up to 1 mm and 0.1 degrees; a fifth of that together with outliers"]
# Three times the largest ratio of error to noise seen in a study of 500 runs.
POSITION_FACTOR = 13.0
ANGLE_FACTOR = 5.0


def noisy(rng, m, position, angle):
  d = np.identity(4)
  d[:3, 3] = position * rng.normal(size=3)
  d[:3, :3] = ref.rot(ref.quat(angle * abs(rng.normal()) + 1e-15, gen.direction(rng)))
  return m.dot(d)


def outlier(rng, first, second, i):
  """A second pose for pair i that fits no other pair."""
  a = [solve.scalars(ref.inv(f).dot(first[i])) for f in first]
  while True:
    kind = rng.integers(3)
    if kind == 0:
      w = gen.mild_motion(rng, 1.5)
    elif kind == 1:  # Some other pose of the path.
      w = second[rng.integers(len(second))].dot(gen.mild_motion(rng, 0.2))
    else:
      w = second[i].dot(gen.mild_motion(rng, 1.0))
    d = [np.abs(x - solve.scalars(ref.inv(s).dot(w))) for x, s in zip(a, second)]
    if all(np.max(v) > 0.03 for j, v in enumerate(d) if j != i):
      return w


def places(rng, n, count):
  kind = ["start", "end", "middle", "scattered", "alternating"][rng.integers(5)]
  if kind == "start":
    return kind, list(range(count))
  if kind == "end":
    return kind, list(range(n - count, n))
  if kind == "middle":
    k = (n - count) // 2
    return kind, list(range(k, k + count))
  if kind == "alternating":
    return kind, [2 * i for i in range(count)]
  return kind, sorted(int(i) for i in rng.permutation(n)[:count])


def same_signs(fv, sv):
  return [w if v[3] * w[3] >= 0 else -w for v, w in zip(fv, sv)]


def setup(c, variant, level, share):
  rng = c.rng
  while True:
    kind = ["random", "smooth"][rng.integers(2)]
    n = int(rng.integers(20, 28)) if kind == "random" else int(rng.integers(36, 56))
    if variant.startswith("baseline_filter"):
      n = int(n * 1.5)
    if variant == "EC":
      kind, n = "smooth", 16
    mats = solve.trajectory(rng, kind, n)
    where = solve.MOUNTINGS[rng.integers(len(solve.MOUNTINGS))]
    if where == "far":
      where = "general"
    x, base = solve.mounting(rng, where), gen.mild_motion(rng)
    position, angle = 1e-3 * level, math.radians(0.1) * level
    first = [noisy(rng, m, position, angle) if level else m for m in mats]
    second = [base.dot(m).dot(x) for m in mats]
    if level:
      second = [noisy(rng, m, position, angle) for m in second]
    if solve.conditioning(first, second) < 1.5:
      continue
    count = int(round(n * share))
    where_out, bad = places(rng, n, count)
    for i in bad:
      second[i] = outlier(rng, first, second, i)
    fv, sv = solve.vectors(rng, first), solve.vectors(rng, second)
    if variant.startswith("baseline"):
      sv = same_signs(fv, sv)
    kept = list(range(n))
    if variant in solve.FILTERED:
      kept, margin = c13.select(fv, sv, 0.95)
      if margin < 1e-7 or (variant == "EC" and len(kept) > 11):
        continue
    good = [i for i in kept if i not in bad]
    if len(good) < {"baseline_filter": 14, "baseline_filter_exhaustive": 14}.get(variant, 5):
      continue
    break
  c.input(fv, sv, variant)
  c.describe(variant=variant, trajectory=kind, pairs=n, kept=len(kept), noise=level,
             outliers=bad, placed=where_out, mounting=where, x=ref.pose(x))
  return first, second, fv, sv, x, bad, kept, good


def judge(c, variant, out, x, level, data):
  first, second, fv, sv, _, bad, kept, good = data
  n = len(first)
  if not c.check("success", out[0] is True, out[:5]):
    return
  found = ref.dq_to_transform(out[1].dq)
  e_p, e_o = ref.pose_error(found, x)
  if level:
    c.check("error bounded by the noise", e_p <= POSITION_FACTOR * 1e-3 * level and
            e_o <= ANGLE_FACTOR * 0.1 * level, "position", e_p, "angle", e_o, "level", level)
  else:
    c.check("outliers have no influence", e_p <= 1e-7 and e_o <= 1e-5, "position", e_p, "angle", e_o)
  if not level and np.max(np.abs(found)) < 1e3:
    # Both paths start at one of the consistent pairs.
    reported = np.array(out[2], dtype=float)
    off = min(np.max(np.abs(solve.rmse(found, first, second, k) - reported) /
                     (1e-5 + 1e-5 * np.abs(reported))) for k in range(n) if k not in bad)
    c.check("errors seen from a consistent pair", off <= 1.0, reported, off)
  searched = kept if variant.startswith("baseline") else range(n)
  consistent = len([i for i in searched if i not in bad])
  c.check("no outlier counted", out[3] <= consistent, out[3], "consistent", consistent)
  if not level and not variant == "baseline_no_filter":
    c.check("all consistent pairs counted", out[3] == consistent, out[3], "consistent", consistent)
  if level and not bad and variant.startswith(("RS", "ES")):
    c.check("noise does not turn pairs into outliers", out[3] >= 0.8 * consistent, out[3], consistent)
  c.check("kept poses reported", out[4] == len(kept), out[4], len(kept))


def noise(c):
  variant = [v for v in solve.VARIANTS if v != "EC"][c.index % 9]
  level = float(c.rng.uniform(0.02, 1.0))
  data = setup(c, variant, level, 0.0)
  judge(c, variant, solve.solve(solve.config(variant), solve.wrap(data[2]), solve.wrap(data[3])),
        data[4], level, data)


def outliers(c):
  variant = solve.VARIANTS[c.index % len(solve.VARIANTS)]
  level = [0.0, 0.0, 0.2][c.rng.integers(3)]
  if variant == "EC":
    level = 0.0
  data = setup(c, variant, level, float(c.rng.uniform(0.04, 0.3)))
  judge(c, variant, solve.solve(solve.config(variant), solve.wrap(data[2]), solve.wrap(data[3])),
        data[4], level, data)


def slipped(c):
  """The wrong pairs agree with each other: the camera was mounted differently
  for some of the poses."""
  rng = c.rng
  variant = [v for v in solve.VARIANTS if v != "EC"][c.index % 9]
  while True:
    # The plain baseline takes the first set with more than the required inliers.
    plain = variant in ("baseline_filter", "baseline_no_filter")
    n = int(rng.integers(38, 48))
    if variant.startswith("baseline_filter"):
      n = int(n * 1.5)
    count = int(rng.integers(5, 10)) if plain else int(rng.integers(11, int(0.3 * n) + 1))
    where, bad = places(rng, n, count)
    x, y, base = gen.mild_motion(rng), gen.mild_motion(rng), gen.mild_motion(rng)
    e = ref.pose_error(x, y)
    if e[0] < 0.3 or e[1] < 20.0:
      continue
    first = solve.trajectory(rng, "random", n)
    second = [base.dot(m).dot(x) for m in first]
    good = [i for i in range(n) if i not in bad]
    for i in bad:
      while True:
        second[i] = base.dot(first[i]).dot(y)
        d = [np.max(np.abs(solve.scalars(ref.inv(first[j]).dot(first[i])) -
                           solve.scalars(ref.inv(second[j]).dot(second[i])))) for j in good]
        if min(d) > 0.03:
          break
        first[i] = gen.mild_motion(rng)
    if solve.conditioning([first[i] for i in good], [second[i] for i in good]) < 1.5:
      continue
    fv, sv = solve.vectors(rng, first), solve.vectors(rng, second)
    if variant.startswith("baseline"):
      sv = same_signs(fv, sv)
    kept = list(range(n))
    if variant in solve.FILTERED:
      kept, margin = c13.select(fv, sv, 0.95)
      if margin < 1e-7:
        continue
    left = [i for i in kept if i not in bad]
    if len(left) < (14 if variant.startswith("baseline_filter") else 5) or len(left) < 0.6 * len(kept):
      continue
    break
  c.input(fv, sv, variant)
  c.describe(variant=variant, pairs=n, kept=len(kept), slipped=bad, placed=where,
             x=ref.pose(x), other=ref.pose(y))
  out = solve.solve(solve.config(variant), solve.wrap(fv), solve.wrap(sv))
  c.count("agreeing outliers")
  judge(c, variant, out, x, 0.0, (first, second, fv, sv, x, bad, kept, left))


GROUPS = [
    Group("slipped", slipped, 54, 1200),
    Group("noise", noise, 72, 1800),
    Group("outliers", outliers, 160, 4000)]
REQUIRED = ["success", "errors seen from a consistent pair", "error bounded by the noise", "outliers have no influence",
            "no outlier counted", "all consistent pairs counted", "kept poses reported"]
