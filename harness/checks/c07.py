"""C07: aligned pose pairs, against sets of required and allowed stamps."""
import numpy as np

import gen
import ref
from checks import c06
from core import Group
from hand_eye_calibration.time_alignment import compute_aligned_poses

PROPERTY = "C07"
LEVEL = "exploration"
ASSUMPTIONS = ["each sensor has at least two poses with strictly increasing stamps",
               "stamps within 1e-6 s of the 0.1 s gap limit may go either way",
               "if the median steps agree to 1e-6 s either sensor may provide the stamps"]
GAP = 0.1
EDGE = 1e-6


def side(low, high, start):
  """Stamps of low that must be used and that may be used."""
  must, may = set(), set()
  end = min(low[-1], high[-1])
  for t in low:
    if t < start or t > end:
      continue
    if np.any(high == t):
      ok_strict = ok_loose = True
    else:
      left, right = high[high < t], high[high > t]
      if not len(left) or not len(right):
        continue
      gl, gr = t - left[-1], right[0] - t
      ok_strict = gl < GAP - EDGE and gr < GAP - EDGE
      ok_loose = gl < GAP + EDGE and gr < GAP + EDGE
    if ok_loose:
      may.add(float(t))
    if ok_strict and t <= high[-2]:
      must.add(float(t))
  return must, may


def judge(c, a, b, offset):
  with c.unchanged("inputs unchanged", a, b):
    out_a, out_b = compute_aligned_poses(a, b, offset)
  shifted = a.copy()
  shifted[:, 0] = a[:, 0] + offset
  ta, tb = shifted[:, 0], b[:, 0]
  start = max(ta[0], tb[0])
  dt_a, dt_b = np.median(np.diff(ta)), np.median(np.diff(tb))
  options = []
  if dt_a >= dt_b - 1e-6:
    options.append(side(ta, tb, start))
  if dt_b >= dt_a - 1e-6:
    options.append(side(tb, ta, start))
  c.check("equal length", np.shape(out_a) == np.shape(out_b) and out_a.ndim == 2 and
          out_a.shape[1] == 8, np.shape(out_a), np.shape(out_b))
  times = out_a[:, 0]
  c.check("simultaneous", np.array_equal(times, out_b[:, 0]), times, out_b[:, 0])
  c.check("increasing", np.all(np.diff(times) > 0), times)
  used = {float(t) for t in times}
  c.check("only eligible stamps", any(used <= may for _, may in options),
          "not eligible", [sorted(used - may)[:5] for _, may in options])
  c.check("every eligible stamp", any(must <= used for must, _ in options),
          "missing", [sorted(must - used)[:5] for must, _ in options])
  if not any(may for _, may in options):
    c.check("empty without overlap", len(times) == 0, times)
  c.count("aligned pairs", len(times))
  for out, table, name in ((out_a, shifted, "first"), (out_b, b, "second")):
    eps = 1e-10 * (1.0 + np.max(np.abs(table[:, 1:4])))
    for row in out:
      if row[0] < table[0, 0] or row[0] > table[-1, 0]:
        continue  # reported above
      p, q = c06.expected(table, row[0])
      # The repository may treat a difference of an ulp of the stamp either way.
      c.close(name + " sensor position", row[1:4], p, eps, "time", row[0])
      c.check(name + " sensor rotation", ref.same_rotation(row[4:8], q) < 2e-7, row[4:8], q,
              "time", row[0])
  return out_a, out_b


def drop(rng, times, longest):
  """Removes a few stretches of stamps."""
  keep = np.ones(len(times), dtype=bool)
  for _ in range(int(rng.integers(1, 4))):
    i = int(rng.integers(len(times)))
    length = 10.0 ** rng.uniform(-1.5, np.log10(longest))
    keep &= (times < times[i]) | (times > times[i] + length)
  keep[0] = True
  out = times[keep]
  if rng.integers(4) == 0:
    # A break of many seconds.
    out = np.where(out > rng.choice(out), out + rng.uniform(2, 200), out)
  return out if len(out) >= 3 else times


def sensors(rng, dt_a, dt_b, duration, jitter):
  na, nb = max(3, int(duration / dt_a)), max(3, int(duration / dt_b))
  ta = gen.stamps(rng, na, dt_a, jitter)
  tb = gen.stamps(rng, nb, dt_b, jitter, start=rng.uniform(-1, 1) * duration * 0.3)
  return ta, tb


def build(rng, ta, tb, offset, origin):
  """Tables for stamps on the common clock; A's clock lags by offset."""
  body = gen.Smooth(rng, reach=10.0 ** rng.uniform(-1, 1))
  mount = gen.mild_motion(rng)
  base = gen.mild_motion(rng)
  # Stamps on a binary grid, so that clock shifts are exact at any origin.
  grid = 2.0 ** -20
  ta, tb = np.unique(np.round(ta / grid)) * grid, np.unique(np.round(tb / grid)) * grid
  a = gen.table(ta, [body(t) for t in ta], rng)
  b = gen.table(tb, [base.dot(body(t)).dot(mount) for t in tb], rng)
  a[:, 0] += origin - offset
  b[:, 0] += origin
  return a, b


def grid_offset(rng):
  o = float([0.0, 0.25, -3.5, rng.integers(-2000, 2000) / 64.0][rng.integers(4)])
  if rng.integers(6) == 0:
    # Around a microsecond, on the grid of Unix stamps.
    o = float(rng.integers(-9, 10)) * 2.0 ** -22
  elif rng.integers(6) == 0:
    # One clock counts from the start of the system.
    o = float(rng.choice([-1.0, 1.0])) * (1478163000.0 + rng.integers(0, 64) / 64.0)
  return o


def general(c):
  """Different rates, offsets, gaps and time origins."""
  rng = c.rng
  dt_a, dt_b = [float(x) for x in 10.0 ** rng.uniform(-2, -0.7, size=2)]
  ta, tb = sensors(rng, dt_a, dt_b, float(rng.uniform(1, 6)) if rng.integers(8) else 25.0, float(rng.uniform(0, 0.4)))
  if rng.integers(2):
    ta = drop(rng, ta, 1.0)
  if rng.integers(2):
    tb = drop(rng, tb, 1.0)
  offset = grid_offset(rng)
  origin = float(rng.choice([0.0, 0.0, 1000.0, 1478163000.0]))
  a, b = build(rng, ta, tb, offset, origin)
  c.input(a, b, offset)
  c.describe(rows_a=len(a), rows_b=len(b), offset=offset, origin=origin, dt_a=dt_a, dt_b=dt_b)
  judge(c, a, b, offset)


def gaps(c):
  """Long data drops in the faster or slower sensor: median, not mean, decides."""
  rng = c.rng
  fast, slow = 0.02, 0.05
  duration = 6.0
  t_fast = gen.stamps(rng, int(duration / fast), fast, 0.1)
  t_slow = gen.stamps(rng, int(duration / slow), slow, 0.1, start=rng.uniform(-0.5, 0.5))
  which = c.index % 3
  if which in (0, 2):
    i = int(rng.integers(5, 60))
    t_fast = t_fast[(t_fast < t_fast[i]) | (t_fast > t_fast[i] + rng.uniform(3.5, 4.5))]
  if which in (1, 2):
    i = int(rng.integers(5, 60))
    t_slow = t_slow[(t_slow < t_slow[i]) | (t_slow > t_slow[i] + rng.uniform(0.3, 3.0))]
  if rng.integers(3) == 0:
    # Both sensors pause for long.
    pause, start = rng.uniform(4, 300), rng.uniform(1, 5)
    t_fast = np.where(t_fast > start, t_fast + pause, t_fast)
    t_slow = np.where(t_slow > start, t_slow + pause, t_slow)
  offset = grid_offset(rng)
  if rng.integers(2):
    a, b = build(rng, t_fast, t_slow, offset, 0.0)
  else:
    a, b = build(rng, t_slow, t_fast, offset, 0.0)
  c.input(a, b, offset)
  c.describe(rows_a=len(a), rows_b=len(b), offset=offset, drop=["fast", "slow", "both"][which])
  out, _ = judge(c, a, b, offset)


def limits(c):
  """Gaps just below and just above 0.1 s on either side of a stamp."""
  rng = c.rng
  grid = 2.0 ** -20
  slow = np.round(gen.stamps(rng, 12, 0.5, 0.05, start=1.0) / grid) * grid
  high = []
  for t in slow:
    # Neighbours in the fast sensor at chosen distances.
    l = float(rng.choice([0.02, 0.09, 0.0995, 0.1005, 0.12, 10.0 ** rng.uniform(-5, -2)]))
    r = float(rng.choice([0.02, 0.09, 0.0995, 0.1005, 0.12, 10.0 ** rng.uniform(-5, -2)]))
    inside = [t - l, t + r]
    if rng.integers(5) == 0:
      inside.append(t)
    # Many more stamps far from it keep the median step small.
    inside += [t + 0.2 + 0.01 * k for k in range(8)]
    high += inside
  high = np.unique(np.round(np.array(high) / grid)) * grid
  offset = grid_offset(rng)
  if rng.integers(2):
    a, b = build(rng, slow, high, offset, 0.0)
  else:
    a, b = build(rng, high, slow, offset, 0.0)
  c.input(a, b, offset)
  c.describe(rows_a=len(a), rows_b=len(b), offset=offset)
  judge(c, a, b, offset)


def overlap(c):
  """Partial, minimal and missing overlap."""
  rng = c.rng
  dt_a, dt_b = float(rng.uniform(0.02, 0.08)), float(rng.uniform(0.02, 0.08))
  na, nb = int(rng.integers(2, 40)), int(rng.integers(2, 40))
  ta = gen.stamps(rng, na, dt_a, 0.2)
  tb = gen.stamps(rng, nb, dt_b, 0.2)
  kind = c.index % 5
  if kind == 0:
    tb = tb + ta[-1] + 1.0
  elif kind == 1:
    tb = tb - tb[-1] + ta[0] - 1.0
  elif kind == 2:
    tb = tb - tb[0] + ta[-1]
  elif kind == 3:
    tb = tb - tb[-1] + ta[0]
  else:
    tb = tb + rng.uniform(0.5, 1.0) * (ta[-1] - ta[0])
  offset = grid_offset(rng)
  a, b = build(rng, ta, tb, offset, float(rng.choice([0.0, 1478163000.0])))
  c.input(a, b, offset)
  c.describe(rows_a=len(a), rows_b=len(b), offset=offset,
             kind=["after", "before", "touching", "touching", "partial"][kind])
  judge(c, a, b, offset)


def identical(c):
  """Identical stamps, and every n-th stamp of the other sensor."""
  rng = c.rng
  n = int(rng.integers(4, 40))
  t = np.cumsum(rng.integers(20000, 60000, size=n)) * 2.0 ** -20
  k = int(rng.integers(1, 4))
  ta, tb = t, t[int(rng.integers(0, 2))::k]
  if len(tb) < 2:
    tb = t
  if rng.integers(2):
    ta, tb = tb, ta
  offset = grid_offset(rng)
  a, b = build(rng, ta, tb, offset, float(rng.choice([0.0, 1478163000.0])))
  c.input(a, b, offset)
  out_a, out_b = judge(c, a, b, offset)
  # At common stamps the aligned poses are the recorded ones.
  for row in out_a:
    k = np.nonzero(a[:, 0] + offset == row[0])[0]
    if len(k):
      c.close("recorded pose kept", row[1:4], a[k[0], 1:4], 1e-12)


def shift(c):
  """A change of the time origin changes the stamps only."""
  rng = c.rng
  ta, tb = sensors(rng, 0.03, float(rng.uniform(0.02, 0.08)), 2.0, 0.3)
  offset = grid_offset(rng)
  a, b = build(rng, ta, tb, offset, 0.0)
  origin = float(rng.choice([-512.0, 86400.0, 1478163000.0]))
  c.input(a, b, offset, origin)
  one = compute_aligned_poses(a, b, offset)
  am, bm = a.copy(), b.copy()
  am[:, 0] += origin
  bm[:, 0] += origin
  two = compute_aligned_poses(am, bm, offset)
  for x, y in zip(one, two):
    same = np.shape(x) == np.shape(y)
    c.check("shift: same pairs", same and np.allclose(x[:, 0] + origin, y[:, 0], rtol=0, atol=1e-6),
            np.shape(x), np.shape(y))
    if same:
      c.close("shift: same positions", y[:, 1:4], x[:, 1:4], 1e-6)


GROUPS = [
    Group("general", general, 100, 2500),
    Group("gaps", gaps, 18, 400),
    Group("limits", limits, 60, 1500),
    Group("overlap", overlap, 80, 2000),
    Group("identical", identical, 60, 1500),
    Group("shift", shift, 30, 600)]
REQUIRED = ["equal length", "simultaneous", "increasing", "only eligible stamps",
            "every eligible stamp", "empty without overlap", "first sensor position",
            "second sensor position", "first sensor rotation", "second sensor rotation",
            "inputs unchanged"]
