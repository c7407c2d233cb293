"""C24: random perturbations of an initial guess."""
import math
import runpy

import numpy as np

import gen
import programs
import ref
from core import Group
from hand_eye_calibration.dual_quaternion import DualQuaternion

PROPERTY = "C24"
LEVEL = "exploration"
ASSUMPTIONS = ["ranges at least 0.001 wide, or zero for the delay", "rotation angles up to half a turn"]
# Of 400 draws, some are in each part of a range (1 - 14 * (13/14)^400 > 1 - 2e-12).
PARTS = 14
SCRIPT = "hand_eye_calibration_experiments/bin/optimization_experiments.py"
# The ranges of the study itself.
OWN = ([([0.0, 0.0], [math.radians(15.0 * a), math.radians(15.0 * (a + 1))], [0.1 * t, 0.1 * (t + 1)])
        for a in range(12) for t in range(10)])


def spoil():
  if not hasattr(spoil, "function"):
    spoil.function = runpy.run_path(programs.path_of(SCRIPT), run_name="experiments")["spoil_initial_guess"]
  return spoil.function


def guess(rng):
  m = gen.motion(rng)
  m[:3, 3] = gen.direction(rng) * 10.0 ** rng.uniform(-4, 2) * rng.integers(0, 2)
  delay = float(rng.choice([0.0, -1.0, 1.0])) * 10.0 ** rng.uniform(-4, 3)
  return delay, m, gen.sign(rng) * ref.dq(m)


def inside(v, limits, tol=1e-9):
  return limits[0] - tol <= v <= limits[1] + tol


def judge(c, delay, m, vector, angles, lengths, times):
  dq = DualQuaternion.from_vector(vector.copy())
  with c.unchanged("ranges unchanged", angles, lengths, times):
    out = spoil()(delay, dq, angles, lengths, times)
  # The conversion to a pose normalises in place, which may change the last bits.
  c.close("original unchanged", dq.dq, vector, 1e-14 * (1.0 + float(np.max(np.abs(vector)))))
  c.check("three results", len(out) == 3 and len(out[2]) == 3, len(out))
  new_delay, new, (shift, angle, time) = out
  found = ref.dq_to_transform(new.dq)
  scale = 1.0 + float(np.max(np.abs(m[:3, 3])))
  c.close("delay as reported", new_delay, delay + time, 1e-12 * (1 + abs(delay)))
  c.check("delay in range", inside(abs(new_delay - delay), times, 1e-9 * (1 + abs(delay))), new_delay, delay, times)
  c.close("translation as reported", found[:3, 3], m[:3, 3] + shift, 1e-11 * scale)
  length = float(np.linalg.norm(found[:3, 3] - m[:3, 3]))
  c.check("translation in range", inside(length, lengths, 1e-9 * scale), length, lengths)
  r = found[:3, :3].dot(m[:3, :3].T)
  applied = ref.rot_angle(r)
  c.close("angle as reported", angle, applied, 1e-7)
  c.check("angle in range", inside(applied, angles, 1e-7), applied, angles)
  d = np.asarray(new.dq, dtype=float)
  c.check("valid transform", np.all(np.isfinite(d)) and abs(np.dot(d[:4], d[:4]) - 1) < 1e-9 and
          abs(np.dot(d[:4], d[4:])) < 1e-9 * scale, d)
  return time, shift, angle, r


def single(c):
  rng = c.rng
  if c.index < len(OWN):
    times, angles, lengths = OWN[c.index]
  else:
    low = float(rng.uniform(0, 3.0)) * rng.integers(0, 2)
    angles = [low, low + float(rng.uniform(1e-3, math.pi - low))]
    low = float(rng.uniform(0, 3.0)) * rng.integers(0, 2)
    lengths = [low, low + 10.0 ** rng.uniform(-3, 1)]
    low = float(rng.uniform(0, 0.3)) * rng.integers(0, 2)
    times = [[low, low + 10.0 ** rng.uniform(-3, 0)], [0.0, 0.0]][int(rng.integers(4) == 0)]
  delay, m, vector = guess(rng)
  c.input(delay, vector, angles, lengths, times)
  c.describe(delay=delay, guess=vector, angles=angles, lengths=lengths, times=times)
  for _ in range(3):
    judge(c, delay, m, vector, angles, lengths, times)


def spread(c):
  """Many draws reach all of the range and all directions."""
  rng = c.rng
  low = rng.uniform(0, 1, size=3) * rng.integers(0, 2, size=3)
  wide = rng.uniform(0.1, 1, size=3)
  angles, lengths, times = [[float(a), float(a + b)] for a, b in zip(low, wide)]
  delay, m, vector = guess(rng)
  c.input(delay, vector, angles, lengths, times)
  c.describe(delay=delay, guess=vector, angles=angles, lengths=lengths, times=times)
  seen = []
  for _ in range(400):
    time, shift, angle, r = judge(c, delay, m, vector, angles, lengths, times)
    axis = (r[2, 1] - r[1, 2], r[0, 2] - r[2, 0], r[1, 0] - r[0, 1])
    octant = lambda v: tuple(x > 0 for x in v)
    part = lambda v, limits: min(max(int(PARTS * (v - limits[0]) / (limits[1] - limits[0])), 0), PARTS - 1)
    seen.append((part(abs(time), times), time > 0, part(np.linalg.norm(shift), lengths), octant(shift),
                 part(angle, angles), octant(axis)))
  for k, (name, n) in enumerate((("delays over the range", PARTS), ("delays of both signs", 2),
                                 ("lengths over the range", PARTS), ("shifts in all directions", 8),
                                 ("angles over the range", PARTS), ("axes in all directions", 8))):
    c.check(name, len({s[k] for s in seen}) == n, sorted({s[k] for s in seen}))


GROUPS = [
    Group("single", single, 600, 12000),
    Group("spread", spread, 8, 120)]
REQUIRED = ["delay as reported", "delay in range", "translation as reported", "translation in range",
            "angle as reported", "angle in range", "valid transform", "original unchanged",
            "shifts in all directions", "delays of both signs"]
