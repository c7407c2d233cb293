"""C04: orientation interpolation and angular velocity."""
import math

import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.quaternion import (
    Quaternion, angular_velocity_between_quaternions, quaternion_lerp,
    quaternion_nlerp, quaternion_slerp, quaternions_interpolate)

PROPERTY = "C04"
LEVEL = "exploration"
ASSUMPTIONS = ["orientations less than a half turn minus 1e-6 rad apart, where "
               "the shortest arc is unique; exact half turns are only required "
               "to stay on one of the two arcs"]
# arccos of a rounded cosine near one limits the repository to about 2e-8 rad.
TOL = 1e-7


def Q(v):
  return Quaternion(q=np.array(v, dtype=float))


def pair(rng):
  a = gen.quat(rng)
  kind = rng.integers(8)
  tiny = 10.0 ** rng.uniform(-12, -2)
  if kind == 0:
    b = a.copy()
  elif kind == 1:
    b = ref.qmul(ref.quat(tiny, gen.axis(rng)), a)
  elif kind == 2:
    b = ref.qmul(ref.quat(math.pi - 10.0 ** rng.uniform(-5, -1), gen.axis(rng)), a)
  elif kind == 3:
    b = ref.qmul(ref.quat(rng.uniform(0, 0.2), gen.axis(rng)), a)
  else:
    b = ref.qmul(ref.quat(rng.uniform(0, math.pi - 1e-4), gen.axis(rng)), a)
  return ref.unit(a), gen.sign(rng) * ref.unit(b)


def fraction(rng):
  small = float(10.0 ** rng.uniform(-8, -1))
  return [0.0, 1.0, 0.5, 0.25, 1e-9, 1.0 - 1e-9, small, 1.0 - small, float(rng.random()), float(rng.random()),
          float(rng.random())][rng.integers(11)]


def slerp(c):
  rng = c.rng
  a, b = pair(rng)
  f = fraction(rng)
  c.input(a, b, f)
  c.describe(a=a, b=b, fraction=f)
  qa, qb = Q(a), Q(b)
  arc = ref.angle(a, b)
  with c.unchanged("operands unchanged", qa, qb):
    first, last = quaternion_slerp(qa, qb, 0.0), quaternion_slerp(qa, qb, 1.0)
    mid = quaternion_slerp(qa, qb, f)
    back = quaternion_slerp(qb, qa, 1.0 - f)
    flipped = quaternion_slerp(Q(-a), qb, f)
    flipped_2 = quaternion_slerp(qa, Q(-b), f)
  c.check("hits the ends", ref.same_rotation(first.q, a) < 1e-12 and
          ref.same_rotation(last.q, b) < 1e-12, first.q, last.q)
  c.close("unit length", np.linalg.norm(mid.q), 1.0, TOL)
  expected = ref.slerp(a, b, f)
  c.check("shortest arc", ref.same_rotation(mid.q, expected) < TOL,
          "observed", mid.q, "expected", expected, "fraction", f)
  c.close("angle grows with the fraction", ref.angle(a, mid.q), f * arc, 2 * TOL)
  c.close("angle grows with the fraction", ref.angle(mid.q, b), (1 - f) * arc, 2 * TOL)
  c.check("reversed", ref.same_rotation(mid.q, back.q) < 2 * TOL, mid.q, back.q)
  c.check("sign does not matter", ref.same_rotation(mid.q, flipped.q) < 2 * TOL, mid.q, flipped.q)
  c.check("sign does not matter", ref.same_rotation(mid.q, flipped_2.q) < 2 * TOL, mid.q, flipped_2.q)
  # Changing the frame changes the result by that frame only.
  g = gen.quat(rng)
  moved = quaternion_slerp(Q(ref.qmul(g, a)), Q(ref.qmul(g, b)), f)
  c.check("frame independent", ref.same_rotation(moved.q, ref.qmul(g, expected)) < 2 * TOL, moved.q)


def speed(c):
  """Equal steps of the fraction give equal steps of the angle."""
  rng = c.rng
  a, b = pair(rng)
  n = int(rng.integers(2, 12))
  c.input(a, b, n)
  qs = [quaternion_slerp(Q(a), Q(b), i / float(n)).q for i in range(n + 1)]
  steps = [ref.angle(qs[i], qs[i + 1]) for i in range(n)]
  c.close("constant speed", steps, [ref.angle(a, b) / n] * n, 4 * TOL)


def half_turn(c):
  """Exactly opposite orientations: either arc, but on an arc at constant speed."""
  rng = c.rng
  a = gen.quat(rng)
  b = gen.sign(rng) * ref.qmul(ref.quat(math.pi, gen.axis(rng)), a)
  f = fraction(rng)
  c.input(a, b, f)
  mid = quaternion_slerp(Q(ref.unit(a)), Q(ref.unit(b)), f)
  c.close("half turn unit length", np.linalg.norm(mid.q), 1.0, TOL)
  c.close("half turn speed", ref.angle(a, mid.q), f * math.pi, TOL)
  c.close("half turn speed", ref.angle(mid.q, b), (1 - f) * math.pi, TOL)


def linear(c):
  rng = c.rng
  a, b = pair(rng)
  f = fraction(rng)
  c.input(a, b, f)
  qa, qb = Q(a), Q(b)
  with c.unchanged("operands unchanged", qa, qb):
    lin = quaternion_lerp(qa, qb, f)
    blend = a + f * (b - a)
    c.close("linear blend", lin.q, blend, 1e-12)
    if np.linalg.norm(blend) > 1e-6:
      nor = quaternion_nlerp(qa, qb, f)
      c.close("normalised blend", nor.q, ref.unit(blend), 1e-9)
    c.check("linear hits the ends", ref.same_rotation(quaternion_nlerp(qa, qb, 0.0).q, a) < 1e-9 and
            ref.same_rotation(quaternion_nlerp(qa, qb, 1.0).q, b) < 1e-9)


def by_time(c):
  rng = c.rng
  a, b = pair(rng)
  t0 = gen.time_origin(rng) + rng.uniform(0, 10)
  dt = 10.0 ** rng.uniform(-3, 2)
  t1 = t0 + dt
  n = int(rng.integers(1, 8))
  times = np.sort(rng.uniform(t0, t1, size=n))
  if rng.integers(2):
    times[0] = t0
    times[-1] = t1
  times = np.clip(times, t0, t1)
  order = rng.integers(4)
  if order == 0:
    times = rng.permutation(times)
  elif order == 1:
    times = np.append(times, times[rng.integers(n)])
    n += 1
  c.input(a, b, times)
  c.describe(t_left=t0, t_right=t1, times=times)
  with c.unchanged("operands unchanged", times):
    out = quaternions_interpolate(Q(a), t0, Q(b), t1, times)
  c.check("one orientation per time", len(out) == n, len(out))
  for t, q in zip(times, out):
    f = (t - t0) / (t1 - t0)
    c.check("fraction of elapsed time", ref.same_rotation(q.q, ref.slerp(a, b, f)) < TOL,
            q.q, "fraction", f)


def velocity(c):
  rng = c.rng
  a, b = pair(rng)
  dt = 10.0 ** rng.uniform(-4, 2)
  if rng.integers(2):
    scale = 1.0
  else:
    scale = 10.0 ** rng.uniform(-1, 1)
  c.input(a, b, dt, scale)
  c.describe(a=a, b=b, dt=dt)
  qa, qb = Q(a * scale), Q(b * scale)
  with c.unchanged("operands unchanged", qa, qb):
    w = np.asarray(angular_velocity_between_quaternions(qa, qb, dt), dtype=float)
  c.check("velocity finite", w.shape == (3,) and np.all(np.isfinite(w)), w)
  v = w * dt
  n = np.linalg.norm(v)
  reached = ref.qmul(ref.quat(n, v), ref.unit(a)) if n > 0 else ref.unit(a)
  c.check("velocity reaches the second orientation", ref.same_rotation(reached, ref.unit(b)) < 1e-9,
          "velocity", w, "reached", reached, "expected", b)
  c.close("velocity along the shortest arc", n, ref.angle(a, b), 1e-9)
  rev = np.asarray(angular_velocity_between_quaternions(qb, qa, dt))
  c.close("velocity reversed", rev * dt, -v, 1e-8)
  slow = np.asarray(angular_velocity_between_quaternions(qa, qb, 2.0 * dt))
  c.close("velocity scales with time", slow * dt * 2.0, v, 1e-8)


GROUPS = [
    Group("slerp", slerp, 1200, 40000),
    Group("speed", speed, 200, 5000),
    Group("half turn", half_turn, 200, 5000),
    Group("linear", linear, 400, 10000),
    Group("by time", by_time, 500, 15000),
    Group("velocity", velocity, 1200, 40000)]
REQUIRED = ["hits the ends", "unit length", "shortest arc", "angle grows with the fraction",
            "sign does not matter", "fraction of elapsed time", "constant speed",
            "velocity reaches the second orientation", "velocity along the shortest arc",
            "linear blend", "normalised blend"]
