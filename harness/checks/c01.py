"""C01: quaternion arithmetic against Hamilton's rules and rotation matrices."""
import numpy as np

import gen
import ref
from core import Group
from hand_eye_calibration.quaternion import Quaternion

PROPERTY = "C01"
LEVEL = "exploration"
ASSUMPTIONS = ["quaternion lengths between 1e-7 and 1e9"]


def Q(v):
  return Quaternion(q=np.array(v, dtype=float))


def any_quat(rng):
  kind = rng.integers(5)
  if kind == 0:
    return gen.quat(rng)
  if kind == 1:
    return np.round(rng.uniform(-4, 4, size=4)) + np.array([0, 0, 0, 0.5])
  v = ref.unit(rng.normal(size=4)) * 10.0 ** rng.uniform(-7, 6)
  if kind == 2:
    v[rng.integers(4)] = 0.0
  if kind == 3:
    k = rng.integers(4)
    v[k] *= 1e3
  return v


def pair(rng):
  a = any_quat(rng)
  kind = rng.integers(6)
  if kind == 0:
    return a, a.copy()
  if kind == 1:
    return a, -a
  if kind == 2:
    return a, a + 1e-9 * np.linalg.norm(a) * rng.normal(size=4)
  return a, any_quat(rng)


def algebra(c):
  """All operations on a pair of arbitrary quaternions."""
  rng = c.rng
  a, b = pair(rng)
  s = float(rng.uniform(-5, 5)) or 1.0
  c.input(a, b, s)
  c.describe(a=a, b=b, s=s)
  qa, qb = Q(a), Q(b)
  na, nb = np.linalg.norm(a), np.linalg.norm(b)
  eps = 1e-12
  with c.unchanged("operands unchanged", qa, qb):
    c.close("product", (qa * qb).q, ref.qmul(a, b), eps * na * nb)
    c.close("sum", (qa + qb).q, a + b, 0.0)
    c.close("difference", (qa - qb).q, a - b, 0.0)
    c.close("negation", (-qa).q, -a, 0.0)
    c.close("scalar product", (qa * s).q, a * s, eps * na * abs(s))
    c.close("scalar product", (s * qa).q, a * s, eps * na * abs(s))
    c.close("scalar product", (qa * 3).q, a * 3, eps * na * 3)
    c.close("scalar product", (np.float64(s) * qa).q, a * s, eps * na * abs(s))
    c.close("scalar quotient", (qa / s).q, a / s, eps * na / abs(s))
    c.close("scalar quotient", (qa / 2).q, a / 2, eps * na)
    c.close("conjugate", qa.conjugate().q, ref.qconj(a), 0.0)
    c.close("squared norm", qa.squared_norm(), np.sum(a * a), eps * na * na)
    c.close("norm", qa.norm(), na, eps * na)
    inverse = ref.qconj(a) / (na * na)
    c.close("inverse", qa.inverse().q, inverse, eps / na)
    c.close("inverse cancels", (qa * qa.inverse()).q, [0, 0, 0, 1], 1e-11)
    c.close("inverse cancels", (qa.inverse() * qa).q, [0, 0, 0, 1], 1e-11)
    c.close("quotient", (qa / qb).q, ref.qmul(a, ref.qconj(b)) / (nb * nb), eps * na / nb)
    # One object on both sides.
    c.close("product", (qa * qa).q, ref.qmul(a, a), eps * na * na)
    c.close("quotient", (qa / qa).q, [0, 0, 0, 1], 1e-11)
    c.close("sum", (qa + qa).q, 2.0 * a, 0.0)
    c.close("difference", (qa - qa).q, np.zeros(4), 0.0)
    # Whole numbers of any kind, and negative ones.
    k = int(rng.integers(1, 9)) * (-1) ** int(rng.integers(2))
    for whole in (k, np.int64(k), np.float32(k)):
      c.close("scalar product", (qa * whole).q, a * float(whole), eps * na * 9)
      c.close("scalar product", (k * qa).q, a * float(k), eps * na * 9)
      c.close("scalar quotient", (qa / whole).q, a / float(whole), eps * na)
    # Assignment operators change the name they are applied to, and no other.
    for name, other, expected in (("product", qb, ref.qmul(a, b)), ("product", s, a * s),
                                  ("sum", qb, a + b), ("difference", qb, a - b),
                                  ("quotient", qb, ref.qmul(a, ref.qconj(b)) / (nb * nb)),
                                  ("quotient", s, a / s)):
      mine = qa
      if name == "product":
        mine *= other
      elif name == "sum":
        mine += other
      elif name == "difference":
        mine -= other
      else:
        mine /= other
      c.close(name + " assigned", mine.q, expected, eps * max(np.linalg.norm(expected), na))
    c.close("components", [qa.x, qa.y, qa.z, qa.w], a, 0.0)
    copied = qa.copy()
    c.close("copy", copied.q, a, 0.0)
    copied.q[0] += 1.0
    copied.normalize()
    fresh = Quaternion(*[float(v) for v in a])
    c.close("components", fresh.q, a, 0.0)
  n = qa.copy()
  n.normalize()
  c.close("normalised", n.q, a / na, 1e-12)
  # Results are values of their own.
  source = np.array(a)
  q = Quaternion(q=source)
  source[:] = 9.0
  c.close("independent values", q.q, a, 0.0)
  result = -qa
  result.q[:] = 5.0
  c.close("independent values", qa.q, a, 0.0)
  result = qa.conjugate()
  result.q[:] = 5.0
  result = qa * 1.0
  result.q[:] = 5.0
  result = qa / 1.0
  result.q[:] = 5.0
  c.close("independent values", qa.q, a, 0.0)
  c.close("independent values", Quaternion().q, [0, 0, 0, 1], 0.0)


def integers(c):
  """Integer components behave like the same floating point numbers."""
  rng = c.rng
  a = [int(x) for x in rng.integers(-5, 6, size=4)]
  b = [int(x) for x in rng.integers(-5, 6, size=4)]
  a[rng.integers(4)] = 7
  b[rng.integers(4)] = -3
  c.input(a, b)
  qa, qb = Quaternion(*a), Quaternion(*b)
  fa, fb = np.array(a, dtype=float), np.array(b, dtype=float)
  c.close("product", (qa * qb).q, ref.qmul(fa, fb), 1e-10)
  c.close("scalar quotient", (qa / 2).q, fa / 2, 1e-12)
  c.close("scalar product", (qa * 0.5).q, fa / 2, 1e-12)
  c.close("inverse", qa.inverse().q, ref.qconj(fa) / np.sum(fa * fa), 1e-12)
  c.close("quotient", (qa / qb).q, ref.qmul(fa, ref.qconj(fb)) / np.sum(fb * fb), 1e-10)
  qa.normalize()
  c.close("normalised", qa.q, ref.unit(fa), 1e-12)


def associative(c):
  """Algebraic laws on triples."""
  rng = c.rng
  a, b, d = any_quat(rng), any_quat(rng), any_quat(rng)
  c.input(a, b, d)
  qa, qb, qd = Q(a), Q(b), Q(d)
  n = np.linalg.norm(a) * np.linalg.norm(b) * np.linalg.norm(d)
  c.close("associative", ((qa * qb) * qd).q, (qa * (qb * qd)).q, 1e-11 * n)
  m = np.linalg.norm(a) * (np.linalg.norm(b) + np.linalg.norm(d))
  c.close("distributive", (qa * (qb + qd)).q, ((qa * qb) + (qa * qd)).q, 1e-11 * m)
  c.close("norm of product", (qa * qb).norm(), qa.norm() * qb.norm(), 1e-11 * qa.norm() * qb.norm())
  c.close("conjugate of product", (qa * qb).conjugate().q,
          (qb.conjugate() * qa.conjugate()).q, 1e-11 * qa.norm() * qb.norm())
  for u in range(4):
    for v in range(4):
      eu, ev = np.eye(4)[u], np.eye(4)[v]
      c.close("basis products", (Q(eu) * Q(ev)).q, ref.qmul(eu, ev), 0.0)


def rotations(c):
  """Unit quaternions act on vectors as rotations."""
  rng = c.rng
  a, b = gen.quat(rng), gen.quat(rng)
  if rng.integers(6) == 0:
    b = -a
  v = gen.direction(rng) * 10.0 ** rng.uniform(-3, 4)
  if rng.integers(8) == 0:
    v = np.zeros(3)
  c.input(a, b, v)
  c.describe(a=a, b=b, v=v)
  qa, qb = Q(a), Q(b)
  n = np.linalg.norm(v) + 1e-9
  eps = 1e-12 * n
  ra, rb = ref.rot(a), ref.rot(b)
  with c.unchanged("operands unchanged", qa, qb, v):
    c.close("rotate vector", qa.rotate_vector(v), ra.dot(v), eps)
    c.close("composition", (qa * qb).rotate_vector(v), ra.dot(rb.dot(v)), 3 * eps)
    c.close("inverse rotation", qa.inverse().rotate_vector(qa.rotate_vector(v)), v, 3 * eps)
    c.close("inverse rotation", qa.conjugate().rotate_vector(v), ra.T.dot(v), eps)
    c.close("sign of quaternion", (-qa).rotate_vector(v), ra.dot(v), eps)
    c.close("length kept", np.linalg.norm(qa.rotate_vector(v)), np.linalg.norm(v), 3 * eps)
    # Sandwich product q v q^-1.
    sandwich = qa * Q(np.append(v, 0.0)) * qa.inverse()
    c.close("sandwich product", sandwich.q, np.append(ra.dot(v), 0.0), 5 * eps)
    c.close("rotate vector", qa.rotate_vector([float(x) for x in v]), ra.dot(v), eps)
    whole = rng.integers(-9, 10, size=3)
    for given in (whole, [int(x) for x in whole], whole.astype(np.float32)):
      c.close("rotate whole numbers", qa.rotate_vector(given), ra.dot(whole), 1e-10)


def long_products(c):
  """Long products stay unit and equal the matrix product."""
  rng = c.rng
  n = int(rng.integers(5, 60))
  qs = [gen.quat(rng) for _ in range(n)]
  c.input(*qs)
  total, m = Q([0, 0, 0, 1]), np.identity(3)
  for q in qs:
    total = total * Q(q)
    m = m.dot(ref.rot(q))
  c.close("long product", total.to_rotation_matrix(), m, 1e-11)
  c.close("long product norm", total.norm(), 1.0, 1e-12)
  back = total
  for q in reversed(qs):
    back = back / Q(q)
  c.check("long quotient", ref.same_rotation(back.q, [0, 0, 0, 1]) < 1e-11, back.q)


GROUPS = [
    Group("algebra", algebra, 1500, 60000),
    Group("integers", integers, 100, 2000),
    Group("laws", associative, 300, 8000),
    Group("rotations", rotations, 1500, 60000),
    Group("long products", long_products, 150, 4000)]
REQUIRED = ["product", "sum", "difference", "negation", "scalar product", "scalar quotient",
            "conjugate", "norm", "squared norm", "inverse", "quotient", "normalised",
            "rotate vector", "composition", "inverse rotation", "operands unchanged"]
