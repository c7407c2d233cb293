"""Reference rotation and rigid motion maths.

Written with plain rotation matrices and 4x4 transforms, and sharing no code
with the repository. Quaternions are Hamilton [x, y, z, w]; poses are
[x, y, z, qx, qy, qz, qw].
"""
import math

import numpy as np


def unit(v):
  v = np.asarray(v, dtype=float)
  return v / np.sqrt(np.sum(v * v))


def rot(q):
  """Rotation matrix of a (not necessarily unit) quaternion."""
  x, y, z, w = np.asarray(q, dtype=float)
  n = x * x + y * y + z * z + w * w
  s = 2.0 / n
  return np.array([
      [1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)],
      [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)],
      [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)]])


def qmul(a, b):
  """Hamilton product from scalar/vector parts."""
  a = np.asarray(a, dtype=float)
  b = np.asarray(b, dtype=float)
  v = a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3])
  return np.append(v, a[3] * b[3] - np.dot(a[:3], b[:3]))


def qconj(a):
  return np.array([-a[0], -a[1], -a[2], a[3]], dtype=float)


def quat(angle, axis):
  axis = unit(axis)
  return np.append(axis * math.sin(angle / 2.0), math.cos(angle / 2.0))


def quat_from_rot(m):
  """Quaternion of a rotation matrix: dominant eigenvector (Bar-Itzhack)."""
  m = np.asarray(m, dtype=float)
  k = np.array([
      [m[0, 0] - m[1, 1] - m[2, 2], m[1, 0] + m[0, 1], m[2, 0] + m[0, 2], m[2, 1] - m[1, 2]],
      [m[1, 0] + m[0, 1], m[1, 1] - m[0, 0] - m[2, 2], m[2, 1] + m[1, 2], m[0, 2] - m[2, 0]],
      [m[2, 0] + m[0, 2], m[2, 1] + m[1, 2], m[2, 2] - m[0, 0] - m[1, 1], m[1, 0] - m[0, 1]],
      [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], m[0, 0] + m[1, 1] + m[2, 2]]])
  w, v = np.linalg.eigh(k / 3.0)
  return v[:, int(np.argmax(w))]


def rot_angle(m):
  """Angle in [0, pi] of a rotation matrix, accurate at both ends."""
  v = np.array([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]])
  return math.atan2(np.sqrt(np.sum(v * v)), np.trace(m) - 1.0)


def angle(qa, qb):
  """Angle in [0, pi] of the rotation between two unit quaternions."""
  d = qmul(unit(qa), qconj(unit(qb)))
  return 2.0 * math.atan2(np.sqrt(np.sum(d[:3] ** 2)), abs(d[3]))


def same_rotation(qa, qb):
  """Largest component difference, up to the common sign."""
  qa = np.asarray(qa, dtype=float)
  qb = np.asarray(qb, dtype=float)
  return min(np.max(np.abs(qa - qb)), np.max(np.abs(qa + qb)))


def transform(pose):
  """4x4 transform of a pose [x, y, z, qx, qy, qz, qw]."""
  m = np.identity(4)
  m[:3, :3] = rot(pose[3:7])
  m[:3, 3] = pose[0:3]
  return m


def inv(m):
  out = np.identity(4)
  out[:3, :3] = m[:3, :3].T
  out[:3, 3] = -m[:3, :3].T.dot(m[:3, 3])
  return out


def pose(m):
  q = quat_from_rot(m[:3, :3])
  if q[3] < 0:
    q = -q
  return np.append(m[:3, 3], q)


def dq(m):
  """8-vector [q, 1/2 t q] of a transform."""
  q = quat_from_rot(m[:3, :3])
  if q[3] < 0:
    q = -q
  return np.append(q, 0.5 * qmul(np.append(m[:3, 3], 0.0), q))


def dq_to_transform(v):
  v = np.asarray(v, dtype=float)
  n = np.sqrt(np.sum(v[:4] ** 2))
  q = v[:4] / n
  d = v[4:] / n
  m = np.identity(4)
  m[:3, :3] = rot(q)
  m[:3, 3] = 2.0 * qmul(d, qconj(q))[:3]
  return m


def slerp(qa, qb, f):
  """Shortest arc interpolation through the rotation vector."""
  qa, qb = unit(qa), unit(qb)
  d = qmul(qb, qconj(qa))
  if d[3] < 0:
    d = -d
  n = np.sqrt(np.sum(d[:3] ** 2))
  if n < 1e-300:
    return qa
  a = 2.0 * math.atan2(n, d[3])
  return qmul(quat(f * a, d[:3]), qa)


def pose_error(ma, mb):
  """(position distance, angle in degrees) between two transforms."""
  r = ma[:3, :3].dot(mb[:3, :3].T)
  return (float(np.sqrt(np.sum((ma[:3, 3] - mb[:3, 3]) ** 2))),
          math.degrees(rot_angle(r)))


def screw(m):
  """(unit axis, angle [rad] in [0, pi], translation along the axis)."""
  q = quat_from_rot(m[:3, :3])
  if q[3] < 0:
    q = -q
  n = np.sqrt(np.sum(q[:3] ** 2))
  if n < 1e-13:
    t = np.sqrt(np.sum(m[:3, 3] ** 2))
    if t < 1e-13:
      return np.zeros(3), 0.0, 0.0
    return m[:3, 3] / t, 0.0, t
  axis = q[:3] / n
  return axis, 2.0 * math.atan2(n, q[3]), float(np.dot(axis, m[:3, 3]))
