"""The few tf.transformations functions the repository uses (x, y, z, w)."""
import math

import numpy as np


def quaternion_matrix(quaternion):
  x, y, z, w = np.array(quaternion[:4], dtype=float) / np.linalg.norm(quaternion[:4])
  m = np.identity(4)
  m[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
               [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
               [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
  return m


def random_quaternion(rand=None):
  rand = np.random.rand(3) if rand is None else rand
  r1, r2 = math.sqrt(1.0 - rand[0]), math.sqrt(rand[0])
  t1, t2 = 2.0 * math.pi * rand[1], 2.0 * math.pi * rand[2]
  return np.array([math.sin(t1) * r1, math.cos(t1) * r1,
                   math.sin(t2) * r2, math.cos(t2) * r2])


def random_rotation_matrix(rand=None):
  return quaternion_matrix(random_quaternion(rand))


def random_vector(size):
  return np.random.random(size)


def translation_matrix(direction):
  m = np.identity(4)
  m[:3, 3] = direction[:3]
  return m


def quaternion_from_euler(ai, aj, ak, axes='sxyz'):
  assert axes == 'sxyz'
  def q(angle, axis):
    v = np.zeros(4)
    v[axis] = math.sin(angle / 2.0)
    v[3] = math.cos(angle / 2.0)
    return v
  def mul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return np.array([aw * bx + ax * bw + ay * bz - az * by,
                     aw * by - ax * bz + ay * bw + az * bx,
                     aw * bz + ax * by - ay * bx + az * bw,
                     aw * bw - ax * bx - ay * by - az * bz])
  return mul(q(ak, 2), mul(q(aj, 1), q(ai, 0)))
