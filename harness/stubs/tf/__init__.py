"""Minimal stand-in for the ROS tf package.

Only what the repository uses: tf.transformations (pure maths, reimplemented
here) and tf.Transformer with the exceptions raised by its lookup calls.
"""
import math as _math

from tf import transformations  # noqa: F401


class Exception(Exception):  # noqa: A001
  pass


class LookupException(Exception):
  pass


class ConnectivityException(Exception):
  pass


class ExtrapolationException(Exception):
  pass


def _multiply(a, b):
  return (a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
          a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
          a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
          a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2])


def _rotate(q, v):
  w = _multiply(_multiply(q, (v[0], v[1], v[2], 0.0)), (-q[0], -q[1], -q[2], q[3]))
  return w[:3]


def _compose(a, b):
  r = _rotate(a[1], b[0])
  return (tuple(x + y for x, y in zip(a[0], r)), _multiply(a[1], b[1]))


def _invert(a):
  q = (-a[1][0], -a[1][1], -a[1][2], a[1][3])
  return (tuple(-x for x in _rotate(q, a[0])), q)


def _between(a, b, f):
  p = tuple((1.0 - f) * x + f * y for x, y in zip(a[0], b[0]))
  d = sum(x * y for x, y in zip(a[1], b[1]))
  s = 1.0
  if d < 0.0:
    d, s = -d, -1.0
  angle = _math.acos(min(d, 1.0))
  if angle < 1e-9:
    return (p, a[1])
  u = _math.sin((1.0 - f) * angle) / _math.sin(angle)
  v = s * _math.sin(f * angle) / _math.sin(angle)
  return (p, tuple(u * x + v * y for x, y in zip(a[1], b[1])))


class Transformer(object):
  """A tree of frames with a history per frame, like tf."""

  def __init__(self, interpolate=True, cache_time=None):
    self.interpolate = interpolate
    self.cache_time = cache_time
    self._history = {}
    self._frames = set()

  def setTransform(self, transform_msg, authority="default_authority"):
    parent, child = transform_msg.header.frame_id, transform_msg.child_frame_id
    t, q = transform_msg.transform.translation, transform_msg.transform.rotation
    self._frames.update((parent, child))
    table = self._history.setdefault(child, {})
    table[transform_msg.header.stamp.to_nsec()] = (parent, ((t.x, t.y, t.z), (q.x, q.y, q.z, q.w)))
    # Like tf, keep a limited stretch of time per frame, ten seconds unless told otherwise.
    keep = 10000000000 if self.cache_time is None else self.cache_time.to_nsec()
    for stamp in [k for k in table if k < max(table) - keep]:
      del table[stamp]

  def _at(self, child, stamp):
    """Parent of a frame at a time, and its pose in it."""
    table = self._history[child]
    if stamp in table:
      return table[stamp]
    before = [s for s in table if s < stamp]
    after = [s for s in table if s > stamp]
    if not before or not after:
      raise ExtrapolationException("no transform of %s at %d" % (child, stamp))
    a, b = max(before), min(after)
    if table[a][0] != table[b][0]:
      return table[a]
    return table[a][0], _between(table[a][1], table[b][1], float(stamp - a) / float(b - a))

  def _ancestors(self, frame, stamp):
    """A frame and its ancestors at a time, with the pose of the frame in each."""
    out = [(frame, ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0)))]
    while frame in self._history:
      try:
        parent, pose = self._at(frame, stamp)
      except ExtrapolationException as e:
        return out, e
      out.append((parent, _compose(pose, out[-1][1])))
      frame = parent
    return out, None

  def lookupTransform(self, target, source, time):
    """Pose of the source frame in the target frame."""
    stamp = time.to_nsec()
    for frame in (target, source):
      if frame not in self._frames:
        raise LookupException("frame %s does not exist" % frame)
    of_source, missing_source = self._ancestors(source, stamp)
    of_target, missing_target = self._ancestors(target, stamp)
    for frame, pose in of_source:
      for other, base in of_target:
        if frame == other:
          if frame != target:
            pose = _compose(_invert(base), pose)
          return (list(pose[0]), list(pose[1]))
    if missing_source or missing_target:
      raise missing_source or missing_target
    raise ConnectivityException("%s and %s are not connected" % (target, source))
