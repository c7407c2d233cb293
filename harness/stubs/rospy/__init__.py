"""Minimal stand-in for rospy: time and duration."""


class _Stamp(object):

  def __init__(self, secs=0, nsecs=0):
    self._ns = int(round(secs * 1e9)) + nsecs if isinstance(secs, float) else secs * 1000000000 + nsecs

  @property
  def secs(self):
    return self._ns // 1000000000

  @property
  def nsecs(self):
    return self._ns % 1000000000

  def to_nsec(self):
    return self._ns

  def to_sec(self):
    return float(self.secs) + float(self.nsecs) / 1e9

  def __eq__(self, other):
    return isinstance(other, _Stamp) and self._ns == other._ns

  def __hash__(self):
    return hash(self._ns)

  def __lt__(self, other):
    return self._ns < other._ns

  def __le__(self, other):
    return self._ns <= other._ns

  def __gt__(self, other):
    return self._ns > other._ns

  def __ge__(self, other):
    return self._ns >= other._ns

  def __repr__(self):
    return "%s[%d]" % (type(self).__name__, self._ns)


class Duration(_Stamp):

  @classmethod
  def from_sec(cls, seconds):
    return cls(float(seconds))


class Time(_Stamp):

  @classmethod
  def from_sec(cls, seconds):
    return cls(float(seconds))

  def __sub__(self, other):
    if isinstance(other, Time):
      return Duration(0, self._ns - other._ns)
    return Time(0, self._ns - other._ns)

  def __add__(self, other):
    return Time(0, self._ns + other._ns)
