"""Minimal stand-in for rosbag: recordings kept as JSON.

A recording is a list of [topic, stamp in ns, transforms or null], a transform
is [frame, child frame, stamp in ns, [x, y, z], [qx, qy, qz, qw]].
"""
import json

import rospy
from tf2_msgs.msg import TFMessage


class _Record(object):

  def __init__(self, **values):
    self.__dict__.update(values)


def _transform(frame, child, stamp, t, q):
  return _Record(
      header=_Record(stamp=rospy.Time(0, stamp), frame_id=frame, seq=0), child_frame_id=child,
      transform=_Record(translation=_Record(x=t[0], y=t[1], z=t[2]),
                        rotation=_Record(x=q[0], y=q[1], z=q[2], w=q[3])))


class Bag(object):

  def __init__(self, f, mode="r"):
    assert mode == "r"
    self.filename = f
    with open(f) as h:
      self._content = json.load(h)

  def read_messages(self, topics=None):
    if isinstance(topics, str):
      topics = [topics]
    for topic, stamp, transforms in self._content:
      if topics is not None and topic not in topics:
        continue
      if transforms is None:
        msg = _Record(data="something else")
      else:
        msg = TFMessage([_transform(*x) for x in transforms])
      yield topic, msg, rospy.Time(0, stamp)

  def close(self):
    self._content = []

  def __iter__(self):
    return self.read_messages()

  def __enter__(self):
    return self

  def __exit__(self, *args):
    self.close()
