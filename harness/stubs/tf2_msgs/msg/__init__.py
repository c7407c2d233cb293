"""Minimal stand-in for the transform messages."""


class TFMessage(object):

  def __init__(self, transforms=()):
    self.transforms = list(transforms)
