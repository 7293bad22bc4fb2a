"""Which rule groups decide which property."""

GROUPS = []


def group(*props):
  """Registers a function (prog, R) deciding obligations of some properties.
  R[prop] collects the obligations of a property."""

  def deco(fn):
    GROUPS.append((fn.__name__, props, fn))
    return fn

  return deco


class Reports(dict):
  """Reports by property; properties not being checked are collected too, and
  dropped."""

  def __init__(self, cls):
    super().__init__()
    self.cls = cls

  def __missing__(self, prop):
    r = self[prop] = self.cls(prop)
    return r

  def use(self, props, unit, name):
    for p in props:
      self[p].use(unit, name)
