"""A stand-in for Ray that runs every task at once, in this process.

It has what google/space uses of Ray, for demonstrations where Ray is not
installed: install() puts it in sys.modules. Values that go through a task or an
actor are pickled, like Ray does."""

import copy
import sys
import types

import numpy as np
import pyarrow as pa


class ObjectRef:

  def __init__(self, v):
    self.v = v

  def __class_getitem__(cls, _):
    return cls


def _val(x):
  return x.v if isinstance(x, ObjectRef) else x


def get(x):
  return [_val(y) for y in x] if isinstance(x, list) else _val(x)


def put(x):
  return ObjectRef(x)


class _Method:

  def __init__(self, fn):
    self.fn = fn

  def options(self, **_):
    return self

  def remote(self, *a, **kw):
    return ObjectRef(self.fn(*[_val(x) for x in a],
                             **{k: _val(v) for k, v in kw.items()}))


class _Handle:

  def __init__(self, o):
    self._o = o

  def __getattr__(self, name):
    return _Method(getattr(self._o, name))


class _Remote:

  def __init__(self, x):
    self.x = x
    self.__doc__ = x.__doc__

  def options(self, **_):
    return self

  def remote(self, *a, **kw):
    a = [_val(v) for v in a]
    kw = {k: _val(v) for k, v in kw.items()}
    if isinstance(self.x, type):
      return _Handle(self.x(*a, **kw))
    return ObjectRef(self.x(*a, **kw))


def remote(*a, **kw):
  if len(a) == 1 and not kw:
    return _Remote(a[0])
  return _Remote


def init(*_, **__):
  pass


shutdown = init


def is_initialized():
  return True


class Dataset:

  def __init__(self, blocks):
    for b in blocks:
      if not isinstance(b, pa.Table):
        raise TypeError(f"Not a block type: {b}")
    self.blocks = list(blocks)

  def iter_batches(self, batch_size=256, batch_format="default", drop_last=False):
    assert batch_size is None and batch_format == "pyarrow" and not drop_last
    yield from self.blocks

  def count(self):
    return sum(b.num_rows for b in self.blocks)

  def select_columns(self, cols):
    return Dataset([b.select(cols) for b in self.blocks if b.num_columns])

  def repartition(self, n):
    assert n > 0
    if not self.blocks:
      return self
    t = pa.concat_tables(self.blocks)
    k = -(-t.num_rows // n) or 1
    return Dataset([t.slice(i, k) for i in range(0, t.num_rows, k)])

  def map_batches(self, fn, batch_size="default", **kw):
    out = []
    for b in self.blocks:
      n = b.num_rows if batch_size in ("default", None) else batch_size
      for i in range(0, b.num_rows, n or 1):
        s = b.slice(i, n)
        r = fn({c: _numpy(s.column(c)) for c in s.column_names})
        out.append(pa.table({k: pa.array(list(v)) for k, v in r.items()}))
    return Dataset(out)

  def filter(self, fn, **kw):
    return Dataset([b.filter(pa.array([bool(fn(r)) for r in b.to_pylist()],
                                      pa.bool_())) for b in self.blocks])


def _numpy(c):
  try:
    return c.to_numpy()
  except Exception:  # pylint: disable=broad-except
    return np.array(c.to_pylist(), dtype=object)


def from_arrow_refs(refs):
  return Dataset(get(refs if isinstance(refs, list) else [refs]))


def read_datasource(source, *, parallelism=-1, **kw):
  kw = {k: v if k == "storage" else copy.deepcopy(v) for k, v in kw.items()}
  blocks = []
  for task in source.create_reader(**kw).get_read_tasks(parallelism):
    blocks += list(task.fn())
  return Dataset(blocks)


class BlockMetadata:

  def __init__(self, num_rows=None, size_bytes=None, schema=None,
               input_files=None, exec_stats=None):
    self.num_rows = num_rows


class ReadTask:

  def __init__(self, fn, metadata):
    self.fn, self.metadata = fn, metadata


class Datasource:
  pass


class Reader:
  pass


class WriteResult:
  pass


def install():
  me = sys.modules[__name__]

  def module(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

  data = module("ray.data", Dataset=Dataset, from_arrow_refs=from_arrow_refs,
                read_datasource=read_datasource)
  root = module("ray", remote=remote, get=get, put=put, init=init,
                shutdown=shutdown, is_initialized=is_initialized, data=data,
                ObjectRef=ObjectRef)
  root.__path__ = []
  data.__path__ = []
  data.block = module("ray.data.block", Block=pa.Table,
                      BlockMetadata=BlockMetadata)
  ds = module("ray.data.datasource")
  ds.__path__ = []
  ds.datasource = module("ray.data.datasource.datasource", Datasource=Datasource,
                         Reader=Reader, ReadTask=ReadTask, WriteResult=WriteResult)
  data.datasource = ds
  root.types = module("ray.types", ObjectRef=ObjectRef)
  return me


if __name__ != "__main__":
  install()
