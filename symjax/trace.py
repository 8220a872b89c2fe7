"""Tracing of real functions to jaxprs, forking on Python-level branches."""
import contextlib

import jax
import numpy as np
from jax._src import core as _core
from jax._src.interpreters import partial_eval as pe

_STATE = {'on': False, 'decisions': None, 'pos': 0, 'preds': None, 'level': None}
_DJT = pe.DynamicJaxprTracer


class PathLimit(Exception):
  pass


def _bool(self):
  st = _STATE
  if not st['on'] or self._trace.main is not st['main']:
    return self.aval._bool(self)   # standard error
  if self.aval.shape != ():
    return self.aval._bool(self)
  i = st['pos']
  st['pos'] += 1
  if i < len(st['decisions']):
    d = st['decisions'][i]
  else:
    d = True
    st['decisions'].append(True)
  p = self if self.aval.dtype == np.bool_ else (self != 0)
  st['preds'].append(p)
  return d


_ORIG = {}


def _jvp_bool(self):
  """Python branch on a differentiated value: decide on its primal."""
  t = self
  while hasattr(t, 'primal'):
    t = t.primal
  return bool(t)


def install():
  if _ORIG:
    return
  _ORIG['bool'] = _core.Tracer.__bool__
  _DJT.__bool__ = _bool
  _core.Tracer.__hash__ = lambda self: id(self)
  from jax._src.interpreters import ad
  ad.JVPTracer.__bool__ = _jvp_bool


@contextlib.contextmanager
def forking(decisions, main):
  old = dict(_STATE)
  _STATE.update(on=True, decisions=decisions, pos=0, preds=[], main=main)
  try:
    yield _STATE
  finally:
    _STATE.clear()
    _STATE.update(old)


class TPath:
  def __init__(self, closed, decisions, exc, tree, static):
    self.closed, self.decisions, self.exc = closed, decisions, exc
    self.tree, self.static = tree, static


def fork_trace(fun, examples, max_paths=48):
  """fun(*flat_args) -> pytree.  Returns a list of TPath."""
  install()
  todo = [[]]
  paths = []
  while todo:
    dec = list(todo.pop())
    n0 = len(dec)
    box = {}

    def wrapped(*args):
      main = None
      for a in args:
        if isinstance(a, _DJT):
          main = a._trace.main
          break
      with forking(dec, main) as st:
        try:
          out, static = fun(*args)
          flat, tree = jax.tree_util.tree_flatten(out)
          box['tree'], box['exc'], box['static'] = tree, None, static
        except Exception as e:  # pylint: disable=broad-except
          flat = []
          box['tree'], box['exc'], box['static'] = None, e, []
        preds = list(st['preds'])
      box['n'] = len(preds)
      return preds + flat

    closed = jax.make_jaxpr(wrapped)(*examples)
    paths.append(TPath(closed, dec, box['exc'], box['tree'], box['static']))
    for i in range(n0, len(dec)):
      todo.append(dec[:i] + [False])
    if len(paths) + len(todo) > max_paths:
      raise PathLimit('more than %d Python-level paths' % max_paths)
  return paths
