"""Environment set-up: import optax from /repo's working tree."""
import os
import sys
import warnings

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
for p in ('/opt/optax-compat', REPO):
  if p in sys.path:
    sys.path.remove(p)
  sys.path.insert(0, p)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
  sys.path.append(VT)
import logging
logging.disable(logging.WARNING)
import jax_removed_names  # noqa  pylint: disable=wrong-import-position,unused-import
