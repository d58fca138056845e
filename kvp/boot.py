"""Process bootstrap: environment, import paths.

Must be imported before numpy/torch/tensorflow/jax.  Runs inside
/opt/venv/bin/python (the interpreter kymatio is installed in); Hypothesis and
sortedcontainers, which that environment lacks, are made importable from the
verification tool venv by a finder restricted to these names, so that every
other module (numpy, scipy, ...) still comes from /opt/venv.
"""
import os
import sys

REPO = os.environ.get('KVP_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

ENV = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1', 'TF_NUM_INTRAOP_THREADS': '1',
    'TF_NUM_INTEROP_THREADS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3',
    'TF_ENABLE_ONEDNN_OPTS': '0', 'CUDA_VISIBLE_DEVICES': '',
    'JAX_PLATFORMS': 'cpu', 'KERAS_BACKEND': 'tensorflow',
    'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
}


def child_env():
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update(ENV)
    return e


def setup():
    keep = os.environ.get('KVP_KEEP')        # child processes of C30 choose their own settings
    for k, v in ENV.items():
        if not keep:
            os.environ[k] = v
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib.machinery

    class ToolFinder:
        prefixes = ('hypothesis', 'sortedcontainers', '_hypothesis')

        @classmethod
        def find_spec(cls, name, path=None, target=None):
            if path is None and name.startswith(cls.prefixes):
                return importlib.machinery.PathFinder.find_spec(name, [TOOL_SITE])
            return None
    sys.meta_path.append(ToolFinder)
    import warnings
    if not keep:
        warnings.filterwarnings('ignore')


setup()
