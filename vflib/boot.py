"""Process bootstrap: which gempakio is tested and which libraries are used.

Imported before anything else by the worker.  The code under test always comes
from the /repo working tree (GEMPAKIO_SRC overrides it for experiments on
scratch copies); byte code is neither written to nor read from /repo.
"""

import os
import sys

sys.dont_write_bytecode = True

os.environ.setdefault('PROJ_NETWORK', 'OFF')
os.environ['TZ'] = os.environ.get('VF_TZ', 'UTC')

SRC = os.environ.get('GEMPAKIO_SRC', '/repo/src')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, SRC)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import hypothesis  # noqa: F401
except ImportError:
    if os.path.isdir(_VT):
        sys.path.append(_VT)
    import hypothesis  # noqa: F401

import warnings

warnings.filterwarnings('ignore')

import logging

logging.disable(logging.CRITICAL)

import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import pyproj  # noqa: E402,F401
import xarray  # noqa: E402,F401

# never trust cached byte code of the tree under test
_prefix, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent-pycache'
import gempakio  # noqa: E402
import gempakio.common  # noqa: E402,F401
import gempakio.decode.gempak  # noqa: E402,F401
import gempakio.decode.vgf  # noqa: E402,F401
import gempakio.encode.gempak  # noqa: E402,F401
import gempakio.encode.vgf  # noqa: E402,F401
import gempakio.gemcalc  # noqa: E402,F401
import gempakio.tools  # noqa: E402,F401

sys.pycache_prefix = _prefix

_where = os.path.realpath(gempakio.__file__)
if not _where.startswith(os.path.realpath(SRC) + os.sep):
    raise RuntimeError(f'gempakio imported from {_where}, not from {SRC}')
