"""Interpreter environment: repo on the path, OpenMDAO quiet, solver bindings appended."""
import os
import sys
import warnings

os.environ.setdefault('OPENMDAO_REPORTS', '0')
os.environ.setdefault('TESTFLO_RUNNING', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OPENMDAO_WORKDIR', '/tmp/vc_om')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
