"""sx: symbolic execution of the emva1288 package with z3 (see /verif/DESIGN.md)."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3  # noqa: F401
except ImportError:
    sys.path.append(_VT)
    import z3  # noqa: F401
sys.setrecursionlimit(20000)
