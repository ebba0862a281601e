"""Process bootstrap: where the code under test, z3 and the spu stand-in come from.

* /repo (or $VP_REPO) is put first on sys.path: every check imports the
  implementation from the current working tree.
* z3 lives in the verification-tool venv (same Python 3.12); its site-packages
  is appended *last*, so that nothing else is taken from there.
* spu is not installed in this sandbox.  /verif/stubs/spu provides an ideal
  stand-in (see stubs/spu/__init__.py); without it a quarter of mplang cannot
  even be imported.
"""

import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
ROOT = os.environ.get("VP_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VP_SCRATCH") or "/tmp"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in sys.path:
    sys.path.append(_Z3)

# z3's contexts are not thread safe and ctypes.CDLL releases the GIL around every
# call: a term collected in a thread that is just ending would race with the
# solver.  PyDLL keeps the GIL, so calls into z3 never overlap.
import ctypes  # noqa: E402

_cdll, ctypes.CDLL = ctypes.CDLL, ctypes.PyDLL
try:
    import z3  # noqa: E402,F401
finally:
    ctypes.CDLL = _cdll

_loaded = False


def load_mplang():
    """Import mplang from the tree under test (with backends registered)."""
    global _loaded
    if not _loaded:
        import logging

        logging.getLogger("mplang").setLevel(logging.CRITICAL)
        import mplang  # noqa: F401
        import mplang.backends

        mplang.backends.load_builtins()
        assert os.path.realpath(mplang.__file__).startswith(os.path.realpath(REPO) + "/"), mplang.__file__
        _loaded = True
    import mplang

    return mplang
