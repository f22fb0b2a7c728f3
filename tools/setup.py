"""Nothing to build: check that the interpreter, the package and the harness can be imported."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vsm import core  # noqa: E402
os.makedirs(core.EVID, exist_ok=True)
sys.exit(subprocess.call([core.PY, '-c', 'import vspec_vsm, vsm.gen, vsm.judges, vsm.mon; print("ready")'],
                         env=core.env_for_workers(), cwd=ROOT))
