"""Nothing is built: check that the code under test and the simulator can be imported."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, "-B", "-c", "import sys; sys.path[:0] = [{!r}, '/repo']; import sim.engine; "
                          "import openscm.core".format(here)]))
