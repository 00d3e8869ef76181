"""Nothing is built: checks that the interpreter and the libraries are there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import boot
boot.reexec_if_needed()
boot.setup_path()
import hypothesis
import numpy
import verypy
os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
print("hypothesis %s, numpy %s, verypy from %s" % (hypothesis.__version__, numpy.__version__, verypy.__file__))
