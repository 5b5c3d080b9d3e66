import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
from vp import check
sys.exit(check.main())
