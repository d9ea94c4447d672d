import sys

from . import env  # noqa: F401  (puts /repo/src first on the path)
from .core import main

# The runner's module is imported as pbt.core by the checks too.
sys.exit(main())
