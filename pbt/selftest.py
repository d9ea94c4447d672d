"""setup_cmd: nothing to build; verify that the pieces the checks need exist."""
from . import env  # noqa: F401
import hypothesis

from . import props

print("pystrata from", env.pystrata.__file__, "| hypothesis", hypothesis.__version__,
      "|", len(props.PROPS), "properties")
