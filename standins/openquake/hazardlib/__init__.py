"""Stand-in for openquake.hazardlib: objects keeping their parameters."""
from openquake.hazardlib import gsim, mfd, source
