"""Build the harness against /repo once."""
from . import native
lls, so = native.build()
print(so)
