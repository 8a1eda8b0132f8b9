"""C03: options."""
from options import run
