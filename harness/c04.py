"""C04: the hash."""
from options import run
