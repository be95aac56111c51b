"""C20 - destruction of wrappers: see c14_destroy."""
from . import c14_destroy
