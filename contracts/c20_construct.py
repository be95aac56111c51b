"""C20 - constructors and copies: see c14_construct."""
from . import c14_construct
