"""See c14_classes."""
from . import c14_classes
