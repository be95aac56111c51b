"""See c14_boxes."""
from . import c14_boxes
