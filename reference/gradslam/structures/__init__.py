from .pointclouds import *
from .rgbdimages import *
from .structutils import *
