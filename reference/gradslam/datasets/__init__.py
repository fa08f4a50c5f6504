from .datautils import *
from .icl import *
from .scannet import *
from .tum import *
