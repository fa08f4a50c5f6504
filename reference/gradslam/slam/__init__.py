from .icpslam import *
from .fusionutils import *
from .pointfusion import *
