from .gradicp import *
from .groundtruth import *
from .icp import *
