# Hack to ensure `import gradslam` doesn't cause segfault.
import open3d as o3d

from .version import __version__

from .geometry import *
from .metrics import *
from . import odometry
from . import slam
from .structures import *
from . import utils
