from .projutils import *
