from .cfgnode import *
