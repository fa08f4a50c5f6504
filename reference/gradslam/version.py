# Export version number
__version__ = "0.1.0"
