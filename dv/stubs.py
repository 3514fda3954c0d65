"""Stand-ins for third-party modules that are absent from the sandbox (assumptions, listed in evidence)."""
from .sym import *
from .objs import *


def install(I):
    pass
