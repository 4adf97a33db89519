"""Functions and constants the property is about are compared with their reviewed reference definitions."""
from .rules import *

FLOOR = 0


def check(c, tier):
    pass
