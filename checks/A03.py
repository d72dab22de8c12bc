"""A03: symbolic bit vectors over expression graphs."""
from vk import bvlib


def run(c):
    bvlib.run(c, "bev")
