"""A02: symbolic bit vectors over BDDs."""
from vk import bvlib


def run(c):
    bvlib.run(c, "bv")
