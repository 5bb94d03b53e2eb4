"""C09: histories of the object memory (mix gc) judged by specs/heap."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, heapgen


def run(c):
    heapgen.model(c)
    heapgen.conform(c, "gc", int(1600 * c.scale))


core.main(run, "C09")
