"""C14: method lookup, judged by specs/dispatch."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, dispgen


def run(c):
    dispgen.model(c)
    dispgen.conform(c, int(700 * c.scale))


core.main(run, "C14")
