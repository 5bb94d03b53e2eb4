"""C17: compiled code computes what its source means."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, langcheck


def run(c):
    langcheck.check(c, int(600 * c.scale), [langcheck.MIXES["C17"]])


core.main(run, "C17")
