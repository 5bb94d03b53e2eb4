"""C07: exceptions find the right handler and continue as it says."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, langcheck


def run(c):
    langcheck.laws(c)
    small = langcheck.small(2)
    deep = langcheck.small(3)
    pick = small if c.thorough else c.rng.sample(small, 500)
    pick = pick + c.rng.sample(deep, int(100 * c.scale))
    langcheck.check(c, int(350 * c.scale), [langcheck.MIXES["C07"]], pick)


core.main(run, "C07")
