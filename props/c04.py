"""C04: see specs/sched/Sched.tla (threads) and specs/lang/Lang.tla (returns and exceptions)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, schedcheck, langcheck


def run(c):
    schedcheck.run(c)
    langcheck.check(c, int(200 * c.scale), [langcheck.MIXES["C08"]], c.rng.sample(langcheck.small(2), 250))


core.main(run, "C04")
