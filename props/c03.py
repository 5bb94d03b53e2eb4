"""C03: see specs/sched/Sched.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, schedcheck

core.main(schedcheck.run, "C03")
