"""C21: floating-point numbers are rounded correctly, and literals and printed text denote the number."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, floatgen

def run(c):
    c.model_check("num/MCNum", "SPECIFICATION Spec\nINVARIANT Agree\nCONSTANTS B = 4\n LB = 2\n Max = %d\n" % (36 if c.thorough else 20))
    c.conform("num/TraceFloat", ["common.st", "nums.st", "floats.st"], "VFloats", floatgen.histories(c.rng, int(300 * c.scale), 14),
              cfg="SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS B = 256\n LB = 8\n", decorate=floatgen.decorate)

core.main(run, "C21")
