"""C20: arithmetic on integers and fractions of any size is exact."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, numgen

def run(c):
    for b, lb in ((2, 1), (4, 2), (8, 3)) if c.thorough else ((4, 2),):
        c.model_check("num/MCNum", "SPECIFICATION Spec\nINVARIANT Agree\nCONSTANTS B = %d\n LB = %d\n Max = %d\n" % (b, lb, 36 if c.thorough else 20))
    c.conform("num/TraceNum", ["common.st", "nums.st"], "VNums", numgen.histories(c.rng, int(300 * c.scale), 40),
              cfg="SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS B = 256\n LB = 8\n")

core.main(run, "C20")
