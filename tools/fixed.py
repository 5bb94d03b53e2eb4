"""fixed.py CNN COMMIT WHAT: appends a fixed defect to known_findings.jsonl."""
import sys, json, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
pid, commit, what = sys.argv[1:4]
open(p, "a").write(json.dumps({"property": pid, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (pid, commit, what)}) + "\n")
