#!/usr/bin/env python3
"""replay.py FILE.json: replays the events of a VIOLATION's replay file into the current /repo and validates them again."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
def main():
    d = json.load(open(sys.argv[1])); bad = 0
    scratch = "%s/run/replay-%d" % (check.BUILD, os.getpid()); os.makedirs(scratch)
    try:
        classes = check.build_java()
        for n, e in enumerate(d["events"]):
            if not e["bin"]: print(e); continue
            for c in e["configs"]:
                exe = check.build([e["bin"]], [c])[c]
                if not exe: continue
                scen = "%s/scen" % scratch; open(scen, "w").write(e["op"] + " " + e["args"] + "\n")
                r = check.replay(exe + e["bin"], scen, 1, "%s/out" % scratch, 60)[0]
                st, rej = check.validate(e["module"], [(e["op"], e["args"].replace(" ", ","), "" if r in "PX" else r.replace(" ", ","), None)], scratch, classes, 300)
                bad += bool(rej)
                print("%s %s %s args: %s result: %s (recorded: %s)" % ("REJECTED" if rej else "ok", e["op"], c, e["args"][:400], r[:400], e["result"][:400]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0
sys.exit(main())
