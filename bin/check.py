#!/usr/bin/env python3
"""check.py PXX: decides a property; check.py --replay FILE: shows a violation again."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fx, props

if sys.argv[1] == "--replay":
    r = json.load(open(sys.argv[2]))
    c = fx.Check("replay")
    t = c.run([r["episode"]], hook=r.get("hook", False), cmd=r.get("cmd", "run"))
    bad = c.validate(r["monitor"], t)
    for j, e in enumerate(t[0]["ev"]):
        print(j + 1, json.dumps(e))
    print(json.dumps(bad))
    sys.exit(1 if bad else 0)
sys.exit(fx.main(sys.argv[1], props.CHECKS[sys.argv[1]]))
