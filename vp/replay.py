"""Replay a recorded violation on the real code: python3 vp/replay.py out/<ID>.<n>.json"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core
from vp.props import PROPS
r = json.load(open(sys.argv[1])); j = next(j for j in PROPS[r["property"]]["jobs"](r["tier"]) if j.name == r["job"])
ok, why = core.confirm(j.img, r, r["params"]); print(("reproduced: " if ok else "not reproduced: ") + why); sys.exit(0 if ok else 1)
