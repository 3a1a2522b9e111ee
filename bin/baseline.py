#!/usr/bin/env python3
"""Write contracts/baseline.json (loops and callees of every function) from an extraction of the unchanged tree."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/work", exist_ok=True)
open(V + "/work/none.txt", "w").close()
subprocess.check_call([V + "/extract/target/release/vx-extract", "/repo/src", V + "/contracts", V + "/work/base.rs", "", V + "/work/none.txt"])
m = json.load(open(V + "/work/base.rs.meta.json"))
json.dump({f["path"]: {"loops": f["loops"], "calls": f["calls"], "locals": f["locals"]} for f in m["functions"]}, open(V + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
