#!/usr/bin/env python3
import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f"/verif/evidence/{p}.json"))
    for h in d["coverage"]["harnesses"]:
        print(p,h.get("harness"),"paths",h.get("paths"),"checks",h.get("checks"),"nf",h.get("by_normal_form"),"sol",h.get("by_solver"),"tol",h.get("by_tolerance"),"q",h.get("queries"),"solv %.1f"%(h.get("solver_s") or 0),"wall %.1f"%(h.get("wall_s") or 0),"val",h.get("traces_validated"),"div",h.get("traces_diverged"),"unkf",h.get("unknown_feasibility"), "dA", h.get("div_assumed"))
