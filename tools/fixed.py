#!/usr/bin/env python3
"""Adds a fixed entry: fixed.py PROP COMMIT 'what failed'"""
import json, sys, os
F = "/verif/known_findings.json"; d = json.load(open(F)) if os.path.exists(F) else {"findings": []}
d["findings"].append({"status": "fixed", "property": sys.argv[1], "commit": sys.argv[2], "line": "fixed: property=%s %s %s" % tuple(sys.argv[1:4]), "what": sys.argv[3]})
json.dump(d, open(F, "w"), indent=1)
