#!/usr/bin/env python3
"""addfix.py PROP 'what failed': record the last /repo commit as the fix"""
import json, subprocess, sys
p = '/verif/known-findings.json'; k = json.load(open(p))
h = subprocess.run('git -C /repo log --format=%h -1', shell=True, capture_output=True, text=True).stdout.strip()
k.append({"status": "fixed", "property": sys.argv[1], "commit": h, "line": "fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2])})
open(p, 'w').write('[\n ' + ',\n '.join(json.dumps(e) for e in k) + '\n]\n')
