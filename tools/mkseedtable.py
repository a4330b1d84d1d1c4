#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (every one was run with its own property's check)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read().split('## Planted bugs')[0].rstrip() + '\n\n## Planted bugs\n\n'
missed = set(open(os.path.join(root, 'tools/missed.txt')).read().split()) if os.path.exists(os.path.join(root, 'tools/missed.txt')) else set()
s += 'Each one was run against the check of its property (quick tier, seed 1).\n\n| bug | breaks | needs | caught by |\n|----|----|----|----|\n'
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    c = lambda t: ' '.join(str(t).replace('|', '/').split())
    s += f"| {n} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {'(missed)' if n in missed else m['property']} |\n"
open(p, 'w').write(s)
