#!/usr/bin/env python3
"""Writes ../DESIGN.md."""
import json, os, re, glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,'..')
rd=lambda f: open(os.path.join(root,f)).read()
o=rd('tools/design_head.md')
fixed={}; known=[]
for l in rd('known_findings.txt').splitlines():
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fixed.setdefault(m[1],[]).append((m[2],m[3]))
    elif l.startswith('{'): known.append(json.loads(l))
o+="## 3 Defects found and repaired\n\nEach was shown on the real code by the named check, and repaired by one `fix:` commit in /repo.\n\n"
for p in sorted(fixed):
    for c,w in fixed[p]: o+=f"* {p} `{c}`: {w}\n"
o+="\n## 4 Known findings (not repaired)\n\n"
for k in known: o+=f"* {k['property']} `{k['key']}`: {k['what']}\n"
o+="""
Both are one limit of the protocol as implemented: the proof of a batch does not say what a surviving
sibling is. A repair needs another proof format, which is not a small change.
"""
o+=rd('tools/design_tail.md').split('## 7')[0]
o+="## 6 Planted bugs and what catches them\n\nCaught = the registered quick command of that property exits 1 with its VIOLATION line.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
catches=dict(l.split(None,1) for l in rd('tools/catches.txt').splitlines() if l.strip())
for f in sorted(glob.glob(os.path.join(root,'seeded','*','meta.json'))):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f))
    o+=f"| {i} | {m['property']} | {m['needs']} | {catches.get(i,'?')} |\n"
o+="\n## 7"+rd('tools/design_tail.md').split('## 7')[1]
open(os.path.join(root,'DESIGN.md'),'w').write(o)
