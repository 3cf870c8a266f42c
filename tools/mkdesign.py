#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, seeded/*/meta.json and known-findings.txt."""
import json,os,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r=lambda f:open(f'{root}/tools/{f}').read()
o=r('design_head.md')+r('design_props.md')
o+="\n## Defects found\n\nEach was shown with a failing session against the real code. Repaired ones are `fix:` commits in /repo;\nthe list is `known-findings.txt`.\n\n| property | commit | what failed |\n|---|---|---|\n"
known=[]
for l in open(root+'/known-findings.txt'):
    if l.startswith('fixed:'):
        _,p,c,t=l.strip().split(' ',3); o+=f"| {p[9:]} | {c} | {t} |\n"
    elif l.startswith('known:'): known.append(l.strip())
o+="\nNot repaired (needs an interface change), reported as KNOWN-FINDING:\n\n"
for k in known:
    p=k.split('property=')[1].split()[0]; o+=f"* {p}: {k.split(' -- ',1)[1]}\n"
o+="\n## Planted bugs\n\nAll are caught by the quick check of their property.\n\n| id | property | what it breaks | needs |\n|---|---|---|---|\n"
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(m)); o+=f"| {m.split('/')[-2]} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |\n"
o+=r('design_tail.md')
open(root+'/DESIGN.md','w').write(o)
