#!/usr/bin/env python3
"""Regenerates the "fixed" list of known_findings.json from the fix: commits in /repo and the table below."""
import json,subprocess
MAP=[ # (subject prefix, properties)
("fix: full 16.16 range","C05"),("fix: Type 2 mul","C05"),("fix: last point of the Type 2 flex1","C05"),
("fix: accept roll count 0","C05"),("fix: reject Type 2 path operators","C05"),
("fix: write CFF default and nominal widths","C04"),("fix: don't accumulate rounding","C04"),
("fix: preserve real numbers","C13"),("fix: refuse CFF charsets","C13"),("fix: CIDCount","C13"),
("fix: decode TrueType glyphs without contours","C11"),("fix: hhea extents","C12"),("fix: CFF glyph bounding boxes","C12"),
("fix: consistent glyph width","C12"),("fix: round and clamp metrics","C12"),("fix: decode cmap subtables","C09"),
("fix: format 12 segments","C09"),("fix: name and post tables","C14"),("fix: OpenType script tags","C14"),
]
try:
    exec(open('/verif/tools/fixed_more.py').read())
except FileNotFoundError: pass
log=subprocess.run("git -C /repo log --reverse --format='%h%x09%s' c4d1b12..HEAD",shell=True,capture_output=True,text=True).stdout
out=[]
for l in log.splitlines():
    h,s=l.split("\t",1)
    if not s.startswith("fix:"): continue
    p=[p for pre,p in MAP if s.startswith(pre)]
    if not p: print("UNMAPPED",s); continue
    for q in p[0].split(","): out.append(f"property={q} {h} {s[5:]}")
f='/verif/known_findings.json'
try: d=json.load(open(f))
except FileNotFoundError: d={"known":[]}
d["fixed"]=out
json.dump(d,open(f,"w"),indent=1); print(len(out))
