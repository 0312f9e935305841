import json,os,re,sys
root=sys.argv[1] if len(sys.argv)>1 else "/verif"
props={}
for l in open(root+"/properties.jsonl"):
    p=json.loads(l); props[p["id"]]=p["title"]
fixed=[x for x in json.load(open(root+"/known_findings.json"))["fixed"]]
SEC=json.load(open(root+"/tools/design.json"))
bugs={}
for d in sorted(os.listdir(root+"/seeded")):
    m=json.load(open(root+"/seeded/%s/meta.json"%d)); bugs.setdefault(m["property"],[]).append((d,m))
out=[open(root+"/tools/design_head.md").read()]
for pid,title in props.items():
    s=SEC[pid]
    out.append("### %s - %s\n"%(pid,title))
    for k,name in (("monitor","Monitor and oracle"),("workload","Workload"),("bounds","Bounds and what is not judged"),("why","Why this reaches what the tests cannot"),("cost","Cost")):
        if s.get(k): out.append("*%s.* %s\n"%(name,s[k]))
    bb=bugs.get(pid,[])
    if bb:
        out.append("*Planted bugs caught.* "+"; ".join("`%s` (needs: %s)"%(d,m["needs"]) for d,m in bb)+".\n")
    ff=[x.split(" ",2) for x in fixed if x.startswith("property="+pid+" ")]
    if ff:
        out.append("*Defects found by this check and repaired in /repo.* "+"; ".join("%s (%s)"%(f[2],f[1]) for f in ff)+".\n")
out.append(open(root+"/tools/design_tail.md").read())
open(root+"/DESIGN.md","w").write("\n".join(out))
