import json,glob,os
p='/verif/DESIGN.md'; t=open(p).read()
t=t.replace("found (123 of them, section 4)","found (122 of them, section 4)")
a=t.index("<!-- seeds -->")+len("<!-- seeds -->\n"); b=t.index("<!-- /seeds -->")
have={l.split("|")[1].strip():l for l in t[a:b].splitlines() if l.startswith("| C")}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append("| %s | %s | %s |"%(i,m["what_it_breaks"].replace("\n"," "),m["needs"].replace("\n"," ")))
t=t[:a]+"\n".join(rows)+"\n"+t[b:]
open(p,'w').write(t)
