import json,os,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'));rows.append((os.path.basename(d[:-1]),m['property'],m['needs']))
TABLE="| change | property = check that catches it | needs |\n|---|---|---|\n"+"\n".join("| %s | %s | %s |"%r for r in rows)+"\n"
t=open('/verif/tools/DESIGN.in.md').read().replace('@@TABLE@@',TABLE).replace('@@N@@',str(len(rows)))
open('/verif/DESIGN.md','w').write(t)
