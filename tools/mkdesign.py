import json,glob,os
s=open('/verif/tools/DESIGN.tmpl.md').read()
rows=[]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} |")
M=json.load(open('/verif/MANIFEST.json'))
more=open('/verif/tools/DESIGN.more.md').read()
nal='\n'.join(f"* {n['property']}: {n['reason']}" for n in M['not_applicable']) or 'None.'
s=s.replace('@@MORE@@',more.replace('@@NA@@',nal)).replace('@@SEEDED@@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
