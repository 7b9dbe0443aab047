rm -rf /tmp/pre; cp -a /repo /tmp/pre; cd /tmp/pre && python3 - "$1" "$2" <<'P'
import sys
ns={'M':[]}
exec(open(sys.argv[1]).read(),ns)
for name,k,ps,ed in ns['M']:
    if name==sys.argv[2]:
        for f,o,n in ed:
            s=open(f).read(); assert s.count(o)==1; open(f,'w').write(s.replace(o,n))
P
