import sys,json,subprocess
# reg.py ID technique note
i,t,n=sys.argv[1:4]
f='/verif/tools/checks.mjs'; s=open(f).read()
assert f'property: "{i}"' not in s
k=s.rindex('];')
s=s[:k]+f'  {{ property: "{i}", level: "model_checking", technique: {json.dumps(t)}, note: {json.dumps(n)} }},\n'+s[k:]
open(f,'w').write(s)
print(subprocess.run(['node','tools/gen.mjs'],cwd='/verif',capture_output=True,text=True).stdout)
