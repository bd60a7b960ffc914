import json,glob,os
s=open('DESIGN.md').read()
rows=[]
for d in sorted(glob.glob('seeded/*')):
    if not os.path.exists(d+'/meta.json'): continue
    m=json.load(open(d+'/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['needs'].replace('|','/')} | {m['property']} |")
tab="## Planted bugs\n\nEach is in `seeded/`, validated with `tools/seeds/seedtest.sh` (demo passes without, fails with; stable tests pass with it). Caught by the quick check named.\n\n| bug | needs | caught by |\n|---|---|---|\n"+"\n".join(rows)+"\n\n"
if "## Planted bugs" in s:
    a=s.index("## Planted bugs"); b=s.index("## TLC notes")
    s=s[:a]+tab+s[b:]
else:
    s=s.replace("## TLC notes",tab+"## TLC notes")
open('DESIGN.md','w').write(s)
