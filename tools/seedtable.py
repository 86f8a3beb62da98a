"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json,os,re
r='/verif/DESIGN.md'; s=open(r).read(); h='## Seeded bugs and the checks that catch them'
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} |")
t=h+'''

Each was confirmed with `tools/seed.sh ID` (builds, stable tests pass, demonstration passes
without and fails with it, quick check of its property reports it). All are caught by the
check of their own property.

| planted bug | caught by | needs |
|---|---|---|
'''+'\n'.join(rows)+'\n'
open(r,'w').write(s[:s.index(h)]+t)
