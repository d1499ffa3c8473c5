"""rewrite the table of planted bugs in DESIGN.md (run by hand)"""
import json,os,re
d='/verif/seeded'
rows=[]
for n in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{n}/meta.json'))
    rows.append("| %s | %s | %s | %s |"%(n,m['property'],m['needs'],{'c01-next-prime-up':'C01, C23'}.get(n,m['property'])))
t="""Each was written from a property's statement and the code alone, passes the 157 stable tests and has a demonstration. All are
caught by the quick check of their property (the last column; other checks are listed where they were seen to catch it too).

| planted bug | property | what it needs to show | caught by |
|---|---|---|---|
"""+"\n".join(rows)+"\n"
p='/verif/DESIGN.md';s=open(p).read()
i=s.index('## 5. Planted bugs')
rest=s[i:]
j=rest.find('\n## 6')
tail=rest[j:] if j>=0 else ''
a="""## 5. Planted bugs

<!-- table written by tools/bugtable.py -->
"""
open(p,'w').write(s[:i]+a+t+tail)
