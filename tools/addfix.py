import json,sys
# usage: addfix.py PROP CONTRACT HASH TEXT
p='/verif/known_findings.json'
d=json.load(open(p))
prop,c,h,t=sys.argv[1:5]
d['findings'].append({"property":prop,"contract":c,"obligation":"*","what":f"fixed: property={prop} {h} {t}","fixed":h})
json.dump(d,open(p,'w'),indent=1)
