import json,sys
n=ok=0
for l in open(sys.argv[1]):
    if not l.startswith('{"unit"'): continue
    u=json.loads(l); n+=1; ok+=u["status"]=="ok"
    if u["status"]!="ok" or u["findings"]:
        print(u["unit"],"|",u["rule"],"|",u["status"][:600])
        for f in u["findings"]:
            print("    ",f["property"],f["what"])
            if len(sys.argv)>2: print("         ",f["detail"][:3000])
print(n,"units",ok,"ok")
