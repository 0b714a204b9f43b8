import json,sys
v=json.load(open(sys.argv[1])); c=v["case"]; r=v["result"]
print(v["what"][:400]); print(c.get("sql")); print("cfg",json.dumps(c.get("cfg")))
for l in c.get("leaves",[]): print(" leaf",json.dumps(l))
if "-l" in sys.argv:
    for e in (r or {}).get("log",[]): print("   ",json.dumps(e))
print({k:x for k,x in (r or {}).items() if k not in("log","plan","phys")})
for k in ("phys","plan"): print((r or {}).get(k,""))
