import json,glob,collections,sys
cnt=collections.Counter(); by={}
import re
for f in sorted(glob.glob(f'/verif/out/{sys.argv[1]}/violation-*.json')):
    v=json.load(open(f)); k=re.sub(r'\d+','N',v["what"][:130]); cnt[k]+=1; by.setdefault(k,[]).append((len(v["case"].get("sql","")),f.split('-')[-1]))
for k,n in cnt.most_common(): print(n,k,sorted(by[k])[:4])
