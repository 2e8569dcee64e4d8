"""Merge technique/note texts into levels.json: levels_add.py ID technique note"""
import json,sys
p='/verif/tools/levels.json'; d=json.load(open(p))
d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
open(p,'w').write("{\n"+",\n".join('%s: %s'%(json.dumps(k),json.dumps(d[k])) for k in sorted(d))+"\n}\n")
