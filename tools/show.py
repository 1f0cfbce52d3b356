import json,sys
d=json.load(open(sys.argv[1]))
print(d['what'],'|',d['id'],d['event']); print(json.dumps(d['before'][-1:])[:1500]); print(json.dumps(d['refused'])[:1500])
open('/tmp/fx/c.txt','w').write('\n'.join(d['scripts'])+'\n')
for s in d['scripts'][:3]: print(s[:900])
