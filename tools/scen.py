import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json')); print(e['wall_s'])
s=e['coverage']['scenarios']
for x in sorted(s,key=lambda x:-x.get('cpu_s',x.get('executions',0)))[:int(sys.argv[2]) if len(sys.argv)>2 else 12]: print(x)
