import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for j in sorted(d['coverage']['jobs'],key=lambda j:-j['wall_s'])[:int(sys.argv[2]) if len(sys.argv)>2 else 5]: print(j['job'],j['paths'],j['smt'],j['wall_s'])
