import json,sys
for p in sys.argv[1:]:
  d=json.load(open('/verif/evidence/%s.json'%p))['coverage']['chunks']
  t=sorted(((v['s'] or 0,k,v['transitions']) for k,v in d.items()))
  print(p,'cpu',round(sum(x[0] for x in t),1),t[-4:])
