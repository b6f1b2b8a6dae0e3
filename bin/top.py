import json,sys
r=json.load(open('/verif/build/%s.json'%sys.argv[1])); T=r['tasks']; k=sys.argv[2] if len(sys.argv)>2 else 'cpu'
for t in sorted(T,key=lambda t:-t[k])[:int(sys.argv[3]) if len(sys.argv)>3 else 15]: print(t['name'],'paths',t['paths'],'Msteps',t['steps']//1000000,'q',t['queries'],'solve',round(t['tsolve'],1),'cpu',round(t['cpu'],1),t['complete'],t['error'][:50])
print('total cpu',sum(t['cpu'] for t in T),'solve',sum(t['tsolve'] for t in T),'Msteps',sum(t['steps'] for t in T)//1000000,'incomplete',sum(not t['complete'] for t in T))
