import json,sys
p=sys.argv[1]
d=json.load(open(p)); r=d['replay']
print(d['message']); print(r.get('rejected_event')); 
ep=r.get('episode',[])
n=int(sys.argv[2]) if len(sys.argv)>2 else 6
for x in ep[:2]+['...']+ep[-n:]: print(x[:600])
print(r.get('tlc','')[-int(sys.argv[3]) if len(sys.argv)>3 else -600:])
