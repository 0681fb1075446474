import json,sys
d=json.load(open(sys.argv[1])); r=d['replay']
print(d['message']); ep=[json.loads(x) for x in r['episode']]
print(json.dumps(ep[0]))
for e in ep[-int(sys.argv[2]):]:
    print({k:v for k,v in e.items() if k not in('outs',)})
    for o in e['outs']:
        print({k:v for k,v in o.items() if k!='data'})
        w,h,a=o['w'],o['h'],o['a']
        for k in range(min(a,4)):
            for y in range(h): print(o['data'][(k*h+y)*w:(k*h+y+1)*w])
            print()
print(r['tlc'][-900:])
