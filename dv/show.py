import json,sys
d=json.load(open(sys.argv[1]))
if sys.argv[2]=='-n':
    seen=set()
    for k,f in sorted(d['fns'].items(), key=lambda x:x[1]['def']):
        if not f['body'] and f['def'] not in seen:
            seen.add(f['def']); print(f['def'],'   [',f['name'][:110] if f['name']!=f['def'] else '',']')
else:
    for n in sys.argv[2:]:
        for k,f in d['fns'].items():
            if n in f['name'] and f['body']:
                print('##',f['name'],f['def'],f['krate'],f['kind'])
                for i,b in enumerate(f['body']['blocks']):
                    print(i, b['l'])
                    for s in b['s']: print('    ',json.dumps(s)[:260])
                    print('   T',json.dumps(b['t'])[:300])
