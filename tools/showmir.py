import json,sys
def load(p='/verif/.cache/out/rowan.release.json'): return json.load(open(p))
def pl(p):
    s='_%d'%p['l']
    for x in p['p']:
        k=x['k'] if isinstance(x,dict) else x
        s+=f".{json.dumps(x)}"
    return s
def main():
    d=load(sys.argv[2] if len(sys.argv)>2 else '/verif/.cache/out/rowan.release.json')
    for b in d['bodies']:
        if b['name']==sys.argv[1] or b['key']==sys.argv[1]:
            print(json.dumps({k:v for k,v in b.items() if k not in('locals','blocks')}))
            for i,l in enumerate(b['locals']): print(i,l.get('n'),d['tys'][l['t']])
            for i,bl in enumerate(b['blocks']):
                print(i,bl.get('c'))
                for s in bl['s']: print('   ',json.dumps(s))
                print('   T',json.dumps(bl['t']))
main()
