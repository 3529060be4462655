import json,collections
d=json.load(open('/tmp/rd/doc/yuv.json'));ix=d['index'];root=ix[str(d['root'])]
def ty(t):
    k=next(iter(t));v=t[k]
    if k=='primitive':return v
    if k=='generic':return v
    if k=='borrowed_ref':return '&'+('mut ' if v.get('is_mutable',v.get('mutable')) else '')+ty(v['type'])
    if k=='slice':return '['+ty(v)+']'
    if k=='resolved_path':
        a=v.get('args'); s=v.get('path',v.get('name')).split('::')[-1]
        if a and 'angle_bracketed' in a:
            xs=[ty(x['type']) for x in a['angle_bracketed']['args'] if 'type' in x]
            if xs:s+='<'+','.join(xs)+'>'
        return s
    if k=='tuple':return '('+','.join(map(ty,v))+')'
    return k
g=collections.defaultdict(list)
for i in root['inner']['module']['items']:
    it=ix[str(i)]
    if 'use' in it['inner']:
        u=it['inner']['use']; tgt=ix.get(str(u['id']))
        if tgt is None: print('missing',u);continue
        it2=tgt
    else: it2=it
    if 'function' in it2['inner']:
        f=it2['inner']['function']; s=f.get('sig',f.get('decl'))
        sig='('+', '.join(ty(t) for n,t in s['inputs'])+')'
        g[sig].append((it2['name'],[n for n,t in s['inputs']]))
    else: print(it2['name'],list(it2['inner'])[0])
tot=0
for s,l in g.items():
    tot+=len(l)
    print(s,len(l)); print('   ',' '.join(n for n,_ in l)); 
    print('    args', l[0][1])
print(tot)
json.dump({s:l for s,l in g.items()},open('/tmp/rd/sigs.json','w'))
