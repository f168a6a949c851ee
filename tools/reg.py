import json,sys
def load(): return json.load(open('/verif/checks.json'))
def save(c):
    out=[]
    for k,v in c.items():
        s=' "%s": {"bounds": %s,\n  "assumptions": %s,\n  "harnesses": [\n'%(k,json.dumps(v["bounds"]),json.dumps(v["assumptions"]))
        s+=',\n'.join('   '+json.dumps(h) for h in v["harnesses"])+']}'
        out.append(s)
    open('/verif/checks.json','w').write('{\n'+',\n'.join(out)+'\n}\n')
def reg(id,bounds,fns,assumptions=()):
    c=load()
    hs=[]
    for f in fns:
        if isinstance(f,str):
            p,n=f.rsplit('.',1); hs.append({"pkg":p,"fn":n})
        else: hs.append(f)
    c[id]={"bounds":bounds,"assumptions":list(assumptions),"harnesses":hs}
    c=dict(sorted(c.items(),key=lambda kv:"IVSCHBFUKX".index(kv[0][0])*1000+int(kv[0][1:])))
    save(c)
