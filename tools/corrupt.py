import sys,random,json,copy,re
sys.path.insert(0,'/verif')
from vt import core,plans
sys.path.insert(0,'/verif')
import check
def leaves(o,path=()):
    if isinstance(o,dict):
        for k in o: yield from leaves(o[k],path+(k,))
    elif isinstance(o,list):
        yield path,'list'
        for k,x in enumerate(o): yield from leaves(x,path+(k,))
    elif isinstance(o,bool): yield path,'bool'
    elif isinstance(o,int): yield path,'int'
    elif isinstance(o,str): yield path,'str'
def setp(o,path,f):
    for p in path[:-1]: o=o[p]
    o[path[-1]]=f(o[path[-1]])
core.BROKEN=60
SKIP={(("out",),"list"),(("out","*","t"),"int"),(("raw","*","t"),"int"),(("raw",),"list"),(("prefixes",),"list")}
names=sys.argv[1:] or list(plans.STREAMS)
r=random.Random(5)
for name in names:
    st=plans.STREAMS[name]
    ctx=core.Ctx("FZ","quick",1)
    cases=[st.make(r) for _ in range(60 if name in('large-cloud','long-session','dense-session','big-frame') else 250)]
    if 'large' in name or 'long' in name: cases=cases[:8]
    for i,c in enumerate(cases): c["id"]=i+1
    h=[st.prepare(ctx,c) for c in cases] if st.prepare else cases
    obs=core.run_cases(ctx,h)
    recs=[]
    for c in cases:
        o=obs[c["id"]]
        if o["st"]!="ok": continue
        base=st.post(c,o["obs"]) if st.post else o["obs"]
        for _ in range(6 if len(cases)>10 else 30):
            x=copy.deepcopy(base); L=list(leaves(x))
            ks=[l for l in L if l[1] in('int','list') and l[0]]
            if not ks: continue
            # pick the kind of leaf by key shape, so that rare ones get their turn
            shapes={}
            for p,k in ks: shapes.setdefault((tuple(q if isinstance(q,str) else '*' for q in p),k),[]).append(p)
            for z in SKIP: shapes.pop(z,None)
            if not shapes: continue
            sh=r.choice(list(shapes)); p=r.choice(shapes[sh])
            if sh[1]=='int': f=lambda v:r.choice([2000000000,-2000000000,2000000001,-1,0,v+1,v*2,-v])
            else: f=lambda v:r.choice([v[:-1],v[1:],v+v[-1:],[]] if v else [[1]])
            setp(x,p,f)
            n=len(recs)+1
            recs.append({"id":n,"c":st.slim(c) if st.slim else c,"st":"ok","o":x,"_p":str(sh)})
    shp={x["id"]:x.pop("_p") for x in recs}
    bad,broken=core.validate(ctx,st.module,recs)
    ctx.close()
    un={}
    for k,v in shp.items():
        a=un.setdefault(v,[0,0]); a[0]+=1; a[1]+= k in bad
    print("==",name,len(recs),"rejected",len(bad),"broken",len(broken))
    seen={}
    for b in broken:
        cid=re.search(r"at case (\d+)",b); shape=shp.get(int(cid.group(1)),"?") if cid else "?"
        pos=re.findall(r"^\d+\. (Line .*)$",b,re.M); exc=re.search(r"exception was.*?\n(.*?)\n(?:Error|\"REJ|\n)",b,re.S)
        seen.setdefault(((pos[-1] if pos else (exc.group(0)[:300] if exc else b[-600:])),shape),0); seen[((pos[-1] if pos else (exc.group(0)[:300] if exc else b[-600:])),shape)]+=1
    for k,v in seen.items(): print("   BROKEN",v,k)
    for v in sorted(un):
        if un[v][1]<un[v][0]*0.3: print("   weak",v,un[v])
