import json,glob,ast,sys,dis
hits={}
for f in glob.glob("/tmp/cov/*/*.json"):
    for k,v in json.load(open(f)).items(): hits.setdefault(k,set()).update(v)
def lines(f):
    c=compile(open(f).read(),f,"exec"); out=set(); st=[c]
    while st:
        c=st.pop(); out|={l for _,_,l in c.co_lines() if l}; st+=[k for k in c.co_consts if hasattr(k,"co_lines")]
    return out
for f in sorted(glob.glob("/repo/feax/**/*.py",recursive=True)):
    k=f.split("/repo/")[1]; a=lines(f); m=sorted(a-hits.get(k,set()))
    pct=100*(1-len(m)/max(1,len(a)))
    print(f"{k}: {pct:.0f}% of {len(a)}")
    if len(sys.argv)>1 and any(s in k for s in sys.argv[1:]):
        src=open(f).read().split("\n")
        for l in m: print("   ",l,src[l-1][:130])
