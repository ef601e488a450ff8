"""mut.py PROPS mutfile : mutfile has blocks '### name | file' then old, '---', new"""
import sys,subprocess,os,re
props=sys.argv[1].split(","); txt=open(sys.argv[2]).read()
env=dict(os.environ,VP_REPO="/tmp/mrepo",VP_WORK="/tmp/mwork")
for blk in re.split(r"^### ",txt,flags=re.M)[1:]:
    head,body=blk.split("\n",1)
    name,f=[x.strip() for x in head.split("|")]
    if len(sys.argv)>3 and not re.search(sys.argv[3],name): continue
    parts=re.split(r"^===\n",body,flags=re.M)
    edits=[]
    for part in parts:
        m=re.match(r"file: (.*)\n",part)
        ff=f
        if m: ff=m.group(1); part=part[m.end():]
        o,n=re.split(r"^---\n",part,maxsplit=1,flags=re.M)
        edits.append((ff,o.rstrip("\n"),n.rstrip("\n")))
    saved={}
    ok=True
    for ff,o,n in edits:
        p="/tmp/mrepo/"+ff; s=open(p).read(); saved.setdefault(p,s)
        if s.count(o)<1: print("!!",name,"pattern not found in",ff); ok=False; continue
        if s.count(o)>1: print("(",name,s.count(o),"occurrences, first replaced )")
        open(p,"w").write(s.replace(o,n,1))
    if ok:
        for pr in props:
            r=subprocess.run(["timeout","900","python3","/verif/check.py","--property",pr],env=env,capture_output=True,text=True)
            out=(r.stdout+r.stderr).strip().splitlines()
            print(name,pr,"rc",r.returncode); 
            for l in out[:-1][:4] if r.returncode==1 else out[-4:]: print("     ",l[:260])
    for p,s in saved.items(): open(p,"w").write(s)
