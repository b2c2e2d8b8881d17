import json, os, subprocess, time, glob
R='/tmp/mut/crepo'; V='/tmp/mut/verif'
ORD={'fieldx/src':['C01','C07','C04','C08','C03','C06','C05','C02','C15','C11','C10','C14','C09','C16'],
 'fieldx_derive/src/codegen/serde':['C16','C17','C20','C12'],
 'fieldx_derive/src/codegen/sync':['C07','C01','C09','C04','C11','C06','C03','C15','C08','C05'],
 'fieldx_derive/src/codegen/plain':['C10','C11','C14','C09','C12','C20'],
 '':['C20','C18','C10','C12','C16','C13','C11','C09','C15','C17','C19','C14','C07','C04','C01','C03','C06','C08','C05','C02']}
ALL=ORD['']
done='/tmp/mut/p2.jsonl'
while True:
    have={json.loads(l)['i'] for l in open(done)} if os.path.exists(done) else set()
    todo=sorted(int(os.path.basename(f)[1:-5]) for f in glob.glob('/tmp/mut/surv/m*.diff'))
    todo=[i for i in todo if i not in have and str(i) not in open('/tmp/mut/skip.txt').read().split()]
    if not todo: time.sleep(30); continue
    i=todo[0]; d='/tmp/mut/surv/m%d.diff'%i
    subprocess.run(['git','checkout','-q','--','.'],cwd=R)
    a=subprocess.run(['git','apply',d],cwd=R)
    if a.returncode:
        open(done,'a').write(json.dumps({'i':i,'r':'noapply'})+'\n'); continue
    txt=open(d).read()
    f=[l[6:] for l in txt.split('\n') if l.startswith('+++ b/')][0]
    order=next(v for k,v in ORD.items() if f.startswith(k))
    order=order+[x for x in ALL if x not in order]
    r='uncaught'; t=time.time(); errs=[]
    for p in order:
        try: c=subprocess.run(['python3',V+'/check.py',p],cwd=V,env=dict(os.environ,FX_REPO=R,VERIF_DIR=V,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True,timeout=900)
        except subprocess.TimeoutExpired: errs.append(p+':timeout'); continue
        if c.returncode==1: r=p; break
        if c.returncode: errs.append('%s:%d'%(p,c.returncode))
    open(done,'a').write(json.dumps({'i':i,'r':r,'t':round(time.time()-t),'f':f,'errs':errs})+'\n')
