#!/usr/bin/env python3
"""run.py N WORKERS SEED [FILE...]: make N random small changes to the library, one at a time in scratch copies, and list
those no check reports. A development aid: nothing registered in MANIFEST.json uses it."""
import sys, os, json, random, subprocess, shutil, threading, time
V='/verif'; HERE=os.path.dirname(os.path.abspath(__file__))
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='1', VERIF_GRACE='0', VERIF_SEED='1')
MAP={'read.go':'C01 C02 C04 C03 C05 C07 C19','partialread.go':'C04 C02 C03 C20','write.go':'C11 C12 C05 C07 S08','udt_write.go':'C16 C11 C12 C05',
'ioi.go':'C10 C01 C14 S02 S04 C19 C02','path.go':'C14 C10 C18 C08','cip_definitions.go':'C14 C10 C18 C05 S01','pack.go':'C15 C21 C16 C11 S06','types.go':'C01 C16 C15 C11 S02 C17 S07',
'connect.go':'C08 C13 C14 C09 C06 C05 C07 S08','disconnect.go':'C08 C13 C06 S08 C07','sendreceive.go':'C09 C06 C07 C05 C08','client.go':'C08 C13 C06 C14 S08','items.go':'C18 C09 C01 C07 S01 S04',
'datatable.go':'C20 C05 C07','getattr.go':'C18 C05 C07 C09','listallprograms.go':'C17 C05 C07','listalltags.go':'C17 C05 C07','listmembers.go':'C17 C05 C07 C01','listsubtags.go':'C17 C05 C07',
'listidentity.go':'C18 C07 C05 S07 S08','listservices.go':'C18 C07 C05 S07 S08','messages.go':'C09 C05 C18','errors.go':'C05 C18 C17','services.go':'C05 C09 S01 C18','taggroup.go':'C19','taggroup_readmap.go':'C19',
'server.go':'S01 S05 S04 S06 S07 S08 S02','server_connected.go':'S02 S01 S04 S08 S03','server_connections.go':'S05 S01 S06 S04','server_io.go':'S06 S04','server_iochannel.go':'S06 S04','server_listidentity.go':'S07 S08 S01',
'server_router.go':'S02 S05 S03 S07 S08','server_unconnected.go':'S07 S02 S01 S04 S08','load_tags.go':'L01','l5x/types.go':'L01'}
def checks(f):
    if f.startswith('l5x/'): return ['L01']
    return MAP[f].split()
def main():
    n,workers,seed=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3])
    files=sys.argv[4:] or [f for f in MAP if f not in('l5x/types.go','load_tags.go')]+['l5x/load_tags.go','l5x/types.go']
    muts=[]
    for f in files:
        for l in subprocess.run([HERE+'/mutate',f],cwd='/repo',capture_output=True,text=True).stdout.splitlines(): muts.append(json.loads(l))
    random.Random(seed).shuffle(muts)
    muts=muts[:n]
    lock=threading.Lock(); it=iter(list(enumerate(muts)))
    log=open(f'/tmp/mut/log.{seed}','a')
    done=set()
    for l in open(f'/tmp/mut/log.{seed}'):
        try: done.add(json.loads(l)['i'])
        except Exception: pass
    def work(w):
        d=f'/tmp/mut/w{seed}.{w}'; repo=d+'/repo'
        subprocess.run(['rm','-rf',d]); os.makedirs(d)
        subprocess.run(f'git -C /repo archive HEAD | (mkdir -p {repo}; tar x -C {repo}); cp -a {V}/harness {d}/harness; cp {V}/known_findings.txt {d}/',shell=True)
        gm=d+'/harness/go.mod'; s=open(gm).read().replace('=> /repo','=> '+repo); open(gm,'w').write(s)
        os.makedirs(d+'/tmp')
        env=dict(ENV,TMPDIR=d+'/tmp')
        while True:
            with lock:
                try: i,m=next(it)
                except StopIteration: return
            if i in done: continue
            p=repo+'/'+m['file']; orig=open(p,'rb').read()
            new=orig[:m['from']]+m['new'].encode()+orig[m['to']:]
            open(p,'wb').write(new)
            t0=time.time(); res='?'; by=''
            try:
                r=subprocess.run(['go','build','-race','-o',d+'/vrun','./cmd/vrun'],cwd=d+'/harness',env=env,capture_output=True,text=True)
                if r.returncode: res='nobuild'
                else:
                    res='SURVIVED'
                    for c in checks(m['file']):
                        try:
                            r=subprocess.run(['unshare','-rn','sh','-c',f'ip link set lo up; exec timeout -k 5 400 {d}/vrun -prop {c} -tier quick -verif {d}'],cwd=d,env=env,capture_output=True,text=True,timeout=500)
                            rc=r.returncode
                        except subprocess.TimeoutExpired: rc=124
                        if rc==0: continue
                        res={1:'killed',2:'inconclusive',124:'slow',137:'slow'}.get(rc,'rc%d'%rc); by=c
                        for l in r.stdout.splitlines():
                            if l.strip().startswith('['): by+=' '+l.strip()[:60]; break
                        if rc==1: break
                        if rc in(2,124,137): by+=' INCONCLUSIVE'
                        break
            finally: open(p,'wb').write(orig)
            with lock:
                log.write(json.dumps(dict(i=i,res=res,by=by,s=round(time.time()-t0),**m))+'\n'); log.flush()
    ts=[threading.Thread(target=work,args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    print('done')
main()
