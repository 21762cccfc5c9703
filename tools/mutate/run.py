#!/usr/bin/env python3
"""mutation campaign: run.py OUT.jsonl N PACKAGE...   (development tool; no check uses it)
samples N mutants of every package, drops those the package's own tests notice, runs the
properties of the package on the others and lists the survivors."""
import json,os,random,shutil,subprocess,sys,threading,queue
SLOTS=int(os.environ.get('SLOTS','8'))
W=os.environ.get('MUTW','/tmp/mut')
out,n,pkgs=sys.argv[1],int(sys.argv[2]),sys.argv[3:]
rnd=random.Random(int(os.environ.get('MUTSEED','1')))
ALL=['C03','C04','C05','C06']
def props(f):
    d=f.split('/')[0]; b=os.path.basename(f)
    m={'cluster':['C09'],'neighbors':['C07','C08'],'preprocessing':['C10','C11','C12'],'model_selection':['C13','C14'],
       'metrics':['C15','C16','C17'],'linear_model':['C18','C19'],'svm':['C20'],'gaussian_process':['C21','C22'],
       'neural_network':['C23'],'interpolate':['C25'],'naive_bayes':['C26'],'pipeline':['C27'],'datasets':['C28']}
    if d!='base': return m[d]+ALL
    if 'parallel' in b: return ['C01','C02']
    if 'source' in b or 'rand' in b: return ['C02','C06','C14']
    if 'optim' in b or 'activ' in b: return ['C24','C23']+ALL
    return ['C29','C24','C18','C23']+ALL
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GO111MODULE='on',GOCACHE=W+'/cache',HOME='/root',PATH='/usr/local/go/bin:'+os.environ['PATH'])
SKIP="^(TestLoadOctaveBin|ExampleLoadMnist|ExampleBaseMultilayerPerceptron32_Fit_mnist|ExampleMLPClassifier_Fit_mnist|ExampleMLPClassifier_Predict_mnist)$"
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
os.makedirs(W,exist_ok=True)
def sh(cmd,cwd,t,slot):
    e=dict(env,TMPDIR=f'{W}/{slot}/tmp')
    p=subprocess.Popen(['taskset','-c',str(slot%8)]+cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,process_group=0)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except: pass
        p.communicate(); return -9,'timeout'
def tests(cwd,pk,slot):
    rc,o=sh(['go','test','-json','-vet=off','-count=1','-timeout','150s','-skip',SKIP]+pk,cwd,400,slot)
    ok=set();pkgsrun=set();bad=[]
    for l in o.splitlines():
        if not l.startswith('{'): continue
        j=json.loads(l)
        pkgsrun.add(j.get('Package',''))
        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
    need={s for s in stable if s.rsplit('/',1)[0] in pkgsrun or any(s.startswith(q+'/Test') or s.startswith(q+'/Example') for q in pkgsrun)}
    if not pkgsrun: return ['nothing ran: '+o[-300:]]
    return sorted(need-ok)
def work(slot,q,fh,lock):
    b=f'{W}/{slot}'
    shutil.rmtree(b,ignore_errors=True); os.makedirs(b+'/tmp')
    src=os.environ.get('VSRC','/verif')
    subprocess.check_call(['cp','-a','/repo',b+'/repo'])
    os.makedirs(b+'/verif')
    for x in ['check.sh','harness','known_findings.json']: subprocess.check_call(['cp','-a',src+'/'+x,b+'/verif/'])
    g=b+'/verif/harness/go.mod'; s=open(g).read().replace('=> /repo',f'=> {b}/repo'); open(g,'w').write(s)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        f=b+'/repo/'+m['file']; orig=open(f,'rb').read()
        mut=orig[:m['off']]+m['text'].encode()+orig[m['off']+m['len']:]
        r=dict(m)
        try:
            open(f,'wb').write(mut)
            pk='./'+os.path.dirname(m['file'])
            rc,o=sh(['go','build','./...'],b+'/repo',120,slot)
            if rc!=0: r['res']='nocompile'; continue
            miss=tests(b+'/repo',[pk],slot)
            if miss: r['res']='tests'; r['by']=miss[0]; continue
            r['res']='survived'
            for stage in (['-scale','1'],[]):
                for p in props(m['file']):
                    rc,o=sh(['bash',b+'/verif/check.sh',p,'quick','-failfast']+stage,b+'/verif',200 if stage else 600,slot)
                    if rc!=0:
                        r['res']='caught' if rc in(1,-9) and 'build failed' not in o else 'rc%d'%rc
                        r['by']=p; r['stage']='1' if stage else 'full'
                        r['msg']=[l.strip() for l in o.splitlines() if 'key:' in l][:1] or o[-300:]
                        break
                if r['res']!='survived': break
            if r['res']=='survived':
                miss=tests(b+'/repo',['./...'],slot)
                if miss: r['res']='tests'; r['by']=miss[0]
        finally:
            open(f,'wb').write(orig)
            with lock: fh.write(json.dumps(r)+'\n'); fh.flush()
done=set()
if os.path.exists(out):
    for l in open(out):
        j=json.loads(l); done.add((j['file'],j['off'],j['text']))
q=queue.Queue(); jobs=[]
for p in pkgs:
    ms=[]
    if '.go' in p: fs=[p]
    else: fs=subprocess.check_output(f"cd /repo && ls {p}/*.go | grep -v _test.go | grep -v '32.go'",shell=True).decode().split()
    for l in subprocess.check_output(['/tmp/mutgen']+fs,cwd='/repo').decode().splitlines(): ms.append(json.loads(l))
    rnd.shuffle(ms); jobs+=ms[:n]
rnd.shuffle(jobs)
for m in jobs:
    if (m['file'],m['off'],m['text']) not in done: q.put(m)
print(q.qsize(),'mutants')
lock=threading.Lock(); fh=open(out,'a')
ts=[threading.Thread(target=work,args=(i,q,fh,lock)) for i in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
