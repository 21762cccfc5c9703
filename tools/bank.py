#!/usr/bin/env python3
"""bank.py FILE...: every FILE defines BUGS=[(id, property, file, old, new)...] (development tool; no check uses it).
Applies each change to a copy of /repo, runs the package's stable tests and the property's quick check."""
import importlib.util,json,os,queue,shutil,subprocess,sys,threading,time
SLOTS=int(os.environ.get('SLOTS','3')); W=os.environ.get('BANKW','/tmp/bankw')
ALLTESTS=os.environ.get('ALLTESTS')
sys.argv0=sys.argv[0]
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SKIP="^(TestLoadOctaveBin|ExampleLoadMnist|ExampleBaseMultilayerPerceptron32_Fit_mnist|ExampleMLPClassifier_Fit_mnist|ExampleMLPClassifier_Predict_mnist)$"
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GO111MODULE='on',HOME='/root',PATH='/usr/local/go/bin:'+os.environ['PATH'])
only=set(os.environ.get('ONLY','').split()) 
bugs=[]
for f in sys.argv[1:]:
    ns={}; exec(open(f).read(),ns)
    bugs+=[b for b in ns['BUGS'] if not only or b[0] in only]
def sh(cmd,cwd,t=900):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,process_group=0)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,'timeout'
q=queue.Queue()
for b in bugs: q.put(b)
lock=threading.Lock()
def work(slot):
    b=f'{W}/{slot}'; shutil.rmtree(b,ignore_errors=True); os.makedirs(b)
    subprocess.check_call(['cp','-a','/repo',b+'/repo']); os.makedirs(b+'/verif')
    for x in ['check.sh','harness','known_findings.json']: subprocess.check_call(['cp','-a',os.environ.get('VSRC','/verif')+'/'+x,b+'/verif/'])
    g=b+'/verif/harness/go.mod'; s=open(g).read().replace('=> /repo',f'=> {b}/repo'); open(g,'w').write(s)
    while True:
        try: bug=q.get_nowait()
        except queue.Empty: break
        id,prop,file,old,new=bug[:5]
        f=b+'/repo/'+file; src=open(f).read()
        res=''
        if src.count(old)!=1: res=f'MATCHES {src.count(old)}'
        else:
            open(f,'w').write(src.replace(old,new))
            rc,o=sh(['go','build','./...'],b+'/repo')
            if rc: res='NOCOMPILE '+o[-300:]
            else:
                rc,o=sh(['go','test','-json','-vet=off','-count=1','-skip',SKIP,'./...'],b+'/repo')
                ok=set()
                for l in o.splitlines():
                    if l.startswith('{'):
                        j=json.loads(l)
                        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test']); ok.add(j['Package']+'.'+j['Test']); ok.add(j['Package']+'::'+j['Test']); ok.add(j['Test'])
                        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package'].replace('github.com/pa-m/sklearn/','')+'::'+j['Test'])
                miss=[s for s in stable if s not in ok]
                if miss: res=f'TESTS {len(miss)} {miss[:2]}'
                else:
                    t=time.time()
                    rc,o=sh(['./check.sh',prop,'quick','-failfast'],b+'/verif',1500)
                    res={0:'MISSED',1:'caught'}.get(rc,f'rc {rc}')+f' {time.time()-t:.0f}s'
                    if rc==1: res+=' '+' '.join([l for l in o.splitlines() if 'VIOLATION' in l or 'violat' in l][:1])[-110:]
                    elif rc: res+=o[-300:]
            open(f,'w').write(src)
        with lock: print(id,prop,res,flush=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W,ignore_errors=True)
