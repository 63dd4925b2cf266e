#!/usr/bin/env python3
# run.py [ids...]: write /verif/seeded/<id>, confirm, and run the property's check with $VF (default /tmp/vf2)
import sys,os,subprocess,shutil,glob,json,importlib.util
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
import lib
for f in sorted(glob.glob(here+'/s*.py')):
    sp=importlib.util.spec_from_file_location(os.path.basename(f)[:-3],f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want=sys.argv[1:]
vf=os.environ.get('VF','/tmp/vf2')
def sh(c,cwd=None):
    return subprocess.run(['bash','-c','. /opt/vp/env.sh >/dev/null 2>&1; '+(f'cd {cwd};' if cwd else '')+c],capture_output=True,text=True)
ids=set()
for s in lib.SEEDS:
    assert s['id'] not in ids, s['id']; ids.add(s['id'])
    if want and not any(s['id'].startswith(w) for w in want): continue
    d='/verif/seeded/'+s['id']; c='/tmp/seedcopy'
    shutil.rmtree(c,ignore_errors=True); subprocess.run(['cp','-a','/repo',c])
    ok=True
    for f,a,b in s['edits']:
        p=c+'/'+f; t=open(p).read()
        if t.count(a)!=1: print(s['id'],'EDIT MATCHES',t.count(a),a[:60]); ok=False; break
        open(p,'w').write(t.replace(a,b))
    if not ok: continue
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',c,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.go.txt','w').write(lib.PRE+s['demo'].rstrip()+'\n}\n' if '\n//--\n' not in s['demo'] else lib.PRE+s['demo'].split('\n//--\n')[0].rstrip()+'\n}\n'+s['demo'].split('\n//--\n')[1])
    open(d+'/demo.sh','w').write(lib.SH); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    t=sh('go build ./soql/... . && go vet ./soql/... >/dev/null; go test ./... 2>&1 | grep -c -e "^--- FAIL" -e "^FAIL"',c)
    tests=t.stdout.strip()
    demo=lib.SH.replace('/repo',c)
    def run(dir):
        x=lib.SH.replace('cd /repo','cd '+dir).replace('/repo/zz',dir+'/zz').replace('. /opt/vp/env.sh 2>/dev/null','. /opt/vp/env.sh 2>/dev/null; cd '+dir)
        open('/tmp/demo_x.sh','w').write(x.replace('dir=$(cd "$(dirname "$0")" && pwd)','dir='+d))
        r=subprocess.run(['bash','/tmp/demo_x.sh'],capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr).strip()[:160]
    b=run('/repo'); m=run(c)
    r=subprocess.run([vf,'check','-home','/tmp/vhs','-repo',c,s['prop']],capture_output=True,text=True)
    caught=r.returncode==1 and 'VIOLATION property='+s['prop'] in r.stdout
    good=tests=='0' and b[0]==0 and m[0] not in (0,3)
    print(('OK ' if good else 'BAD'),s['id'],'CAUGHT' if caught else 'missed','' if good else f'tests={tests} base={b} mut={m} {t.stderr[:200]}', ('' if caught else m[1]))
    if not good: shutil.rmtree(d)
    sys.stdout.flush()
