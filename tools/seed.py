"""seed.py SPEC [ID]: builds /verif/seeded/<id>/ from a spec, after confirming in a
scratch copy that the change passes the tests, and that the demo passes without and
fails with it. Spec blocks:
### id | C01
needs: one line
breaks: one line
@@ path / <<<< / old / ==== / new / >>>>   (edits)
%%%%
python demo (run with cwd = tree; must exit 0 on the good tree)
"""
import sys,os,re,json,shutil,subprocess,tempfile
SPEC=open(sys.argv[1]).read(); only=set(sys.argv[2:])
ENV=dict(os.environ,PATH='/opt/venv/bin:'+os.environ['PATH'],PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# run with cwd = the tree under test
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
export PATH=/opt/venv/bin:$PATH
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export SCRATCH="$scratch"
timeout 120 /opt/venv/bin/python "$here/demo.py"
'''
for blk in re.split(r'^### ',SPEC,flags=re.M):
    if not blk.strip(): continue
    head,body=blk.split('\n',1); sid,prop=[x.strip() for x in head.split('|')]
    if only and sid not in only: continue
    edits,demo=body.split('\n%%%%\n',1)
    needs=re.search(r'^needs: (.*)$',edits,re.M)[1]; breaks=re.search(r'^breaks: (.*)$',edits,re.M)[1]
    w=tempfile.mkdtemp(prefix='seed',dir='/tmp')
    try:
        subprocess.run(['git','clone','-q','/repo',w+'/r'],check=True)
        d='/verif/seeded/'+sid; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755); open(d+'/demo.py','w').write(demo)
        r0=sh(['bash',d+'/demo.sh'],w+'/r')
        ok=True
        for m in re.finditer(r'@@ (\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>',edits,re.S):
            p=os.path.join(w,'r',m[1]); s=open(p).read()
            if s.count(m[2])!=1: print(sid,'PATCH',s.count(m[2]),m[2][:50]); ok=False; break
            open(p,'w').write(s.replace(m[2],m[3]))
        if not ok: shutil.rmtree(d); continue
        diff=sh(['git','diff'],w+'/r').stdout; open(d+'/patch.diff','w').write(diff)
        r1=sh(['bash',d+'/demo.sh'],w+'/r')
        t=sh(['/opt/venv/bin/python','-m','pytest','lulua','-q','-p','no:cacheprovider','--no-cov','-x','-n0' if False else '-q'],w+'/r')
        tl=(t.stdout.strip().splitlines() or [''])[-1]
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        c=subprocess.run(['/opt/venv/bin/python','/verif/check.py',prop],env=dict(os.environ,SA_ROOT=w+'/r',SA_EVID='/tmp/seed-ev'),capture_output=True,text=True)
        good=r0.returncode==0 and r1.returncode!=0 and t.returncode==0
        print(f"{'OK' if good else '!!'} {sid} demo {r0.returncode}->{r1.returncode} tests rc{t.returncode} {tl[:60]} | check {prop} rc{c.returncode}")
        if not good: print((r0.stdout+r0.stderr)[-600:],'---',(r1.stdout+r1.stderr)[-400:],'---',t.stdout[-500:]); shutil.rmtree(d)
        elif c.returncode!=1: print('   ',c.stdout[-300:],c.stderr[-300:])
    finally: shutil.rmtree(w)
