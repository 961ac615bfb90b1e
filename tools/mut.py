"""mut.py file CHECKS... : reads cases from file: blocks
### name | expect(bad/ok)
@@ path
<<<<
old
====
new
>>>>
"""
import sys,os,re,shutil,subprocess
from concurrent.futures import ThreadPoolExecutor
src=open(sys.argv[1]).read()
only=None
checks=[a for a in sys.argv[2:] if not a.startswith('-')]
def runcase(c):
    head,body=c.split('\n',1)
    name,_,rest=head.partition('|'); name=name.strip()
    exp,_,chk=rest.strip().partition(' ')
    cs=checks or chk.split() or [os.path.basename(sys.argv[1])[:-4].upper()]
    d=f'/tmp/vmut/{os.getpid()}-'+re.sub(r'\W+','_',name)+f'-{abs(hash(name))%10**6}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-r','/repo/.','--target-directory',d] if False else ['rsync','-a','--exclude','.git','--exclude','_build','--exclude','3rdparty','/repo/',d+'/'],check=True)
    for m in re.finditer(r'@@ (\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>',body,re.S):
        p=os.path.join(d,m[1]); s=open(p).read()
        if s.count(m[2])<1: return f'{name}: PATCH FAILED {m[2][:60]!r}'
        open(p,'w').write(s.replace(m[2],m[3],1))
    out=[]
    for k in cs:
        r=subprocess.run(['/opt/venv/bin/python',os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'check.py'),k],env=dict(os.environ,SA_ROOT=d,SA_EVID='/tmp/vmut-ev'),capture_output=True,text=True)
        got={0:'quiet',1:'ALARM'}.get(r.returncode,'rc%d'%r.returncode)
        good=(got=='ALARM')==(exp=='bad') and got in('quiet','ALARM')
        out.append(f"{'  ' if good else '!!'} {name} [{k}] {got} expected {exp}")
        if not good or '-v' in sys.argv:
            out.append('\n'.join('       '+l[:260] for l in (r.stdout+r.stderr[-800:]).splitlines()))
    shutil.rmtree(d,ignore_errors=True)
    return '\n'.join(out)
cases=[c for c in re.split(r'^### ',src,flags=re.M) if c.strip()]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(runcase,cases): print(r)
