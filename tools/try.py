#!/usr/bin/env python3
# try.py FILE [-v] [ids]: blocks "### name / @file / <<<< old ==== new >>>>"; applies each to a scratch copy, builds, runs tests, runs the checks
import sys,re,os,subprocess,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
f=sys.argv[1]; v='-v' in sys.argv; only=[a[2:] for a in sys.argv if a.startswith('-n')]; ids=[a for a in sys.argv[2:] if a[0]!='-'] or ['all']
txt=open(f).read()
muts=[]
for b in re.split(r'^### ',txt,flags=re.M)[1:]:
    name,rest=b.split('\n',1)
    eds=[]
    file=None
    for m in re.finditer(r'^(?:@(\S+)\n)?<<<<\n(.*?)^====\n(.*?)^>>>>\n',rest,flags=re.M|re.S):
        file=m.group(1) or file
        eds.append((file,m.group(2),m.group(3)))
    muts.append((name.strip(),eds))
subprocess.run(['/verif/check.sh','build'],check=True)
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off')
def one(m):
    name,eds=m
    if only and name not in only: return ''
    d=tempfile.mkdtemp(prefix='try',dir='/tmp')
    try:
        os.makedirs(d+'/r'); os.makedirs(d+'/v')
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {d}/r',shell=True,check=True)
        shutil.copy('/verif/known-findings.txt',d+'/v/')
        for fn,old,new in eds:
            p=d+'/r/'+fn
            s=open(p).read() if os.path.exists(p) else ''
            if old.strip()=='' : s=s+new
            else:
                if s.count(old)<1: return f'{name}: OLD NOT FOUND in {fn}: {old[:60]!r}\n'
                s=s.replace(old,new,1)
            open(p,'w').write(s)
        b=subprocess.run('go build ./... && timeout 60 go test ./... 2>&1 | grep -E "^--- FAIL|^FAIL.*build" | grep -vE "TestParseMonthDay|gledger/reporting" | head -5',shell=True,cwd=d+'/r',capture_output=True,text=True)
        note=(b.stdout+b.stderr).strip()
        r=subprocess.run(['/verif/bin/gcheck']+ids,env=dict(os.environ,GCHECK_REPO=d+'/r',GCHECK_VERIF=d+'/v'),capture_output=True,text=True)
        vi=[l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        o=f'{name}: {" ".join(vi)} {("<<"+note+">>") if note else ""}\n'
        if v or any('neutral' in name and vi for _ in [0]): o+='\n'.join(l for l in r.stdout.split('\n') if l.startswith('  '))+'\n'
        if r.returncode not in (0,1): o+=r.stdout+r.stderr
        return o
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(7) as ex:
    for o in ex.map(one,muts): sys.stdout.write(o)
