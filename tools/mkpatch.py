#!/usr/bin/env python3
"""mkpatch.py <id> <file> [-n N] : reads OLD/NEW from seeded/<id>/edit.txt (blocks '<<<< file\\nold\\n====\\nnew\\n>>>>'), writes patch.diff against /repo HEAD"""
import sys,re,subprocess,os,tempfile,shutil
i=sys.argv[1]; d=f"{os.environ.get('SEEDS','/verif/seeded')}/{i}"
t=open(f'{d}/edit.txt').read()
blocks=re.findall(r'<<<< (\S+)(?: (\d+))?\n(.*?)\n====\n(.*?)\n?>>>>',t,re.S)
assert blocks
orig={}
for f,n,old,new in blocks:
    cur=orig.setdefault(f,[subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True)]*2)
    s=cur[1]
    c=s.count(old)
    if n:
        n=int(n); p=-1
        for _ in range(n): p=s.index(old,p+1)
        s=s[:p]+new+s[p+len(old):]
    else:
        assert c==1,(f,c,old)
        s=s.replace(old,new)
    orig[f]=[cur[0],s]
out=''
for f,(a,b) in orig.items():
    td=tempfile.mkdtemp()
    for x,y in(('a',a),('b',b)):
        p=f'{td}/{x}/{f}'; os.makedirs(os.path.dirname(p)); open(p,'w').write(y)
    r=subprocess.run(['git','diff','--no-index','--no-color','--no-prefix',f'a/{f}',f'b/{f}'],cwd=td,capture_output=True,text=True).stdout
    out+=r; shutil.rmtree(td)
open(f'{d}/patch.diff','w').write(out)
os.remove(f'{d}/edit.txt')
