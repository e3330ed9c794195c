import os,subprocess,re,sys
M='/tmp/m'
OUT='/verif/neutral'
R={}
def git(*a): return subprocess.run(['git','-C',M,*a],capture_output=True,text=True).stdout
def sub(path,*pairs):
    p=f'{M}/{path}';s=open(p).read()
    for a,b in pairs:
        if a not in s: raise Exception(f'{path}: missing {a[:60]!r}')
        s=s.replace(a,b,1)
    open(p,'w').write(s)
def func(path,name,new,extra=None):
    """replace a whole top-level func"""
    p=f'{M}/{path}';s=open(p).read()
    m=re.search(r'^func (\([^)]*\) )?'+re.escape(name)+r'(\[[^\]]*\])?\(.*?^}\n',s,re.S|re.M)
    if not m: raise Exception(f'{path}: no func {name}')
    s=s[:m.start()]+new.strip('\n')+'\n'+s[m.end():]
    open(p,'w').write(s)
def imports(path,*names):
    p=f'{M}/{path}';s=open(p).read()
    for n in names:
        if f'"{n}"' in s: continue
        if 'import (' in s: s=s.replace('import (\n',f'import (\n\t"{n}"\n',1)
        else: s=re.sub(r'import "unsafe"',f'import (\n\t"{n}"\n\t"unsafe"\n)',s,1)
    open(p,'w').write(s)
def unimport(path,*names):
    p=f'{M}/{path}';s=open(p).read()
    for n in names: s=re.sub(r'^\t"'+re.escape(n)+r'"\n','',s,1,re.M)
    open(p,'w').write(s)
def r(name):
    def d(f): R[name]=f; return f
    return d
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'neutral_defs.py')).read())
only=sys.argv[1:]
for n,f in R.items():
    if only and n not in only: continue
    git('reset','-q','--hard'); git('clean','-fdq')
    try: f()
    except Exception as e: print(n,'ERR',e); continue
    subprocess.run('gofmt -w $(git diff --name-only)',shell=True,cwd=M)
    b=subprocess.run(['go','vet','./proto/','./internal/generator','./cmd/...'],cwd=M,capture_output=True,text=True)
    b=subprocess.run(['go','build','./...'],cwd=M,capture_output=True,text=True)
    if b.returncode: print(n,'BUILD',b.stderr[:500]); continue
    t=subprocess.run(['go','test','./proto/'],cwd=M,capture_output=True,text=True)
    if t.returncode: print(n,'TEST',t.stdout[-800:]); continue
    git('add','-A')
    d=git('diff','--cached')
    open(f'{OUT}/{n}.diff','w').write(d)
    print(n,'ok',len(d.splitlines()))
git('reset','-q','--hard')
