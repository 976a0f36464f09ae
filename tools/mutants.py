#!/usr/bin/env python3
"""mutants.py <seed> <count> [file,...]: random one-token changes of /repo's sources that keep every golden output; which property's
check reports them?  Works on a scratch copy (removed afterwards); never touches /repo.  Not part of any check: it is how the checks
are tried out.  Survivors are printed with *** and have to be read: most are equivalent to the original."""
import sys,os,re,random,subprocess,shutil,json,glob
rnd=random.Random(int(sys.argv[1])); N=int(sys.argv[2]); W='/tmp/mut%s'%sys.argv[1]; HO=W+'.ho'; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files=['mbus/mbus-protocol.c','mbus/mbus-protocol-aux.c','mbus/mbus-serial.c','mbus/mbus-tcp.c']
if len(sys.argv)>3: files=sys.argv[3].split(',')
funs=[]
for f in files:
    L=open('/repo/'+f,encoding='latin-1').read().split('\n'); i=0
    while i<len(L):
        if L[i].startswith('{') and i>0:
            j=i
            while j<len(L) and not L[j].startswith('}'): j+=1
            nm=None
            for k in range(i-1,max(i-4,0),-1):
                m=re.search(r'(\w+)\s*\(',L[k])
                if m: nm=m[1]; break
            if nm: funs.append((f,nm,i+1,j))
            i=j
        i+=1
ev={}
for p in glob.glob(V+'/evidence/P*.json'):
    e=json.load(open(p)); ev[e['property']]=(e['wall_s'],{x.split('@')[0] for x in e['coverage']['functions_analysed']})
def props(fn): return [p for p in sorted(ev,key=lambda p:ev[p][0]) if fn in ev[p][1]]
def muts(line):
    out=[]
    code=re.sub(r'"(\\.|[^"])*"',lambda m:'\0'*len(m[0]),line); code=code.split('//')[0]
    if 'error_str' in line or 'MBUS_ERROR' in line or 'printf(' in line and 'snprintf' not in line or code.strip().startswith('#'): return out
    for pat,rep in ((r'(?<![<>=!-])<(?![<=])','<='),(r'<=','<'),(r'(?<![->=])>(?![>=])','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'(?<=\s)\+(?=\s)','-'),(r'(?<=\s)-(?=\s)','+'),(r'\+\+','--'),(r'<<','>>'),(r'(?<=\s)&(?=\s)','|')):
        for m in re.finditer(pat,code): out.append((line[:m.start()]+rep+line[m.end():]))
    for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])',code):
        v=int(m[1],0); out.append(line[:m.start()]+str(v+1)+line[m.end():])
        if v>0: out.append(line[:m.start()]+str(v-1)+line[m.end():])
    s=code.strip()
    if s.endswith(';') and re.match(r'^(?!return\b|int |char |unsigned|size_t|mbus_\w+ \*?\w+[;=]|static|struct|goto)',s) and not re.match(r'^\w+ \*?\w+( =.*)?;$',s): out+= [re.sub(r'\S.*',';',line)]*2
    return out
done=0; shutil.rmtree(W,ignore_errors=True); os.makedirs(W); seen=set()
subprocess.run('git -C /repo archive HEAD | tar -x -C %s'%W,shell=True,check=True)
subprocess.run('cd /repo && gcc -w -O1 -I. -Imbus -I%s/harness/inc/x test/mbus_parse_hex.c mbus/mbus-*.c -o %s -lm'%(V,HO),shell=True,check=True)
while done<N:
    f,fn,a,b=rnd.choice(funs)
    if fn.endswith('_print') and rnd.random()<.7: continue
    L=open('/repo/'+f,encoding='latin-1').read().split('\n')
    c=[(n,m) for n in range(a,b) for m in muts(L[n])]
    if not c: continue
    n,m=rnd.choice(c)
    if (f,n,m) in seen: continue
    seen.add((f,n,m)); old=L[n]; L[n]=m; open(W+'/'+f,'w',encoding='latin-1').write('\n'.join(L))
    try:
        x=subprocess.run('cd %s && gcc -w -O1 -I. -Imbus -I%s/harness/inc/x test/mbus_parse_hex.c mbus/mbus-*.c -o %s/hn -lm && gcc -w -fsyntax-only -I. -Imbus %s'%(W,V,W,f),shell=True,capture_output=True)
        if x.returncode: continue
        bad=0
        if f.startswith('mbus/mbus-protocol'):
            for t in glob.glob('/repo/test/*/*.hex'):
                for o in ([],['-n']):
                    try: r=[subprocess.run([e]+o+[t],capture_output=True,timeout=5) for e in (HO,W+'/hn')]
                    except subprocess.TimeoutExpired: bad=1; break
                    if (r[0].stdout,r[0].returncode)!=(r[1].stdout,r[1].returncode): bad=1; break
                if bad: break
        if bad: continue
        done+=1; hit=None; ps=props(fn)
        if f.startswith('bin'): ps=['P24']
        for p in ps:
            r=subprocess.run(['nice','-n','12',sys.executable,'check.py',p,'quick'],cwd=V,env=dict(os.environ,MBAI_REPO=W),capture_output=True,text=True,errors='replace')
            if r.returncode==1: hit=p; break
            if r.returncode!=0: print('BROKEN',p,r.stdout[-300:]); 
        print('%s %s:%d %s | %s  ->  %s'%('caught '+hit if hit else '*** SURVIVES (%s)'%','.join(ps),f,n+1,fn,old.strip(),m.strip()),flush=True)
    finally:
        shutil.copy('/repo/'+f,W+'/'+f)
shutil.rmtree(W); os.remove(HO)