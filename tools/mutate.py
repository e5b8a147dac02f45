"""mutation run (development aid, not a check); ONLY inside a mount namespace where /repo and /verif are scratch copies
import random,re,subprocess,os,sys,json,time
seed=int(sys.argv[1]); N=int(sys.argv[2]); rnd=random.Random(seed)
FILES='ast.c tree.c betree.c config.c special.c value.c var.c helper.c hashmap.c jsw_rbtree.c memoize.c map.c utils.c ast_compare.c'.split()
SKIPFN=re.compile(r'^(?:static )?(?:bool|void) (?:eq_\w+|fast_eq_\w+|event_to_string|jsw_rberase|sub_has_attribute_str)')
sites=[]
for f in FILES:
    ls=open('/repo/src/'+f).read().split('\n'); skip=False
    for i,l in enumerate(ls):
        if re.match(r'^[a-z].*\(',l): skip=bool(SKIPFN.match(l)); continue
        if re.match(r'^\S',l): continue
        s=l.strip()
        if skip or not s or s.startswith(('//','/*','*','fprintf','abort','case','default','break','}','#','"')): continue
        sites.append((f,i))
OPS=[(r'<=','<'),(r'>=','>'),(r'(?<![-<>=])<(?![<=>])','<='),(r'(?<![-<>=])>(?![>=])','>='),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
 (r'\+ 1\b','+ 0'),(r'- 1\b','- 0'),(r'\+ 1\b','+ 2'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\+\+','--'),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b1\b','0'),(r'\blhs\b','rhs'),(r'\brhs\b','lhs'),
 (r'\bmin\b','max'),(r'\bmax\b','min'),(r'\bimin\b','imax'),(r'\bimax\b','imin'),(r'\bsmin\b','smax'),(r'\bfmin\b','fmax'),(r'\bfmax\b','fmin'),(r'\blchild\b','rchild'),(r'\brchild\b','lchild'),(r'!(?=[a-z(])',''),(r' \+ ',' - '),(r' - ',' + '),(r'!inverted','inverted'),(r'\binverted\b','!inverted'),(r'if\(','if(!('),(r'\ball_(\w+)','!all_\\1')]
CH='P01 P02 P13 P09 P03 P18 P21 P22 P19 P15 P16 P17 P25 P14 P10 P07 P08 P12 P11 P04 P05 P06 P23 P24 P20'.split()
bs=json.load(open('/opt/vp/BASELINE.json'))['stable']
log=open('/tmp/mut.log','a')
def out(*a):
    print(*a,file=log,flush=True)
done=0;tested=0
while done<N:
    f,i=rnd.choice(sites); p='/repo/src/'+f; src=open(p).read(); ls=src.split('\n'); l=ls[i]
    c=[]
    for a,b in OPS:
        for m in re.finditer(a,l):
            nl=l[:m.start()]+m.expand(b)+l[m.end():]
            if b=='if(!(':
                if not nl.rstrip().endswith('{'): continue
                k=nl.rindex(')'); nl=nl[:k]+')'+nl[k:]
            c.append(nl)
    if l.strip().endswith(';') and not re.match(r'\s*(struct|size_t|int64_t|bool|double|const|char|betree|enum|uint|return|static|\w+\*? \w+;)',l): c.append(re.match(r'\s*',l).group()+';')
    if not c: continue
    nl=rnd.choice(c); 
    if nl==l: continue
    tested+=1
    ls[i]=nl; open(p,'w').write('\n'.join(ls))
    try:
        if subprocess.call('timeout 120 bash /opt/vp/build.sh >/dev/null 2>&1',shell=True)!=0: continue
        if os.path.exists('/tmp/mo.json'): os.remove('/tmp/mo.json')
        subprocess.call('ulimit -v 6000000; timeout 60 bash /opt/vp/test.sh /tmp/mo.json >/dev/null 2>&1',shell=True)
        try: op=set(json.load(open('/tmp/mo.json'))['passed'])
        except Exception: continue
        if any(n not in op for n in bs): continue
        done+=1
        k=None;t0=time.time()
        for ch in CH:
            r=subprocess.call(f'cd /verif && VERIF_SEED=1 timeout 600 python3 check.py {ch} quick >/tmp/mut.o 2>/dev/null',shell=True)
            if r!=0: k=f'{ch} rc{r}'; break
        out(f"{'KILLED '+k if k else 'SURVIVED'} {f}:{i+1} [{time.time()-t0:.0f}s]\n   - {l.strip()}\n   + {nl.strip()}")
    finally:
        open(p,'w').write(src)
out('END',done,tested)
