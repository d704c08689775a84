#!/usr/bin/env python3
"""Mutation testing of the checks (a tool for the development of the harness, not used by any check).
mutate.py WORKDIR WORKERS [--max N] [--seed N] [--only REGEX] [--skip REGEX] FILE...
Each worker has copies WORKDIR/<n>/{repo,verif}; results are appended to WORKDIR/results.tsv."""
import re,os,sys,subprocess,random,shutil,threading,queue,time
args=sys.argv[1:]
def opt(name,default):
    if name in args:
        i=args.index(name); v=args[i+1]; del args[i:i+2]; return v
    return default
MAX=int(opt('--max','100000')); SKIP=opt('--skip','$^'); SEED=int(opt('--seed','1')); ONLY=opt('--only','')
W=args[0]; N=int(args[1]); FILES=args[2:]
GROUPS=[('lexan/','C01 C02 C03 C04 C05 C16 C20 C07'),('lalr1/','C06 C07 C08 C09 C14 C15 C17 C24'),('alalr1/','C06 C07 C08 C09 C14 C15 C17 C24'),
 ('lalr1_gen/','C23 C20 C19 C11 C18'),('alalr1_gen/','C23 C20 C19 C11 C18'),
 ('parser.rs','C19 C20 C22 C21 C25 C12 C15 C24'),('bootstrap.rs','C22 C19'),
 ('_lib/','C10 C26 C27 C17 C12 C13 C14 C11 C15 C19 C18 C16 C24 C25 C21 C23 C20 C22')]
def group(f):
    for k,v in GROUPS:
        if (f.startswith(k) if k in('lexan/','lalr1/','alalr1/','lalr1_gen/','alalr1_gen/') else k in f): return v.split()
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' -= '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bcontinue;','break;'),(r'\bbreak;','continue;'),
 (r'\.rev\(\)',''),(r'\bif (?!let)([^{]*[^{ ]) \{',r'if !(\1) {'),(r'\bif (?!let)([^{]*[^{ ]) \{',r'if true || (\1) {'),(r'\bif (?!let)([^{]*[^{ ]) \{',r'if false && (\1) {'),
 (r'\bwhile (?!let)([^{]*[^{ ]) \{',r'if \1 {'),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_ok\(\)','.is_err()'),(r'\.any\(','.all('),(r'\.all\(','.any('),
 (r'\.iter\(\)','.iter().skip(1)'),(r'\.iter\(\)','.iter().rev()'),(r'\.min\(','.max('),(r'\.max\(','.min('),(r'\bfirst\(\)','last()'),(r'\blast\(\)','first()'),
 (r'(?<![\w.])0(?![\w.x])','1'),(r'(?<![\w.])1(?![\w.])','0'),(r'(?<![\w.])1(?![\w.])','2'),(r'\.\.=','..'),(r'Ordering::Less','Ordering::Greater'),(r'Ordering::Greater','Ordering::Less'),
 (r'\.or_else\(\|\|[^()]*\(\)\)',''),(r'\.insert\(','.replace('),(r'&self\.is_','!&self.is_')]
def mutants(repo,f):
    s=open(os.path.join(repo,f)).read(); cut=s.find('#[cfg(test)]')
    body=s if cut<0 else s[:cut]; out=[]
    pos=0
    for ln,line in enumerate(body.splitlines(True),1):
        t=line.strip()
        if not t.startswith(('//','#[','use ','mod ','pub mod')):
            for a,b in OPS:
                for m in re.finditer(a,line):
                    new=line[:m.start()]+m.expand(b)+line[m.end():]
                    if new!=line: out.append((f,ln,pos,len(line),new,new+line))
            if re.match(r'(self\.|[a-z_]+\.|\*|[a-z_]+ [+-]?= |wtr\.|[a-z_]+\()',t) and t.endswith(';'):
                out.append((f,ln,pos,len(line),line[:len(line)-len(line.lstrip())]+'{}\n',line))
            if re.match(r'(return|let) ',t) is None and re.match(r'\} else if ',t):
                out.append((f,ln,pos,len(line),re.sub(r'else if (.*) \{$',r'else if false && (\1) {',line.rstrip())+'\n',line))
        pos+=len(line)
    seen=set(); r=[]
    for m in out:
        k=(m[1],m[4])
        if k not in seen: seen.add(k); r.append(m)
    return r
def run(cmd,cwd,t,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,''
lock=threading.Lock(); q=queue.Queue()
def work(n):
    d=f'{W}/{n}'; repo=d+'/repo'; verif=d+'/verif'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f,ln,pos,l,new,_=m
        run('git checkout -q -- .',repo,60)
        p=os.path.join(repo,f); s=open(p).read(); old=s[pos:pos+l]
        open(p,'w').write(s[:pos]+new+s[pos+l:])
        t0=time.time()
        env={'CARGO_TARGET_DIR':d+'/target','CARGO_NET_OFFLINE':'true','CARGO_INCREMENTAL':'0','RUSTUP_TOOLCHAIN':'stable-x86_64-unknown-linux-gnu','CARGO_BUILD_JOBS':'3'}
        rc,o=run('ulimit -v 12000000; cargo test --workspace --offline',repo,240,env)
        oks=len(re.findall(r'\.\.\. ok$',o,re.M))
        if 'error' in o and oks==0: res='NOBUILD'
        elif rc!=0 or oks!=9: res='TESTS'
        else:
            res='SURVIVED'
            for c in group(f):
                rc,o=run(f'./check {c}',verif,500,{'PV_SCALE':os.environ.get('MT_SCALE','0.4'),'PV_THREADS':'3','PV_TIME':'150','PV_BUDGET':'1','VERIF_SEED':'1','VERIF_TIER':'quick','CARGO_BUILD_JOBS':'3'})
                if rc==0: continue
                if rc==1 and 'VIOLATION' in o: res='KILLED '+c; break
                res=f'ODD {c} rc={rc} '+o[-200:].replace('\n',' '); break
        with lock:
            with open(W+'/results.tsv','a') as r: r.write('\t'.join([res,f'{f}:{ln}',old.strip(),new.strip(),f'{time.time()-t0:.0f}s'])+'\n')
def main():
    os.makedirs(W,exist_ok=True)
    done=set()
    if os.path.exists(W+'/results.tsv'):
        for l in open(W+'/results.tsv'):
            x=l.rstrip('\n').split('\t'); done.add((x[1],x[3]))
    for n in range(N):
        d=f'{W}/{n}'
        if not os.path.isdir(d+'/repo'):
            os.makedirs(d); subprocess.run(['git','clone','-q','/repo',d+'/repo'])
            if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock',d+'/repo/Cargo.lock')
        subprocess.run(f'cd {d}/repo && git checkout -q -- . && git pull -q',shell=True)
        subprocess.run(f'mkdir -p {d}/verif; rm -rf {d}/verif/harness; cp -a /verif/harness /verif/check /verif/env.sh /verif/tools /verif/vrt /verif/KNOWN_FINDINGS.txt {d}/verif/; mkdir -p {d}/verif/evidence {d}/verif/replays',shell=True)
        if not os.path.isdir(d+'/target') and n>0 and os.path.isdir(W+'/0/target'): pass
    allm=[]
    for f in FILES:
        allm+=mutants(W+'/0/repo',f)
    random.Random(SEED).shuffle(allm)
    allm=[m for m in allm if (f'{m[0]}:{m[1]}',m[4].strip()) not in done and re.search(ONLY,m[4]) and not re.search(SKIP,m[5])][:MAX]
    print(len(allm),'mutants',flush=True)
    for m in allm: q.put(m)
    ts=[threading.Thread(target=work,args=(n,)) for n in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
