#!/usr/bin/env python3
"""automut.py [--files f,..] [--max n] [--seed s] [--list]: mechanical mutants of /repo's sources (statement deleted, condition
negated or fixed, constant or comparison changed, ..) against a shallow run of every scenario; prints the survivors.
Works on copies under /tmp/auto."""
import re,sys,os,subprocess,random,time,argparse,json
ap=argparse.ArgumentParser(); ap.add_argument('--files',default=''); ap.add_argument('--max',type=int,default=10**6)
ap.add_argument('--seed',type=int,default=1); ap.add_argument('--list',action='store_true'); ap.add_argument('--log',default='/tmp/auto/log'); ap.add_argument('--secs',default='2'); ap.add_argument('--nth',type=int,default=0)
a=ap.parse_args()
R='/tmp/auto/repo'; V='/tmp/auto/verif'
def sh(c,t=900):
    try: return subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c,99,'','timeout')
ALL=['src/actor/spawn.rs','src/actor/kind.rs','src/actor/actor_ref.rs','src/actor/id.rs','src/actor.rs','src/request/ask.rs','src/request/tell.rs','src/request.rs','src/mailbox.rs','src/message.rs','src/reply.rs','src/registry.rs','src/error.rs',
 'actors/src/pool.rs','actors/src/pubsub.rs','actors/src/broker.rs','actors/src/message_bus.rs','src/remote.rs','src/remote/_internal.rs','src/remote/swarm.rs','src/remote/behaviour.rs']
files=[f for f in (a.files.split(',') if a.files else ALL) if os.path.exists('/repo/'+f)]
muts=[]
for f in files:
    src=open('/repo/'+f).read()
    cut=re.search(r'#\[cfg\(test\)\]\s*mod ',src)
    body=src[:cut.start()] if cut else src
    lines=body.split('\n')
    skip=False
    for i,l in enumerate(lines):
        s=l.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or 'tracing' in s or s.startswith(('warn!','error!','trace!','debug!','info!')): continue
        if i and lines[i-1].strip().startswith('#[cfg(feature = "tracing")]'): continue
        def add(n,what): muts.append((f,i,l,n,what))
        ind=l[:len(l)-len(l.lstrip())]
        # delete a statement
        if re.match(r'^[a-z_][\w\.:\(\)&\*<>\[\]?]*.*;$',s) and not re.match(r'^(let|use|pub|type|return|const|static|mod|fn|impl|break|continue)\b',s) and s.count('(')==s.count(')') : add(ind+'','del')
        m=re.match(r'^(let _ = .*);$',s)
        if m and s.count('(')==s.count(')'): add(ind,'del')
        if re.match(r'^(\} else )?if (?!let)(.*) \{$',s):
            c=re.match(r'^((?:\} else )?if )(.*)( \{)$',s)
            add(ind+c[1]+'!('+c[2]+')'+c[3],'neg'); add(ind+c[1]+'true'+c[3],'true') ; add(ind+c[1]+'false'+c[3],'false')
            for part in re.split(r' && | \|\| ',c[2]):
                if part!=c[2]:
                    add(ind+c[1]+c[2].replace(part,'true')+c[3],'part-true'); add(ind+c[1]+c[2].replace(part,'false')+c[3],'part-false')
        for o,n in [(' == ',' != '),(' != ',' == '),(' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),('is_some()','is_none()'),('is_none()','is_some()'),('is_ok()','is_err()'),('is_err()','is_ok()'),(' && ',' || '),(' || ',' && '),('true','false'),('false','true'),('pop_front','pop_back'),('push_back','push_front'),(' += ',' -= '),(' -= ',' += '),(' + 1',' + 2'),(' - 1',''),('.retain(','.retain(|_|true); let _ = |v: &mut Vec<_>| v.retain('),('Some(timeout)','Some(_)'),('WithRequestTimeout(Some(duration))','WithRequestTimeout(None)'),('.send_timeout(','.send_timeout('),
                    ('.blocking_send(','.try_send('),('.upgrade()','.upgrade().filter(|_| false)'),('ControlFlow::Continue(())','ControlFlow::Break(ActorStopReason::Normal)'),('ActorStopReason::Killed','ActorStopReason::Normal'),('SendError::ActorStopped','SendError::Timeout(None)'),('SendError::Timeout(None)','SendError::ActorStopped'),('MailboxFull','ActorNotRunning'),('ActorNotRunning','MailboxFull'),
                    ('.await?','.await.ok().unwrap()'),('return;',';'),('break;',';'),('continue;',';'),('Ok(())','return Ok(())'),('reply: None','reply: None'),('.clone()','.clone()'),('.downgrade()','.downgrade()'),('Ordering::SeqCst','Ordering::Relaxed'),('.min(','.max('),('.max(','.min('),('wrapping_add','wrapping_sub'),('.take()','.take().filter(|_| false)'),('.is_empty()','.is_empty() == false'),('!self','self'),('!sent','sent'),
                    ('None => None','None => panic!()'),('.remove(','.get(')]:
            if o==n: continue
            for mm in re.finditer(re.escape(o),l):
                add(l[:mm.start()]+n+l[mm.end():],f'{o.strip()}->{n.strip()}')
        # numbers
        for mm in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',l):
            if 'fn ' in l or 'struct' in l: continue
            add(l[:mm.start()]+str(int(mm[1])+1)+l[mm.end():],'num+1')
    # whole multi-line statement deletions and match arm swaps
    for i,l in enumerate(lines):
        s=l.strip(); ind=len(l)-len(l.lstrip())
        if re.match(r'^[a-z_][\w]*(\.|$)',s) and not s.endswith((';',',','{','(')) and not s.startswith(('pub','let','use','where','return','match','if','else','for','while','loop','async','move','break')):
            j=i
            while j<len(lines) and j<i+14 and not lines[j].rstrip().endswith(';'): j+=1
            if j<min(i+14,len(lines)) and j>i and len(lines[j])-len(lines[j].lstrip())>=ind and i and lines[i-1].strip().endswith((';','{','}')):
                muts.append((f,(i,j),None,'','del-multi'))
        # arm bodies: A => x, / B => y,
        m=re.match(r'^(.*) => (.*),$',s)
        if m and i+1<len(lines):
            m2=re.match(r'^(.*) => (.*),$',lines[i+1].strip())
            if m2 and m2[2]!=m[2]:
                muts.append((f,(i,i+1),None,' '*ind+m[1]+' => '+m2[2]+',\n'+' '*ind+m2[1]+' => '+m[2]+',','arm-swap'))
                muts.append((f,(i,i+1),None,' '*ind+m[1]+' => '+m2[2]+',\n'+lines[i+1],'arm-same'))
if a.nth:
    # only the statement deletions and negated conditions, and each only the nth time it is reached
    C='{ static NTH: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(1); NTH.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) == %d }'%a.nth
    nm=[]
    for f,i,l,n,what in muts:
        if what=='del' and isinstance(i,int): nm.append((f,i,l,l[:len(l)-len(l.lstrip())]+'if '+C+' {} else { '+l.strip()+' }',f'del@{a.nth}'))
        elif what=='neg':
            c=re.match(r'^(\s*(?:\} else )?if )(.*)( \{)$',l)
            nm.append((f,i,l,c[1]+'('+c[2]+') != '+C+c[3],f'neg@{a.nth}'))
        elif what=='del-multi':
            src=open('/repo/'+f).read().split('\n'); old='\n'.join(src[i[0]:i[1]+1])
            nm.append((f,i,l,'if '+C+' {} else {\n'+old+'\n}',f'del-multi@{a.nth}'))
    for f in files:
        src=open('/repo/'+f).read(); cut=re.search(r'#\[cfg\(test\)\]\s*mod ',src)
        for i,l in enumerate((src[:cut.start()] if cut else src).split('\n')):
            if l.strip().startswith(('//','#','use ')): continue
            for o,n in [('.upgrade()','.upgrade().filter(|_| !'+C+')'),('.take()','.take().filter(|_| !'+C+')'),('.pop_front()','.pop_front().filter(|_| !'+C+')'),
                        ('ControlFlow::Continue(())','(if '+C+' { ControlFlow::Break(ActorStopReason::Normal) } else { ControlFlow::Continue(()) })'),
                        ('.is_closed()','.is_closed() != '+C),('.is_none()','.is_none() != '+C),('.is_some()','.is_some() != '+C),('.is_empty()','.is_empty() != '+C),('Some(_) => true','Some(_) => !'+C),
                        ('.push_back(',None),('.get(','.get('),('.remove(','.remove('),]:
                if n is None or o==n: continue
                for mm in re.finditer(re.escape(o),l): nm.append((f,i,l,l[:mm.start()]+n+l[mm.end():],f'{o}@{a.nth}'))
    muts=nm
random.Random(a.seed).shuffle(muts)
done=set()
if os.path.exists(a.log):
    for l in open(a.log):
        try: done.add(json.loads(l)['k'])
        except Exception: pass
def key(m): return f'{m[0]}:{m[1]}:{m[4]}:{hash_(m[3])}'
import zlib
def hash_(s): return zlib.crc32(s.encode())
if a.list:
    from collections import Counter
    print(len(muts),Counter(m[0] for m in muts)); sys.exit()
def out(**k):
    open(a.log,'a').write(json.dumps(k)+'\n'); print(k.get('r'),k['k'],k.get('d',''),flush=True)
env='. /opt/vp/env.sh; unset CARGO_INCREMENTAL; export CARGO_INCREMENTAL=1 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; '
n=0
for m in muts:
    if n>=a.max: break
    k=key(m)
    if k in done: continue
    f,i,l,new,what=m
    sh(f'git -C {R} checkout -q -- .')
    lines=open(f'{R}/{f}').read().split('\n')
    if isinstance(i,tuple): old='\n'.join(lines[i[0]:i[1]+1]); lines[i[0]:i[1]+1]=[new]; ln=i[0]
    else: old=lines[i]; lines[i]=new; ln=i
    open(f'{R}/{f}','w').write('\n'.join(lines))
    os.utime(f'{R}/{f}')
    n+=1
    d=f'- {old.strip()[:150]} + {new.strip()[:150]}'
    remote=f.startswith('src/remote')
    r=sh(env+f'cd {R} && CARGO_TARGET_DIR={R}/target cargo check -q --offline --all-features -p kameo'+(' -p kameo_actors' if f.startswith('actors') else ''))
    if r.returncode: out(k=k,r='NOCOMPILE'); continue
    caught=None
    for crate,binn in ([('harness-remote','mcr')] if remote else [('harness','mc'),('harness-remote','mcr')] if not f.startswith('actors') else [('harness','mc')]):
        r=sh(env+f'cd {V}/{crate} && CARGO_TARGET_DIR={V}/target cargo build -q --release --offline')
        if r.returncode: caught='build'; break
        p=subprocess.Popen(f'cd /tmp/auto && exec {V}/target/release/{binn} run all 1 {a.secs}',shell=True,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,start_new_session=True)
        import signal,threading
        tm=threading.Timer(400,lambda: os.killpg(p.pid,signal.SIGKILL)); tm.start()
        lastline=''
        for line in p.stdout:
            lastline=line
            mm=re.search(r'^(P\d+) ([\w-]+):.* fails ([1-9]\d*)',line)
            if mm: caught=mm[1]+' '+mm[2]; break
        tm.cancel()
        try: os.killpg(p.pid,signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        if caught: break
    if caught: out(k=k,r='CAUGHT',by=caught); continue
    out(k=k,r='SURVIVED',line=ln+1,d=d)
sh(f'git -C {R} checkout -q -- .')
