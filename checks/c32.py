#!/usr/bin/env python3
# C32: the function table and the macros that iterate over it. Enumerates macro invocations, lets the real
# procedural macros expand them in the real compiler, and compares what the callbacks receive with a model.
import sys, os, subprocess, json, time, itertools, concurrent.futures as cf
tier=sys.argv[1]; TH=tier=='thorough'; REPLAY=sys.argv[2] if len(sys.argv)>2 else None
t0=time.time()
B='/verif/build/t-mac'; W='/verif/build/vmac'
os.makedirs(W+'/src',exist_ok=True); os.makedirs(B,exist_ok=True)
sys.path.insert(0,'/verif/checks')
from table import fn,NAMES,CI
def tup(l): return '('+','.join(l)+')' if len(l)!=1 else l[0]
def norm(s): return ''.join(s.split()).replace(',)',')').replace('core::ffi::c_int','::core::ffi::c_int').replace('::::','::')
def unparen(s):
    while s.startswith('(') and s.endswith(')') and ',' not in s and s!='()': s=s[1:-1]
    return s
def types(f):
    b,ty,ra,rr,ca,cr=fn[f]
    return {'FTy':ty,'RustArgs':'('+','.join(ra)+')','RustRet':tup(rr),'CArgs':'('+','.join(ca)+')','CRet':tup(cr),'RustFn':'fn('+','.join(ra)+')->'+tup(rr),'CFn':'fn('+','.join(ca)+')->'+tup(cr)}
def meta(f): return ['cfg(f16_enabled)']*(fn[f][1]=='f16')+['cfg(f128_enabled)']*(fn[f][1]=='f128')
KT=['FTy','CFn','CArgs','CRet','RustFn','RustArgs','RustRet']
# ---- invocations: (id, fields text, expected lines)
inv=[]
def case(op,body,exp): inv.append((op,body,exp))
def line(f,ty=(),attrs=None,extra=None,fx=None):
    t=types(f)
    return '|'.join([f,';'.join(k+'='+t[k] for k in ty),';'.join(attrs if attrs is not None else meta(f)),extra or '',fx or ''])
L=lambda ns:'['+', '.join(ns)+']'
case('all','',[line(f) for f in NAMES])
bits=max(1,(len(NAMES)-1).bit_length())
groups=[[f for i,f in enumerate(NAMES) if (i>>b&1)==v] for b in range(bits) for v in (0,1)]
groups+=[[f for f in NAMES if fn[f][1]==t] for t in ('f16','f32','f64','f128')]
groups+=[[f for f in NAMES if fn[f][0]==b] for b in ('sin','sincos','erf','modf','lgamma','lgamma_r','fmaximum','fmaximum_num','fma','fmax','j0','exp','exp2')]
groups+=[[],NAMES,NAMES[::-1]]
for f in NAMES:
    case('only',f'only: [{f}], emit_types: all,',[line(f,KT)])
for g in groups:
    s=set(g)
    case('only','only: '+L(g)+',',[line(f) for f in NAMES if f in s])
    case('skip','skip: '+L(g)+',',[line(f) for f in NAMES if f not in s])
    case('attributes','attributes: [#[cfg(m1)] #[m2(x)] '+L(g)+'],',[line(f,attrs=(['cfg(m1)','m2(x)'] if f in s else [])+meta(f)) for f in NAMES])
    if g:
        case('fn_extra','fn_extra: match MACRO_FN_NAME { '+' | '.join(g)+' => one + MACRO_FN_NAME, _ => other(MACRO_FN_NAME_NORMALIZED) },',[line(f,fx=('one+'+f if f in s else 'other('+fn[f][0]+')')) for f in NAMES])
        case('fn_extra only','only: '+L(g)+', fn_extra: match MACRO_FN_NAME { '+' '.join(f'{f} => x.{f}.MACRO_FN_NAME,' for f in g)+' },',[line(f,fx='x.'+f+'.'+f) for f in NAMES if f in s])
for i in range(0,len(groups)-1,3):
    a,b=groups[i],groups[i+1]
    case('two attribute lists','attributes: [#[m1] '+L(a)+', #[m2] #[m3 = "v"] '+L(b)+'],',[line(f,attrs=['m1']*(f in a)+['m2','m3="v"']*(f in b)+meta(f)) for f in NAMES])
few=['sin','sinf','sqrtf16','sqrtf128','sincosf','lgammaf_r','frexp','jn','fma','ldexpf16']
for r in range(len(KT)+1):
    for c in itertools.combinations(KT,r):
        case('emit_types','only: '+L(few)+', emit_types: '+L(c)+',',[line(f,c) for f in sorted(few)])
for c in KT+['all']: case('emit_types','only: '+L(few)+', emit_types: '+c+',',[line(f,KT if c=='all' else [c]) for f in sorted(few)])
for c in list(itertools.permutations(KT[:4],4))+[KT[::-1]]: case('emit_types order','only: [frexpf], emit_types: '+L(c)+',',[line('frexpf',c)])
case('extra','extra: [MACRO_FN_NAME, MACRO_FN_NAME_NORMALIZED, a + b],',[line(f,extra=f'[{f},{fn[f][0]},a+b]') for f in NAMES])
case('extra','emit_types: all, extra: foo(|x| x.MACRO_FN_NAME_NORMALIZED(MACRO_FN_NAME::y)),',[line(f,KT,extra=f'foo(|x|x.{fn[f][0]}({f}::y))') for f in NAMES])
# every order of the fields means the same
F=['emit_types: [RustRet]','only: [sin, fmaf]','attributes: [#[q] [sin]]','extra: (MACRO_FN_NAME)','fn_extra: match MACRO_FN_NAME { sin => 1, _ => 2 }']
for p in itertools.permutations(F): case('field order',', '.join(p)+',',[line('fmaf',['RustRet'],extra='(fmaf)',fx='2'),line('sin',['RustRet'],attrs=['q'],extra='(sin)',fx='1')])
# ---- invocations that have to be refused
bad=[]
def rej(op,body): bad.append((op,body))
near=['sine','sinff','sinf32','Sin','SIN','si','sin_','_sin','sqrtf64','fabsf8','fmaf16','sincosf16','lgamma_rf','cosl']
for x in near:
    rej('unknown name',f'callback: cb, only: [sin, {x}],'); rej('unknown name',f'callback: cb, skip: [{x}],'); rej('unknown name',f'callback: cb, attributes: [#[a] [sin, {x}]],')
    rej('unknown name',f'callback: cb, fn_extra: match MACRO_FN_NAME {{ {x} => 1, _ => 2 }},')
rej('only and skip','callback: cb, only: [sin], skip: [cos],'); rej('no callback','only: [sin],'); rej('empty','')
for x in ['fty','Cfn','RustTy','ALL','']+(['CRets','FTy2'] if TH else []): rej('unknown type',f'callback: cb, only: [sin], emit_types: [RustFn, {x or "Foo"}],')
rej('all and another type','callback: cb, only: [sin], emit_types: [all, RustFn],')
rej('unknown field','callback: cb, only: [sin], foo: 1,'); rej('repeated field','callback: cb, only: [sin], only: [cos],'); rej('repeated field','callback: cb, callback: cb, only: [sin],')
rej('not covered','callback: cb, only: [sin, cos], fn_extra: match MACRO_FN_NAME { sin => 1 },'); rej('not covered','callback: cb, fn_extra: match MACRO_FN_NAME { '+', '.join(f'{f} => 1' for f in NAMES[1:])+' },')
rej('not covered','callback: cb, skip: [sin], fn_extra: match MACRO_FN_NAME { '+', '.join(f'{f} => 1' for f in NAMES[:-1])+' },')
rej('key twice','callback: cb, only: [sin], fn_extra: match MACRO_FN_NAME { sin => 1, sin => 2, _ => 3 },'); rej('key twice','callback: cb, only: [sin], fn_extra: match MACRO_FN_NAME { sin | cos | sin => 1, _ => 3 },'); rej('key twice','callback: cb, only: [sin], fn_extra: match MACRO_FN_NAME { _ => 1, _ => 3 },')
rej('match on something else','callback: cb, only: [sin], fn_extra: match FN_NAME { _ => 1 },'); rej('guard','callback: cb, only: [sin], fn_extra: match MACRO_FN_NAME { sin if true => 1, _ => 2 },'); rej('not a match','callback: cb, only: [sin], fn_extra: 1,')
for m in ['MACRO_FN','MACRO_FN_NAMES','MACRO_FN_NAME_NORMALISED','MACRO']: rej('unknown magic name',f'callback: cb, only: [sin], extra: ({m}),'); rej('unknown magic name',f'callback: cb, only: [sin], fn_extra: match MACRO_FN_NAME {{ _ => {m} }},')
nviol=0; viols=[]
def violation(op,inp,obs,exp):
    global nviol
    if REPLAY is not None:
        if REPLAY==op+' '+inp: print(f'{op}: {inp}\n observed {obs}\n expected {exp}'); sys.exit(1)
        return
    nviol+=1
    if nviol>6: return
    p=f'/verif/build/replays/C32-{nviol}.txt'; os.makedirs('/verif/build/replays',exist_ok=True)
    open(p,'w').write(f'engine c32\nproperty C32\ncase {op} {inp}\nobserved {obs}\nexpected {exp}\n')
    print(f'VIOLATION property=C32 replay={p}\nviolation {op}: {inp[:200]} = {obs[:300]}, expected {exp[:300]}',flush=True)
# ---- one program with all valid invocations
CB='''macro_rules! cb { (fn_name: $n:ident, $(FTy: $t0:ty,)? $($rest:tt)*) => { cb2!{ $n [$(FTy=$t0)?] $($rest)* } } }
'''
HEAD='''#![allow(unused_macros, unused, unexpected_cfgs)]
fn r(n: &str, t: &str, a: &[&str], e: &str, x: &str) { println!("{n}\\x01{t}\\x01{}\\x01{e}\\x01{x}", a.join("\\x02")); }
macro_rules! cb { ($($t:tt)*) => { munch!{ [] $($t)* } } }
// collects the type fields in the order given, as text
macro_rules! munch {
    ([] fn_name: $n:ident, $($t:tt)*) => { munch!{ [$n] [] $($t)* } };
    ([$n:ident] [$($k:ident = $v:ty;)*] attrs: [$($a:meta),*], $($t:tt)*) => { munch2!{ [$n] [$($k = $v;)*] [$($a;)*] $($t)* } };
    ([$n:ident] [$($k:ident = $v:ty;)*] $nk:ident: $nv:ty, $($t:tt)*) => { munch!{ [$n] [$($k = $v;)* $nk = $nv;] $($t)* } };
}
macro_rules! munch2 {
    ([$n:ident] [$($k:ident = $v:ty;)*] [$($a:meta;)*] $(extra: $e:expr,)? $(fn_extra: $x:expr,)?) => {
        r(stringify!($n), concat!($(stringify!($k), "\\x03", stringify!($v), "\\x02",)* ""), &[$(stringify!($a)),*], concat!($(stringify!($e))?), concat!($(stringify!($x))?));
    };
}
'''
src=HEAD
for i,(op,body,exp) in enumerate(inv):
    src+=f'#[inline(never)] fn f{i}() {{ println!("#{i}"); libm_macros::for_each_function! {{ callback: cb, {body} }} }}\n'
src+='fn main() {\n'+'\n'.join(f' f{i}();' for i in range(len(inv)))+'\n}\n'
open(W+'/src/main.rs','w').write(src)
open(W+'/Cargo.toml','w').write('[package]\nname = "vmac"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nlibm-macros = { path = "/repo/crates/libm-macros" }\n[workspace]\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n')
# build of the macro crate itself first: without it there is nothing to decide
r=subprocess.run(['bash','-c',f'. /verif/lib.sh; fresh {B} debug; cd {W} && cargo build -q --offline --target-dir {B} -p libm-macros && done_ {B} debug'],capture_output=True,text=True)
if r.returncode: print('build of libm-macros failed:\n'+r.stderr[-3000:]); sys.exit(3)
r=subprocess.run(['bash','-c',f'. /verif/lib.sh; cd {W} && touch src/main.rs && cargo build -q --offline --target-dir {B}'],capture_output=True,text=True)
states=calls=0; per={}
if r.returncode:
    # find the refused invocations one by one
    out=''
    src_ok=False
else:
    src_ok=True
    out=subprocess.run([B+'/debug/vmac'],capture_output=True,text=True).stdout
so=[x for x in os.listdir(B+'/debug/deps') if x.startswith('liblibm_macros-') and x.endswith('.so')]
so=max((B+'/debug/deps/'+x for x in so),key=os.path.getmtime)
def compile_one(op,body):
    import tempfile
    with tempfile.TemporaryDirectory(dir=W) as d:
        open(d+'/m.rs','w').write(HEAD+'fn main() { libm_macros::for_each_function! { '+body+' } }\n')
        q=subprocess.run(['bash','-c',f'. /verif/lib.sh; rustc --edition 2021 --emit=metadata --out-dir {d} --extern libm_macros={so} {d}/m.rs'],capture_output=True,text=True)
        return q.returncode,q.stderr
if src_ok:
    got={}; cur=None
    for l in out.split('\n'):
        if l.startswith('#'): cur=int(l[1:]); got[cur]=[]
        elif l and cur is not None:
            n,t,a,e,x=l.split('\x01')
            ty=';'.join(k+'='+(unparen(norm(v)) if k in('CRet','RustRet') else norm(v)) for k,v in (y.split('\x03') for y in t.split('\x02') if y))
            ty=';'.join((k.split('->')[0]+'->'+unparen(k.split('->')[1]) if '->' in k else k) for k in ty.split(';')) if ty else ''
            got[cur].append('|'.join([n,ty,';'.join(norm(y) for y in a.split('\x02') if y),norm(e),norm(x)]))
    for i,(op,body,exp) in enumerate(inv):
        g=got.get(i,[])
        states+=1; calls+=max(1,len(g)); per[op]=per.get(op,0)+1
        if sorted(g)!=sorted(exp):
            a=[x for x in g if x not in exp] or [x for x in g if g.count(x)>exp.count(x)]; b=[x for x in exp if x not in g]
            violation(op,body,'callbacks '+str(a[:3])+f' ({len(g)} in all)','callbacks '+str(b[:3])+f' ({len(exp)} in all)')
else:
    step=list(enumerate(inv))
    with cf.ThreadPoolExecutor(8) as ex:
        for (i,(op,body,exp)),(rc,err) in zip(step,ex.map(lambda c:compile_one(c[1][0],'callback: cb, '+c[1][1]),step)):
            states+=1; calls+=1; per[op]=per.get(op,0)+1
            if rc: violation(op,body,'refused: '+' '.join(x for x in err.split('\n') if x.startswith('error'))[:300],'accepted')
    if nviol==0: print('the program of all invocations does not compile, but every invocation alone does:\n'+r.stderr[-2000:]); sys.exit(3)
with cf.ThreadPoolExecutor(8) as ex:
    for (op,body),(rc,err) in zip(bad,ex.map(lambda c:compile_one(*c),bad)):
        states+=1; calls+=1; per['refused: '+op]=per.get('refused: '+op,0)+1
        if rc==0: violation('refused '+op,body,'accepted','refused')
        elif 'panicked' in err: violation('refused '+op,body,'the macro panicked','a diagnostic')
# ---- the enumerations of libm-test
sys.path.insert(0,'/verif/checks')
q=subprocess.run(['bash','-c','. /verif/lib.sh; need_vint >&2 && $VINT names x'],capture_output=True,text=True)
if q.returncode: print(q.stdout+q.stderr); sys.exit(3)
def camel(s): return ''.join(w[:1].upper()+w[1:] for w in s.split('_'))
want={}
for f in NAMES:
    b,ty,ra,rr,ca,cr=fn[f]
    n=lambda l:','.join({'i32':'I32',CI:'MutCInt'}.get(x,('Mut' if x.startswith('&') else '')+x.replace("&'amut",'').upper()) for x in l)
    want[f]='\x01'.join([f,f,camel(f),b,camel(b),ty.upper(),n(ra),n(rr),n(ca),n(cr),'true'])
got={}
ids=[]
for l in q.stdout.split('\n'):
    if l.startswith('id\x01'): k=l[3:]; ids.append(k.split('\x01')[0]); got[ids[-1]]=k
for f in NAMES:
    states+=1; calls+=1; per['enumerations']=per.get('enumerations',0)+1
    if got.get(f)!=want[f]: violation('enumerations',f,str(got.get(f)).replace('\x01',' '),want[f].replace('\x01',' '))
if sorted(ids)!=NAMES or len(set(ids))!=len(ids): violation('enumerations','ALL',f'{len(ids)} routines: '+' '.join(sorted(set(ids)^set(NAMES))),f'{len(NAMES)} routines, each once')
for l in q.stdout.split('\n'):
    if l.startswith('bad\x01'): violation('enumerations',l.split('\x01')[1],l.split('\x01')[2],'no routine')
    if l.startswith('badcount\x01'): c=int(l.split('\x01')[1]); states+=c; calls+=c; per['strings that name no routine']=c
if REPLAY is not None: print('the recorded state no longer violates the property'); sys.exit(0)
ev={'property':'C32','tier':tier,'seed':int(os.environ.get('VERIF_SEED','1')),'level':'model_checking','coverage':{'states':states,'transitions':calls,'traces_validated_against_impl':calls,'exhaustive':True,'states_meaning':'macro invocations and table entries enumerated','transitions_meaning':'callback calls, refusals and table entries produced by the real macros and compared with the model','states_per_operation':per,'spaces':[f'{len(NAMES)} routines; only/skip/attributes/fn_extra over {len(groups)} groups in which every ordered pair of routines is separated, every single routine, every subset of the type fields, every order of the fields; {len(bad)} invocations that have to be refused'],'samples':[inv[0][1] or '(no fields)',inv[5][1],bad[0][1]]},'assumptions':['the table of routines in /verif/checks/c32.py is right','rustc expands macros correctly'],'wall_s':round(time.time()-t0,2),'violations':nviol}
json.dump(ev,open('/verif/evidence/C32.json','w'),indent=1)
print(f'C32 {tier}: states={states} transitions={calls} violations={nviol} wall={time.time()-t0:.1f}s')
sys.exit(1 if nviol else 0)
