#!/usr/bin/env python3
# C33: the command line evaluator (crates/util). Enumerates command lines over routines x input values x spellings,
# runs the real binary on each one and compares what it prints with the routine's result on the denoted values.
import sys, os, subprocess, json, time, re, itertools
from fractions import Fraction as Fr
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from table import fn,NAMES
tier=sys.argv[1]; TH=tier=='thorough'; REPLAY=sys.argv[2] if len(sys.argv)>2 else None
t0=time.time()
T=os.environ.get('C33_DIR','/verif/build/t-util'); VI=os.environ.get('C33_VINT','/verif/build/t-vint/release/vint')
os.makedirs(T,exist_ok=True)
if 'C33_VINT' not in os.environ:
    q=subprocess.run(['bash','-c','. /verif/lib.sh; need_vint & need_util; r=$?; wait $! && exit $r'],capture_output=True,text=True)
    if q.returncode: print(q.stdout+q.stderr); sys.exit(3)
UTIL=T+'/release/util'
FM={'f32':(32,23,8),'f64':(64,52,11)}
def dec(ty,b):
    n,s,e=FM[ty]; x=b>>s&((1<<e)-1); m=b&((1<<s)-1); sg=-1 if b>>(n-1) else 1; bias=(1<<(e-1))-1
    if x==(1<<e)-1: return (sg,'inf') if m==0 else (sg,'nan')
    return (sg,Fr(m+((1<<s) if x else 0))*Fr(2)**(max(x,1)-bias-s))
def enc(ty,sg,v):
    "nearest value, ties to even"
    n,s,e=FM[ty]; bias=(1<<(e-1))-1; S=(1<<(n-1)) if sg<0 else 0
    if v==0: return S
    k=v.numerator.bit_length()-v.denominator.bit_length()
    if Fr(2)**k>v: k-=1
    k=max(k,1-bias); u=Fr(2)**(k-s); q=v/u; f=q.numerator//q.denominator; r=q-f
    if r>Fr(1,2) or (r==Fr(1,2) and f&1): f+=1
    if f>>s==0: return S|f
    if f>>(s+1): f>>=1; k+=1
    if k>bias: return S|(((1<<e)-1)<<s)
    return S|((k+bias)<<s)|(f-(1<<s))
def neg(ty,b): return b^(1<<(FM[ty][0]-1))
def decstr(v):
    "finite decimal expansion of a dyadic rational"
    d=v.denominator; k=d.bit_length()-1; n=v.numerator*5**k
    s=str(n).rjust(k+1,'0'); return s if k==0 else s[:-k]+'.'+s[-k:]
def hexf(ty,b,style=0):
    sg,v=dec(ty,b); n,s,e=FM[ty]
    if v==0: return ('-' if sg<0 else '')+'0x0p0'
    m=v.numerator; k=-(v.denominator.bit_length()-1)
    while m%2==0: m//=2; k+=1
    t='-' if sg<0 else ''
    if style==0: return f'{t}0x{m:x}p{k}'
    L=m.bit_length()-1; mm=m<<((4-L%4)%4); h=f'{mm:x}'; h1=h[1:] # 1.xxx form
    if style==1: return f'{t}0x1'+('.'+h1 if h1 else '')+f'p{k+L:+d}'
    return f'{t}0x0.{m:x}p{k+4*len(f"{m:x}")}'
# ---- values
def values(ty):
    n,s,e=FM[ty]; M=(1<<s)-1; top=((1<<e)-1)<<s; bias=(1<<(e-1))-1
    one=bias<<s
    v=[0,1,2,M,M+1,M+2,one-1,one,one+1,one+(1<<(s-1)),one+(1<<s),one+(1<<s)+(1<<(s-1)),enc(ty,1,Fr(1,3)),enc(ty,1,Fr(22,7)),enc(ty,1,Fr(10)),enc(ty,1,Fr(1,10)),enc(ty,1,Fr(2)**s),enc(ty,1,Fr(2)**s+1),enc(ty,1,Fr(2)**s-Fr(1,2)),top-1,top-2]
    return v+[neg(ty,b) for b in v]+[top,neg(ty,top)]
NANB={'f32':[0x7fc00000,0xffc00000,0x7f800001,0x7fffffff],'f64':[0x7ff8<<48,0xfff8<<48,(0x7ff0<<48)+1,(1<<63)-1]}
INTS=[0,1,2,3,7,9,10,15,16,17,31]
cmds=[] # (op label, argv, ('ok', f, [bits...]) or ('no',))
def ok(label,f,texts,bits): cmds.append((label,['eval','libm',f]+texts,('ok',f,bits)))
def no(label,argv): cmds.append((label,argv,('no',)))
def bspell(ty,b): return f'0x{b:x}'
FL=[f for f in NAMES if fn[f][1] in FM]
def sb(a,b): # text and reference word of one argument
    if a=='i32': return str(b),str(b)
    return bspell(a,b),f'{b:x}'
def alpha(a,k):
    if a=='i32': return [-3,0,1,2,9][:k] if k<6 else INTS
    n,s,e=FM[a]; one=((1<<(e-1))-1)<<s
    return ([one+(1<<(s-1)),neg(a,enc(a,1,Fr(5,2))),0,enc(a,1,Fr(7)),neg(a,0),((1<<e)-1)<<s,1,enc(a,1,Fr(1,10))])[:k]
# every routine x values written as bit patterns; several arguments: ordered products
for f in FL:
    ra=fn[f][2]
    if len(ra)==1:
        for b in values(ra[0])+NANB[ra[0]]: t,w=sb(ra[0],b); ok('routine x value',f,[t],[w])
    else:
        for c in itertools.product(*[alpha(a,8 if len(ra)==2 else 5) for a in ra]):
            p=[sb(a,b) for a,b in zip(ra,c)]; ok('routine x values',f,[x for x,_ in p],[x for _,x in p])
# spellings, through routines that show every bit of their arguments
ID={'f32':('fabsf','copysignf'),'f64':('fabs','copysign')}
def spell(ty,label,text,b):
    one=((1<<(FM[ty][2]-1))-1)<<FM[ty][1]
    f=ID[ty][1]
    ok(label,f,[bspell(ty,one),text],[f'{one:x}',f'{b:x}'])     # sign
    ok(label,ID[ty][0],[text],[f'{b:x}'])                     # magnitude
for ty in FM:
    n,s,e=FM[ty]; top=((1<<e)-1)<<s
    vs=values(ty)+[enc(ty,1,Fr(2)**k) for k in range(-160 if n==32 else -1080,132 if n==32 else 1026,7)]+[enc(ty,1,Fr(10)**k) for k in range(-50,45,3)]
    if TH: vs+=[((1<<(e-1))-1+j<<s)+(1<<i)-d for i in range(s) for j in (-3,0,5) for d in (0,1)]
    for b in dict.fromkeys(vs):
        sg,v=dec(ty,b); S='-' if sg<0 else ''
        sp=[('0x bits',f'0x{b:x}'),('0x bits',f'0x{b:0{n//4}X}'),('0x bits',f'0x000{b:x}'),('0b bits',f'0b{b:b}'),('0b bits',f'0b{b:0{n}b}')]
        if v=='inf': sp+=[('decimal',S+'inf'),('decimal',S+'infinity'),('decimal',S+'INF')]
        else:
            sp+=[('hex float',hexf(ty,b,k)) for k in (0,1,2)]
            d=S+decstr(v); sp+=[('decimal',d)]
            if v!=0:
                x=float(v)
                r=f'{x:.{9 if n==32 else 17}g}'; sp.append(('decimal',S+r))
                sp.append(('decimal',S+f'{x:.{8 if n==32 else 16}E}'))
                if ty=='f64': sp.append(('decimal',S+repr(x)))
            if sg>0 and 0<=b<top-1 and v!='inf':
                # halfway to the next value, and just beside it
                w=dec(ty,b+1)[1]; h=(v+w)/2; t=decstr(h) if '.' in decstr(h) else decstr(h)+'.0'
                ev=b if b%2==0 else b+1
                sp2=[(t,ev),(t+'000',ev),(t+'0001',b+1)]
                for t2,b2 in sp2: spell(ty,'decimal, near a tie',t2,b2)
        for l,t in sp: spell(ty,l,t,b)
    big=dec(ty,top-1)[1]; half=big+(big-dec(ty,top-2)[1])/2
    for t,b in ((decstr(half),top),(decstr(half-1),top-1),('1e400',top),('-1e400',neg(ty,top)),('1e-400',0),('-1e-400',neg(ty,0)),('0.0',0),('-0.0',neg(ty,0)),('-0',neg(ty,0)),('1e0',enc(ty,1,Fr(1))),('1.',enc(ty,1,Fr(1))),('.5',enc(ty,1,Fr(1,2))),('00012.50',enc(ty,1,Fr(25,2)))):
        spell(ty,'decimal',t,b)
    for t in ('nan','NaN'): ok('decimal',ID[ty][0],[t],[f'{NANB[ty][0]:x}'])
    for b in NANB[ty]: spell(ty,'0x bits',f'0x{b:x}',b); spell(ty,'0b bits',f'0b{b:b}',b)
for f in ('scalbn','scalbnf','ldexp','ldexpf','jn','jnf','yn','ynf'):
    ra=fn[f][2]; i=ra.index('i32'); ty=ra[1-i]; one=enc(ty,1,Fr(3,2))
    for k in INTS+[20,127,128,255] + ([1023,2147483647] if f[0] in 'sl' else []):
        for K in dict.fromkeys((k,-k)):
            S='-' if K<0 else ''
            sp=[('integer, decimal',str(K)),('integer, hexadecimal',f'{S}0x{k:x}'),('integer, hexadecimal',f'{S}0x{k:X}'),('integer, decimal',f'{S}00{k}')]
            if K>=0: sp+=[('integer, binary',f'0b{k:b}'),('integer, hexadecimal',f'0x00{k:x}')]
            for l,t in sp:
                a=[t,bspell(ty,one)]; w=[str(K),f'{one:x}']
                if i==1: a.reverse(); w.reverse()
                ok(l,f,a,w)
for f in ('scalbn','ldexpf'):
    ra=fn[f][2]; ty=ra[0]; one=enc(ty,1,Fr(3,2))
    for t in ('-2147483648','-0x80000000'): ok('integer, limits',f,[bspell(ty,one),t],[f'{one:x}','-2147483648'])
# refused command lines
BADF=['','x','1.5f','0x','0b','0xg','0b2','0x1.8','0x1.8p','0xp1','1e','--1','1 2','0x1p1x','0b1.1','-0b1','p1','0x1p1p1','1,5','0x1ffffffffffffffff','0b'+'1'*65,'-0x1','1_0','π']
BADI=['','x','1.5','0x','0b','0xg','0b2','2147483648','-2147483649','0x100000000','1e3','--1','1p3','0x1p3','inf','nan','1_0']
for f in FL:
    ra=fn[f][2]; good=[sb(a,alpha(a,2)[1])[0] for a in ra]
    for k in range(0,5):
        if k!=len(ra): no('refused: number of arguments',['eval','libm',f]+[sb(ra[0] if i==0 else ra[-1],alpha((ra[0] if i==0 else ra[-1]),2)[1])[0] for i in range(k)])
    for i,a in enumerate(ra):
        for t in (BADI if a=='i32' else BADF): no('refused: text',['eval','libm',f]+good[:i]+[t]+good[i+1:])
    for t in (f.upper(),f+'x',f[:-1]+'?',' '+f,f+' ','libm::'+f,f+'f32','_'+f):
        if t not in fn: no('refused: name',['eval','libm',t]+good)
    for t in ('','LIBM','lib','libmm','musl','mpfr','none'): no('refused: basis',['eval',t,f]+good)
    for t in ('','Eval','evaluate','ev'): no('refused: subcommand',[t,'libm',f]+good)
for a in ([],['eval'],['eval','libm'],['libm','fabs','1'],['--help'],['eval','libm','','1'],['eval','','','']): no('refused: incomplete',a)
# ---- run
def run(cs):
    i1='\n'.join('\x01'.join(c[1]) or '\x02' for c in cs)+'\n'
    r=subprocess.run([VI,'spawn',UTIL],input=i1,capture_output=True,text=True); out=r.stdout.split('\n')[:-1]
    i2=''.join(c[2][1]+' '+' '.join(c[2][2])+'\n' for c in cs if c[2][0]=='ok')
    r2=subprocess.run([VI,'evalref','x'],input=i2,capture_output=True,text=True); ref=iter(r2.stdout.split('\n')[:-1])
    if len(out)!=len(cs) or r2.returncode: print('helper failed',len(out),len(cs),r.stderr[-500:],r2.stderr[-500:]); sys.exit(3)
    return [(o.split('\x01',1),next(ref) if c[2][0]=='ok' else None) for c,o in zip(cs,out)]
def split_out(s):
    "result in the usual form, result in hexadecimal form"
    s=s.rstrip('\x02')
    m=re.fullmatch(r'\((.*), (.*)\) \((.*), (.*)\)',s)
    if m: return [m[1],m[2]],[m[3],m[4]]
    m=re.fullmatch(r'(\S+) (\S+)',s)
    return ([m[1]],[m[2]]) if m else None
def numval(ty,t):
    "text -> bits of the value it denotes (None: not a number text)"
    u=t.lower(); sg=1
    if u.startswith('-'): sg=-1; u=u[1:]
    if u=='nan': return 'nan'
    if u=='inf': return enc(ty,sg,Fr(2)**5000)
    try:
        if u.startswith('0x'):
            m=re.fullmatch(r'0x([0-9a-f]*)\.?([0-9a-f]*)p([+-]?\d+)',u)
            if not m or not (m[1]+m[2]): return None
            v=Fr(int(m[1]+m[2],16))*Fr(2)**(int(m[3])-4*len(m[2]))
            b=enc(ty,sg,v)
            return b if dec(ty,b)[1]==v else None
        if not re.fullmatch(r'[0-9.]+(e[+-]?\d+)?',u): return None
        return enc(ty,sg,Fr(u))
    except (ValueError,ZeroDivisionError): return None
def check(c,res):
    (code,so),ref=res[0],res[1]
    code=int(code)
    shown=f'exit {code}, '+(so.replace('\x02','\\n')[:200] or '(nothing)')
    if c[2][0]=='no':
        if code!=0 and split_out(so) is None: return None
        return shown,'a refusal: non-zero exit and no result'
    ty=fn[c[2][1]][1]; want=ref.split(' '); exp='exit 0, result bits '+ref
    if code!=0 or so.count('\x02')!=1: return shown,exp
    p=split_out(so)
    if not p or len(p[0])!=len(want): return shown,exp
    for d,h,w in zip(p[0],p[1],want):
        if w[0]=='i':
            k=int(w[1:])
            try:
                if int(d)==k and int(h,16)%2**32==k%2**32: continue
            except ValueError: pass
            return shown,exp
        b=int(w[1:],16); b='nan' if dec(ty,b)[1]=='nan' else b
        if numval(ty,d)!=b or numval(ty,h)!=b: return shown,exp
    return None
def label(c): return c[0]+': '+json.dumps(c[1],ensure_ascii=False)
if REPLAY is not None: cmds=[c for c in cmds if label(c)==REPLAY]
uniq={}
for c in cmds: uniq.setdefault(tuple(c[1]),c)
cmds=list(uniq.values())
nviol=0; per={}
for c,r in zip(cmds,run(cmds)):
    per[c[0]]=per.get(c[0],0)+1
    v=check(c,r)
    if not v: continue
    if REPLAY is not None: print(f'{label(c)}\n observed {v[0]}\n expected {v[1]}'); sys.exit(1)
    nviol+=1
    if nviol<=6:
        p=f'/verif/build/replays/C33-{nviol}.txt'; os.makedirs('/verif/build/replays',exist_ok=True)
        open(p,'w').write(f'engine c33\nproperty C33\ncase {label(c)}\nobserved {v[0]}\nexpected {v[1]}\n')
        print(f'VIOLATION property=C33 replay={p}\nviolation {label(c)[:200]} = {v[0][:300]}, expected {v[1][:300]}',flush=True)
if REPLAY is not None: print('the recorded state no longer violates the property'); sys.exit(0)
n=len(cmds)
ev={'property':'C33','tier':tier,'seed':int(os.environ.get('VERIF_SEED','1')),'level':'model_checking','coverage':{'states':n,'transitions':n,'traces_validated_against_impl':n,'exhaustive':True,'states_meaning':'command lines enumerated','transitions_meaning':'runs of the real program compared with the model','states_per_operation':per,'spaces':[f'{len(FL)} binary32 and binary64 routines x boundary values (ordered products for several arguments); every spelling of boundary values, powers of two and ten and rounding ties; integers in three bases; refused texts in every argument position, argument counts, names, bases and subcommands'],'samples':[label(c) for c in cmds[::max(1,n//8)]][:8]},'assumptions':['the routines themselves are decided by C01-C23','conversion of decimal text is decided by exact rational arithmetic'],'wall_s':round(time.time()-t0,2),'violations':nviol}
json.dump(ev,open('/verif/evidence/C33.json','w'),indent=1)
print(f'C33 {tier}: states={n} transitions={n} violations={nviol} wall={time.time()-t0:.1f}s')
sys.exit(1 if nviol else 0)
