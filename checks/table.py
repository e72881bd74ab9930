# every routine of the crate, its format and its Rust and C signatures
ONE='acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 log1p log2 sin sinh tan tanh tgamma y0 y1'.split()
ONE4='ceil fabs floor rint round roundeven sqrt trunc'.split()
TWO='atan2 hypot nextafter pow remainder'.split()
TWO4='copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod'.split()
fn={} # name -> (base, fty, rust args, rust ret, c args, c ret)
def add(base,n,args,ret,name=None,cargs=None,cret=None):
    ty={16:'f16',32:'f32',64:'f64',128:'f128'}[n]
    nm=name or base+{16:'f16',32:'f',64:'',128:'f128'}[n]
    s=lambda l:[x.replace('T',ty) for x in l]
    fn[nm]=(base,ty,s(args),s(ret),s(cargs if cargs is not None else args),s(cret if cret is not None else ret))
for b in ONE: [add(b,n,['T'],['T']) for n in (32,64)]
for b in ONE4: [add(b,n,['T'],['T']) for n in (16,32,64,128)]
for b in TWO: [add(b,n,['T','T'],['T']) for n in (32,64)]
for b in TWO4: [add(b,n,['T','T'],['T']) for n in (16,32,64,128)]
for n in (32,64,128): add('fma',n,['T']*3,['T'])
for b in ('scalbn','ldexp'): [add(b,n,['T','i32'],['T']) for n in (16,32,64,128)]
CI="&'amut::core::ffi::c_int"
for n in (32,64):
    add('ilogb',n,['T'],['i32'])
    for b in ('jn','yn'): add(b,n,['i32','T'],['T'])
    add('modf',n,['T'],['T','T'],cargs=['T',"&'amutT"],cret=['T'])
    add('frexp',n,['T'],['T','i32'],cargs=['T',CI],cret=['T'])
    add('lgamma_r',n,['T'],['T','i32'],name='lgamma_r' if n==64 else 'lgammaf_r',cargs=['T',CI],cret=['T'])
    add('remquo',n,['T','T'],['T','i32'],cargs=['T','T',CI],cret=['T'])
    add('sincos',n,['T'],['T','T'],cargs=['T',"&'amutT","&'amutT"],cret=[])
NAMES=sorted(fn)
