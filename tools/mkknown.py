import json
F=[("C17","4f480ebac","acosh","4f480eb5184b9cd8ffb071c37afc845abd85576e","acosh(x) and acoshf(x) returned garbage instead of NaN for some x < 1 (negative arguments)"),
("C14","","expm1f","b041f69cb6c2bd9970dcc38245642e59718c7efa","expm1f overflowed to infinity for arguments just below log(FLT_MAX) whose true result is finite (also visible through sinhf/coshf, C17)"),
("C02","","fmaf","a321af203fa122498d01c6abb215d0b641b7835a","fmaf rounded twice when the result is subnormal"),
("C05","","fmaximum_num","e13bde6ee59fe75773faf16482c9ca6b55d9c9c1","fmaximum_num(-0.0, NaN) returned +0.0"),
("C16","","powf","4ad209991912961052213556e20bd71c4581cac5","powf underflowed to zero early for |y| > 2^27 and x just below one"),
("C16","","pow","1373b3e7e481917a0f7435ffa09ec0db78d1144c","pow lost accuracy for |y| > 2^31 and x near one"),
("C20","","yn","8f7817f1b782b4423fae619824b6a90385aa793a","yn and ynf overflowed to -inf before the true result does")]
import os
if os.path.exists('/verif/tools/known_more.py'): exec(open('/verif/tools/known_more.py').read())
with open('/verif/known_findings.txt','w') as f:
    for p,_,op,c,w in F: f.write(f"fixed: property={p} {c} {w}\n")
    for k in globals().get('K',[]): f.write(json.dumps(k)+'\n')
