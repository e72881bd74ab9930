#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table, so that the two cannot drift apart.
import json, subprocess, sys
S='libm/src/math/'; G=S+'generic/'
P=[]
def p(id,title,statement,over,text,why,files,mech,tech,note,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,tech=tech,note=note,observe=observe or ['return value of the public function'],hook=hook))
EN='exhaustive enumeration of a bounded input state space of the compiled code, every state compared with a reference model'
DN='"distance" counts representable values between the result and the correctly rounded true value; zeros of both signs count as one value, and a zero result carries the sign of the true value'
SAMP='the tests draw a fixed number of pseudo-random and edge-case inputs and compare them with recorded or musl/MPFR values; a fault confined to a few exponents, one table entry or one rounding case is not sampled'
BND='binary16 (and binary32 for one-argument functions) spaces are complete; binary64/binary128 spaces are the complete product lattices listed in the evidence (every sign x every exponent x every value of the leading significand bits x low-bit patterns, all pairs of shape alphabets, neighbourhoods of every constant in the current sources). Says nothing about binary64/128 inputs outside those lattices. Trusts the reference model and the host compiler.'
ACC=' Reference: glibc in the next wider format, every state further from it than the bound is re-decided in binary128 before it is reported.'
p('C01','Square roots are correctly rounded','The square root of every non-negative value, in all four binary formats, is the representable number nearest to the exact root, ties to even. Negative non-zero arguments and NaN give NaN, both zeros are returned unchanged and +infinity gives +infinity.',['inputs'],'every argument of sqrt in binary16, binary32, binary64 and binary128, in every build configuration',SAMP,[G+'sqrt.rs',S+'sqrt.rs',S+'sqrtf.rs',S+'sqrtf16.rs',S+'sqrtf128.rs'],[('Goldschmidt iteration with a final exact remainder correction',G+'sqrt.rs'),('hardware instruction selected per architecture',S+'arch')],EN+' (exact integer square root)','All 2^16 + 2^32 states for binary16/32. '+BND)
p('C02','Fused multiply-add rounds once','The fused multiply-add of three values is the exact product plus the third value rounded once to nearest-even, including results that are subnormal, cancel completely or overflow, in binary32, binary64 and binary128. Signs of zero results, infinities and NaN follow IEEE 754.',['inputs'],'every triple of arguments',SAMP+'; triples that cancel or fall on a rounding boundary are a vanishing fraction of random triples',[S+'fma.rs',S+'fma_wide.rs',S+'generic/scalbn.rs'],[('wide intermediate with sticky bit and exponent adjustment',S+'fma.rs'),('binary32 through binary64 with a halfway correction',S+'fma_wide.rs')],EN+' (exact big-integer arithmetic)',BND)
p('C03','Rounding to integral values is exact in every mode','Ceiling, floor, truncation, round-half-away, round-half-even and rint return, in all four formats, exactly the integral value their definition names, with the sign of the argument kept when the result is zero. Values that are already integral, infinities and zeros come back unchanged, and NaN gives NaN.',['inputs','configurations'],'every argument in every format and build configuration',SAMP,[G+'ceil.rs',G+'floor.rs',G+'trunc.rs',G+'round.rs',G+'rint.rs',S+'rint.rs',S+'round.rs',S+'roundeven.rs',S+'arch'],[('bit masking by exponent',G+'floor.rs'),('adding and subtracting 1/epsilon',G+'rint.rs')],EN+' (bit-level definition)',BND)
p('C04','Floating-point remainders are exact','The truncated and the nearest-even remainder of two values are the exact mathematical remainders with the sign rules of C (result keeps the dividend\'s sign when zero), and the accompanying quotient equals the low 31 bits of the nearest-even integer quotient, with its sign. Zero divisors, infinite dividends and NaN give NaN; an infinite divisor returns the dividend.',['inputs'],'every pair of arguments of fmod (four formats), remainder and remquo (binary32, binary64)',SAMP+'; exponent gaps of hundreds of bits drive long internal loops that random pairs rarely combine with exact multiples',[G+'fmod.rs',S+'fmod.rs',S+'remainder.rs',S+'remquo.rs',S+'remquof.rs',S+'remainderf.rs'],[('shift-and-subtract long division',G+'fmod.rs'),('half-way correction and quotient tracking',S+'remquo.rs')],EN+' (modular big-integer arithmetic)','Complete for binary16 fmod (2^32 pairs). '+BND)
p('C05','Minimum and maximum obey IEEE ordering, zeros and NaN','Each of the six minimum/maximum functions returns one of its operands, correctly ordered, for every pair of values in every format. The 2008-style and "num" forms return the other operand when exactly one is NaN, the 2019-style minimum and maximum propagate NaN, and all 2019-style forms order -0 below +0.',['inputs','configurations'],'every pair of operands, in four formats',SAMP+'; the recorded zero/NaN cases cover a few pairs per function',[G+'fmin.rs',G+'fmax.rs',G+'fminimum.rs',G+'fmaximum.rs',G+'fminimum_num.rs',G+'fmaximum_num.rs',S+'fmin_fmax.rs',S+'fminimum_fmaximum.rs',S+'fminimum_fmaximum_num.rs'],[('comparison plus canonicalisation by multiplication with one',G+'fmaximum_num.rs')],EN+' (bit-level ordering)','Thorough tier is complete for binary16 (2^32 pairs per function). '+BND)
p('C06','Sign operations are pure bit operations','Absolute value clears only the sign bit and copysign replaces only the sign bit, for every bit pattern of every format, NaN payloads included.',['inputs','configurations'],'every bit pattern, and every pair for copysign',SAMP+'; NaN payloads are not compared by the tests',[G+'fabs.rs',G+'copysign.rs',S+'fabs.rs',S+'copysign.rs',S+'arch'],[('bit masks',G+'copysign.rs')],EN+' (bit-level definition)',BND)
p('C07','Positive difference is exact','The positive difference of two values is the correctly rounded difference when the first is greater, +0 when it is not, and NaN when either is NaN, in all four formats.',['inputs'],'every pair of operands',SAMP,[G+'fdim.rs',S+'fdim.rs'],[('comparison, then one subtraction',G+'fdim.rs')],EN+' (exact subtraction)','Complete for binary16 (2^32 pairs). '+BND)
p('C08','Scaling and decomposition are exact','Scaling by a power of two equals the exact product rounded once, for every exponent including the extremes of the integer range; splitting a value into fraction and exponent or into fractional and integral part loses nothing, and the integer logarithm is the exact binary exponent, with the documented sentinel values for zero, infinity and NaN.',['inputs'],'every value with every integer exponent (scalbn, ldexp in four formats); every value (frexp, ilogb, modf in binary32 and binary64)',SAMP+'; double rounding into the subnormal range needs a particular significand with a particular exponent',[G+'scalbn.rs',S+'scalbn.rs',S+'ldexp.rs',S+'frexp.rs',S+'frexpf.rs',S+'ilogb.rs',S+'ilogbf.rs',S+'modf.rs',S+'modff.rs'],[('multi-step multiplication arranged to round once',G+'scalbn.rs'),('exponent-field extraction and normalisation of subnormals',S+'frexp.rs')],EN+' (exact integer model)','Complete for binary16 scaling over all values and for binary32 decomposition (2^32). '+BND)
p('C09','Next-representable steps are exactly one step','Stepping from a value towards another returns the adjacent representable value in that direction, the second argument when the two are equal, and NaN when either is NaN, across zero, subnormal, binade and infinity boundaries.',['inputs'],'every pair (start, direction) in binary32 and binary64',SAMP,[S+'nextafter.rs',S+'nextafterf.rs'],[('integer increment of the representation',S+'nextafter.rs')],EN+' (order-preserving integer map)','All 2^32 binary32 starts toward both infinities. '+BND)
p('C10','Cube root is correctly rounded; hypotenuse within one step','The cube root is the correctly rounded (nearest-even) value in binary32 and binary64. The hypotenuse is within a distance of 1 of the correctly rounded value without spurious overflow or underflow (distance counts representable values).',['inputs'],'every argument of cbrt; every pair for hypot',SAMP,[S+'cbrt.rs',S+'cbrtf.rs',S+'hypot.rs',S+'hypotf.rs'],[('polynomial start, Newton steps and exact rounding test',S+'cbrt.rs'),('scaling by powers of two and split squares',S+'hypot.rs')],EN,'All 2^32 binary32 cbrt states. '+BND+ACC)
p('C11','Single-precision sine, cosine, tangent are accurate everywhere','Single-precision sine, cosine, tangent and the combined sine/cosine are within a distance of 1 of the correctly rounded value for every finite argument, however large; infinities and NaN give NaN ('+DN+').',['inputs'],'every binary32 argument',SAMP+'; arguments near large multiples of pi/2 need the slow reduction path',[S+'sinf.rs',S+'cosf.rs',S+'tanf.rs',S+'sincosf.rs',S+'k_sinf.rs',S+'k_cosf.rs',S+'k_tanf.rs',S+'rem_pio2f.rs',S+'rem_pio2_large.rs'],[('argument reduction modulo pi/2',S+'rem_pio2f.rs')],EN,'Complete for |x| < 2^30 and a 2^14-per-binade lattice above (thorough: all 2^32). '+BND+ACC)
p('C12','Double-precision sine, cosine, tangent are accurate everywhere','Double-precision sine, cosine, tangent and the combined sine/cosine are within a distance of 1 of the correctly rounded value for every finite argument, including those closest to multiples of pi/2 and the largest ones; infinities and NaN give NaN ('+DN+').',['inputs'],'every binary64 argument',SAMP+'; the hardest argument-reduction cases are isolated doubles',[S+'sin.rs',S+'cos.rs',S+'tan.rs',S+'sincos.rs',S+'k_sin.rs',S+'k_cos.rs',S+'k_tan.rs',S+'rem_pio2.rs',S+'rem_pio2_large.rs'],[('three-stage Cody-Waite reduction',S+'rem_pio2.rs'),('Payne-Hanek reduction',S+'rem_pio2_large.rs')],EN,'Includes, for every binade, the doubles closest to multiples of pi/2 found by continued fractions (data/trig_worst.txt). '+BND+ACC)
p('C13','Inverse trigonometric functions are accurate','Arc sine, arc cosine and arc tangent are within a distance of 1, and the two-argument arc tangent within 2, of the correctly rounded value in binary32 and binary64, with arguments outside the domain giving NaN ('+DN+').',['inputs'],'every argument; every pair for the two-argument form',SAMP,[S+'asin.rs',S+'acos.rs',S+'atan.rs',S+'atan2.rs',S+'asinf.rs',S+'acosf.rs',S+'atanf.rs',S+'atan2f.rs'],[('rational approximations per interval',S+'asin.rs'),('quadrant and exponent-gap case analysis',S+'atan2.rs')],EN,'All 2^32 binary32 states per one-argument function. '+BND+ACC)
p('C14','Exponential functions are accurate','The exponentials in bases e and 2 and exp(x)-1 are within a distance of 1, and base 10 within 6, of the correctly rounded value in binary32 and binary64. They return infinity or zero exactly where the correctly rounded value is infinity or zero ('+DN+').',['inputs'],'every argument',SAMP,[S+'exp.rs',S+'expf.rs',S+'exp2.rs',S+'exp2f.rs',S+'exp10.rs',S+'exp10f.rs',S+'expm1.rs',S+'expm1f.rs',S+'k_expo2.rs',S+'k_expo2f.rs'],[('range reduction and table lookup',S+'exp2.rs'),('exact powers by table, rest through exp2',S+'exp10.rs')],EN,'All 2^32 binary32 states per function. '+BND+ACC)
p('C15','Logarithms are accurate','The logarithms in bases e, 2 and 10 and log(1+x) are within a distance of 1 of the correctly rounded value in binary32 and binary64, including arguments next to one and subnormal arguments; negative arguments outside the domain give NaN and the pole gives negative infinity ('+DN+').',['inputs'],'every argument',SAMP,[S+'log.rs',S+'logf.rs',S+'log2.rs',S+'log2f.rs',S+'log10.rs',S+'log10f.rs',S+'log1p.rs',S+'log1pf.rs'],[('argument split into exponent and significand near sqrt(2)',S+'log.rs')],EN,'All 2^32 binary32 states per function. '+BND+ACC)
p('C16','Powers are accurate over the whole range','x raised to y is within a distance of 1 of the correctly rounded value for every pair, including results at the edge of overflow and underflow, bases next to one with huge exponents, negative bases with integral exponents and subnormal bases ('+DN+').',['inputs'],'every pair of arguments in binary32 and binary64',SAMP+'; the interesting pairs lie on thin curves (y*log x near the range limits)',[S+'pow.rs',S+'powf.rs'],[('log2 in double-double, split multiplication, exp2 kernel, case analysis on special values',S+'pow.rs')],EN,BND+ACC)
p('C17','Hyperbolic functions and their inverses are accurate','Hyperbolic cosine is within a distance of 1; sine, tangent and the inverse sine and tangent within 2; the inverse cosine within 4 of the correctly rounded value, in binary32 and binary64. Arguments outside the domain give NaN and infinity or zero is returned exactly where the correctly rounded value is infinity or zero ('+DN+').',['inputs'],'every argument',SAMP,[S+'sinh.rs',S+'cosh.rs',S+'tanh.rs',S+'asinh.rs',S+'acosh.rs',S+'atanh.rs',S+'sinhf.rs',S+'coshf.rs',S+'tanhf.rs',S+'asinhf.rs',S+'acoshf.rs',S+'atanhf.rs',S+'k_expo2.rs'],[('interval case analysis over expm1/log1p',S+'sinh.rs')],EN,'All 2^32 binary32 states per function. '+BND+ACC)
p('C18','Error functions are accurate','The error function is within a distance of 1 and the complementary error function within 4 of the correctly rounded value in binary32 and binary64, including the deep tail where the complement is subnormal ('+DN+').',['inputs'],'every argument',SAMP,[S+'erf.rs',S+'erff.rs'],[('rational approximations per interval, split exponential in the tail',S+'erf.rs')],EN,'All 2^32 binary32 states per function. '+BND+ACC)
p('C19','Gamma and log-gamma are accurate with correct sign','Gamma is within a distance of 1 (binary32) or 20 (binary64) of the correctly rounded value, and log-gamma of a positive argument within 16. For negative arguments the absolute error of log-gamma is at most 16*2^-p times the sum of the magnitudes of the two terms of the reflection formula plus one (p the significand precision), and the reported sign is the sign of gamma; poles give infinity or NaN as C prescribes.',['inputs'],'every argument',SAMP+'; sign and cancellation change at every negative integer and at every zero of log-gamma between them',[S+'tgamma.rs',S+'tgammaf.rs',S+'lgamma.rs',S+'lgamma_r.rs',S+'lgammaf.rs',S+'lgammaf_r.rs'],[('Lanczos approximation with reflection',S+'tgamma.rs'),('interval polynomials and reflection with reduced sine',S+'lgamma_r.rs')],EN,BND+' Near the negative zeros of log-gamma the relative error is unbounded in the algorithm, hence the absolute bound.')
p('C20','Bessel functions are accurate relative to their envelope','Bessel functions of the first and second kind of order 0 and 1 have an absolute error of at most 8*2^-p, and of order n at most (64+2|n|)*2^-p, times the oscillation envelope (the hypotenuse of both kinds at that argument; the value itself in the monotone range of the first kind) for orders up to 3000 in magnitude; at orders of any size, arguments so small that the value leaves the format give zero or the infinity of the right sign. Negative orders and arguments obey the exact parity rules, order 0 and 1 agree with the dedicated functions, and poles, negative arguments of the second kind, infinities and NaN give the values C prescribes.',['inputs'],'every argument, every order',SAMP+'; zeros, recurrence-direction switches and the switch to the asymptotic form are narrow regions in (order, argument)',[S+'j0.rs',S+'j1.rs',S+'jn.rs',S+'j0f.rs',S+'j1f.rs',S+'jnf.rs'],[('asymptotic expansions per interval',S+'j0.rs'),('forward and backward recurrence',S+'jn.rs')],EN,BND+' Orders beyond 300 are covered for totality only (C23). Reference: glibc binary128 Bessel functions.')
p('C21','Special values follow the C standard exactly','For every argument or combination of arguments for which C Annex F fixes an exact result - zeros, infinities, NaN, domain errors, poles, exact points such as powers of one - every function returns exactly that result, with the sign it prescribes. A NaN argument gives NaN except where the standard defines otherwise.',['inputs','configurations'],'every function, every special operand combined with every other operand, in every build configuration',SAMP+'; only selected special cases per function are listed',[S+'pow.rs',S+'powf.rs',S+'hypot.rs',S+'atan2.rs',S+'lgamma_r.rs',S+'tgamma.rs',S+'fma.rs',G+'fmod.rs','libm/src/lib.rs'],[('case analysis at the head of each function',S+'pow.rs')],'exhaustive enumeration of special-operand combinations on the compiled code against a table of the standard\'s rules','All binary32 NaN patterns, all half-integers to 2^15, operands of every exponent. '+BND)
p('C22','Exact mathematical identities and ranges hold','Odd functions negate and even functions ignore the sign of the argument bit for bit, results stay inside the mathematical range of the function as rounded, and functions that return several results agree exactly with their single-result counterparts. Sign identities of the two-argument functions hold exactly.',['inputs'],'every argument pair (x,-x); every pair of operands',SAMP+'; no test relates two executions to each other',[S+'sin.rs',S+'sincos.rs',S+'sincosf.rs',S+'atan2.rs',S+'hypot.rs',S+'remquo.rs',S+'modf.rs',S+'ldexp.rs',S+'lgamma.rs',S+'tanh.rs',S+'erf.rs'],[('shared kernels',S+'k_sin.rs'),('sign handling at entry and exit',S+'tanh.rs')],'exhaustive enumeration of related execution pairs of the compiled code (relational model checking, no numeric oracle)',BND)
p('C23','Every call returns without panicking','Every public function returns a value for every argument, in a build with overflow checks, bounds checks and debug assertions enabled: no panic, no arithmetic overflow, no out-of-range index, no trap and no endless loop.',['inputs'],'every argument tuple of every public function (orders of the order-n Bessel functions bounded, since their running time is proportional to the order)',SAMP+'; table indices are computed from the argument, so one out-of-range index needs one particular argument',['libm/src/lib.rs',S+'mod.rs',S+'rem_pio2_large.rs',S+'exp2.rs',S+'exp10.rs','libm/src/libm_helper.rs'],[('i! indexing macro: checked in debug, unchecked in release',S+'mod.rs')],'exhaustive enumeration of the input state space in a checked build, with a watchdog for non-termination',BND)
p('C24','Functions are pure, reentrant and leave no trace','The result of a call depends only on its arguments: not on which calls came before it, not on raised floating-point status flags, and not on a complete call to any function that interrupts it at any machine instruction. No call changes the floating-point control state.',['schedules','histories'],'every ordered pair of calls of a function from a set of inputs that collide in part of their representation, every pair of functions, and every preemption point (machine instruction) inside a call',"tests run each call in isolation or in one fixed order, and never interrupt one",['libm/src/lib.rs',S+'mod.rs',S+'rem_pio2_large.rs',S+'support/env.rs'],[('no mutable statics; all state in locals',S+'rem_pio2_large.rs')],'exhaustive call-history enumeration and single-preemption schedule exploration at machine-instruction granularity on the real code','Preemption bound 1: the nested call is placed before every instruction of the interrupted call (strided above 700 instructions in the quick tier, reported). Two-call histories are complete over the input set. Weak memory reorderings are not modelled. The writable memory of the library is compared around every call; an operation found to write it is explored further: all its states before all states of every operation, all triples of its states, millions of calls in a row.')
p('C25','Every build configuration computes the same results','The default build, the portable build without architecture-specific code, the build using compiler intrinsics and the unoptimised/checked builds return bit-identical results (any NaN equal to any NaN) for every function and argument.',['inputs','configurations'],'every function and argument, compared across build configurations',"the suite is run in one configuration at a time, with tolerances; no test compares two",['libm/Cargo.toml','libm/configure.rs',S+'support/macros.rs',S+'arch/mod.rs',S+'arch/i686.rs',S+'arch/wasm32.rs'],[('select_implementation! dispatch',S+'support/macros.rs')],'exhaustive enumeration of a bounded input space, configurations executed in lock step (differential)',BND)
exec(open('/verif/tools/meta_more.py').read()) if __import__('os').path.exists('/verif/tools/meta_more.py') else None
NA=globals().get('NA',[])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(dict(id=q['id'],title=q['title'],statement=q['statement'],quantifier=dict(over=q['over'],text=q['text']),why_tests_cant=q['why'],anchors=dict(files=q['files'],mechanism=[dict(name=a,where=b) for a,b in q['mech']],observe_at=q['observe'],hook_needed=q['hook'])))+'\n')
na=[x['property'] for x in NA]
m=dict(version=1,setup_cmd='bash /verif/setup.sh',checks=[dict(property=q['id'],quick_cmd=f"bash /verif/run.sh {q['id']} quick",thorough_cmd=f"bash /verif/run.sh {q['id']} thorough",technique=q['tech'],level='model_checking',level_note=q['note']) for q in P if q['id'] not in na],not_applicable=NA)
if 'HOOKS' in globals(): m['hooks']=HOOKS
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import os
for q in P:
    for f in q['files']+[b for _,b in q['mech']]:
        if not os.path.exists('/repo/'+f): print('missing anchor',q['id'],f)
