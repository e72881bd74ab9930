// every operation of the shims: name, shape, width
#define U(n, w) {n, CU, w},
#define UALL(n) U(n "f", 32) U(n, 64)
UALL("acos") UALL("acosh") UALL("asin") UALL("asinh") UALL("atan") UALL("atanh") UALL("cbrt") UALL("cos") UALL("cosh")
UALL("erf") U("erfcf", 32) U("erfc", 64) UALL("exp") U("exp2f", 32) U("exp2", 64) U("exp10f", 32) U("exp10", 64) U("expm1f", 32) U("expm1", 64)
U("j0f", 32) U("j0", 64) U("j1f", 32) U("j1", 64) U("y0f", 32) U("y0", 64) U("y1f", 32) U("y1", 64)
UALL("lgamma") UALL("log") U("log10f", 32) U("log10", 64) U("log1pf", 32) U("log1p", 64) U("log2f", 32) U("log2", 64)
UALL("sin") UALL("sinh") UALL("tan") UALL("tanh") UALL("tgamma")
#define U4(n) U(n "f16", 16) U(n "f", 32) U(n, 64) U(n "f128", 128)
U4("ceil") U4("floor") U4("trunc") U4("round") U4("roundeven") U4("rint") U4("fabs") U4("sqrt")
#define B4(n) {n "f16", CB, 16}, {n "f", CB, 32}, {n, CB, 64}, {n "f128", CB, 128},
B4("copysign") B4("fdim") B4("fmax") B4("fmin") B4("fmaximum") B4("fminimum") B4("fmaximum_num") B4("fminimum_num") B4("fmod")
#define B2(n) {n "f", CB, 32}, {n, CB, 64},
B2("atan2") B2("hypot") B2("nextafter") B2("pow") B2("remainder")
{"fmaf", CT, 32}, {"fma", CT, 64}, {"fmaf128", CT, 128},
{"modff", CUTT, 32}, {"modf", CUTT, 64}, {"sincosf", CUTT, 32}, {"sincos", CUTT, 64},
{"frexpf", CUTI, 32}, {"frexp", CUTI, 64}, {"lgammaf_r", CUTI, 32}, {"lgamma_r", CUTI, 64},
{"ilogbf", CUI, 32}, {"ilogb", CUI, 64},
{"ldexpf16", CTI, 16}, {"ldexpf", CTI, 32}, {"ldexp", CTI, 64}, {"ldexpf128", CTI, 128},
{"scalbnf16", CTI, 16}, {"scalbnf", CTI, 32}, {"scalbn", CTI, 64}, {"scalbnf128", CTI, 128},
{"jnf", CIT, 32}, {"jn", CIT, 64}, {"ynf", CIT, 32}, {"yn", CIT, 64},
{"remquof", CTTI, 32}, {"remquo", CTTI, 64},
