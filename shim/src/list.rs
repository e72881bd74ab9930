// binary32 and binary64 functions
u!(f32 u32:
    vb_acosf = libm::acosf, vb_acoshf = libm::acoshf, vb_asinf = libm::asinf, vb_asinhf = libm::asinhf,
    vb_atanf = libm::atanf, vb_atanhf = libm::atanhf, vb_cbrtf = libm::cbrtf, vb_ceilf = libm::ceilf,
    vb_cosf = libm::cosf, vb_coshf = libm::coshf, vb_erff = libm::erff, vb_erfcf = libm::erfcf,
    vb_expf = libm::expf, vb_exp2f = libm::exp2f, vb_exp10f = libm::exp10f, vb_expm1f = libm::expm1f,
    vb_fabsf = libm::fabsf, vb_floorf = libm::floorf, vb_j0f = libm::j0f, vb_j1f = libm::j1f,
    vb_lgammaf = libm::lgammaf, vb_logf = libm::logf, vb_log10f = libm::log10f, vb_log1pf = libm::log1pf,
    vb_log2f = libm::log2f, vb_rintf = libm::rintf, vb_roundf = libm::roundf, vb_roundevenf = libm::roundevenf,
    vb_sinf = libm::sinf, vb_sinhf = libm::sinhf, vb_sqrtf = libm::sqrtf, vb_tanf = libm::tanf,
    vb_tanhf = libm::tanhf, vb_tgammaf = libm::tgammaf, vb_truncf = libm::truncf, vb_y0f = libm::y0f,
    vb_y1f = libm::y1f,
);
bi!(f32 u32:
    vb_atan2f = libm::atan2f, vb_copysignf = libm::copysignf, vb_fdimf = libm::fdimf, vb_fmaxf = libm::fmaxf,
    vb_fmaximumf = libm::fmaximumf, vb_fmaximum_numf = libm::fmaximum_numf, vb_fminf = libm::fminf,
    vb_fminimumf = libm::fminimumf, vb_fminimum_numf = libm::fminimum_numf, vb_fmodf = libm::fmodf,
    vb_hypotf = libm::hypotf, vb_nextafterf = libm::nextafterf, vb_powf = libm::powf,
    vb_remainderf = libm::remainderf,
);
ter!(f32 u32: vb_fmaf = libm::fmaf);
utt!(f32 u32: vb_modff = libm::modff, vb_sincosf = libm::sincosf);
uti!(f32 u32: vb_frexpf = libm::frexpf, vb_lgammaf_r = libm::lgammaf_r);
ui!(f32 u32: vb_ilogbf = libm::ilogbf);
ti!(f32 u32: vb_ldexpf = libm::ldexpf, vb_scalbnf = libm::scalbnf);
it!(f32 u32: vb_jnf = libm::jnf, vb_ynf = libm::ynf);
tti!(f32 u32: vb_remquof = libm::remquof);
u!(f64 u64:
    vb_acos = libm::acos, vb_acosh = libm::acosh, vb_asin = libm::asin, vb_asinh = libm::asinh,
    vb_atan = libm::atan, vb_atanh = libm::atanh, vb_cbrt = libm::cbrt, vb_ceil = libm::ceil,
    vb_cos = libm::cos, vb_cosh = libm::cosh, vb_erf = libm::erf, vb_erfc = libm::erfc,
    vb_exp = libm::exp, vb_exp2 = libm::exp2, vb_exp10 = libm::exp10, vb_expm1 = libm::expm1,
    vb_fabs = libm::fabs, vb_floor = libm::floor, vb_j0 = libm::j0, vb_j1 = libm::j1,
    vb_lgamma = libm::lgamma, vb_log = libm::log, vb_log10 = libm::log10, vb_log1p = libm::log1p,
    vb_log2 = libm::log2, vb_rint = libm::rint, vb_round = libm::round, vb_roundeven = libm::roundeven,
    vb_sin = libm::sin, vb_sinh = libm::sinh, vb_sqrt = libm::sqrt, vb_tan = libm::tan,
    vb_tanh = libm::tanh, vb_tgamma = libm::tgamma, vb_trunc = libm::trunc, vb_y0 = libm::y0,
    vb_y1 = libm::y1,
);
bi!(f64 u64:
    vb_atan2 = libm::atan2, vb_copysign = libm::copysign, vb_fdim = libm::fdim, vb_fmax = libm::fmax,
    vb_fmaximum = libm::fmaximum, vb_fmaximum_num = libm::fmaximum_num, vb_fmin = libm::fmin,
    vb_fminimum = libm::fminimum, vb_fminimum_num = libm::fminimum_num, vb_fmod = libm::fmod,
    vb_hypot = libm::hypot, vb_nextafter = libm::nextafter, vb_pow = libm::pow,
    vb_remainder = libm::remainder,
);
ter!(f64 u64: vb_fma = libm::fma);
utt!(f64 u64: vb_modf = libm::modf, vb_sincos = libm::sincos);
uti!(f64 u64: vb_frexp = libm::frexp, vb_lgamma_r = libm::lgamma_r);
ui!(f64 u64: vb_ilogb = libm::ilogb);
ti!(f64 u64: vb_ldexp = libm::ldexp, vb_scalbn = libm::scalbn);
it!(f64 u64: vb_jn = libm::jn, vb_yn = libm::yn);
tti!(f64 u64: vb_remquo = libm::remquo);
