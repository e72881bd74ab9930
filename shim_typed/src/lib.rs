//! The typed interface `Libm<T>` behind the batch C ABI of the main shim.
#![feature(f16, f128)]
#![allow(clippy::missing_safety_doc)]
use libm::Libm;
include!("../../shim/src/macros.rs");

u!(f32 u32:
    vb_acosf = Libm::<f32>::acos,
    vb_acoshf = Libm::<f32>::acosh,
    vb_asinf = Libm::<f32>::asin,
    vb_asinhf = Libm::<f32>::asinh,
    vb_atanf = Libm::<f32>::atan,
    vb_atanhf = Libm::<f32>::atanh,
    vb_cbrtf = Libm::<f32>::cbrt,
    vb_ceilf = Libm::<f32>::ceil,
    vb_cosf = Libm::<f32>::cos,
    vb_coshf = Libm::<f32>::cosh,
    vb_erff = Libm::<f32>::erf,
    vb_erfcf = Libm::<f32>::erfc,
    vb_expf = Libm::<f32>::exp,
    vb_exp2f = Libm::<f32>::exp2,
    vb_exp10f = Libm::<f32>::exp10,
    vb_expm1f = Libm::<f32>::expm1,
    vb_fabsf = Libm::<f32>::fabs,
    vb_floorf = Libm::<f32>::floor,
    vb_j0f = Libm::<f32>::j0,
    vb_j1f = Libm::<f32>::j1,
    vb_lgammaf = Libm::<f32>::lgamma,
    vb_logf = Libm::<f32>::log,
    vb_log10f = Libm::<f32>::log10,
    vb_log1pf = Libm::<f32>::log1p,
    vb_log2f = Libm::<f32>::log2,
    vb_rintf = Libm::<f32>::rint,
    vb_roundf = Libm::<f32>::round,
    vb_roundevenf = Libm::<f32>::roundeven,
    vb_sinf = Libm::<f32>::sin,
    vb_sinhf = Libm::<f32>::sinh,
    vb_sqrtf = Libm::<f32>::sqrt,
    vb_tanf = Libm::<f32>::tan,
    vb_tanhf = Libm::<f32>::tanh,
    vb_tgammaf = Libm::<f32>::tgamma,
    vb_truncf = Libm::<f32>::trunc,
    vb_y0f = Libm::<f32>::y0,
    vb_y1f = Libm::<f32>::y1,
);
u!(f64 u64:
    vb_acos = Libm::<f64>::acos,
    vb_acosh = Libm::<f64>::acosh,
    vb_asin = Libm::<f64>::asin,
    vb_asinh = Libm::<f64>::asinh,
    vb_atan = Libm::<f64>::atan,
    vb_atanh = Libm::<f64>::atanh,
    vb_cbrt = Libm::<f64>::cbrt,
    vb_ceil = Libm::<f64>::ceil,
    vb_cos = Libm::<f64>::cos,
    vb_cosh = Libm::<f64>::cosh,
    vb_erf = Libm::<f64>::erf,
    vb_erfc = Libm::<f64>::erfc,
    vb_exp = Libm::<f64>::exp,
    vb_exp2 = Libm::<f64>::exp2,
    vb_exp10 = Libm::<f64>::exp10,
    vb_expm1 = Libm::<f64>::expm1,
    vb_fabs = Libm::<f64>::fabs,
    vb_floor = Libm::<f64>::floor,
    vb_j0 = Libm::<f64>::j0,
    vb_j1 = Libm::<f64>::j1,
    vb_lgamma = Libm::<f64>::lgamma,
    vb_log = Libm::<f64>::log,
    vb_log10 = Libm::<f64>::log10,
    vb_log1p = Libm::<f64>::log1p,
    vb_log2 = Libm::<f64>::log2,
    vb_rint = Libm::<f64>::rint,
    vb_round = Libm::<f64>::round,
    vb_roundeven = Libm::<f64>::roundevem,
    vb_sin = Libm::<f64>::sin,
    vb_sinh = Libm::<f64>::sinh,
    vb_sqrt = Libm::<f64>::sqrt,
    vb_tan = Libm::<f64>::tan,
    vb_tanh = Libm::<f64>::tanh,
    vb_tgamma = Libm::<f64>::tgamma,
    vb_trunc = Libm::<f64>::trunc,
    vb_y0 = Libm::<f64>::y0,
    vb_y1 = Libm::<f64>::y1,
);
u!(f16 u16:
    vb_ceilf16 = Libm::<f16>::ceil,
    vb_fabsf16 = Libm::<f16>::fabs,
    vb_floorf16 = Libm::<f16>::floor,
    vb_rintf16 = Libm::<f16>::rint,
    vb_roundf16 = Libm::<f16>::round,
    vb_roundevenf16 = Libm::<f16>::roundeven,
    vb_sqrtf16 = Libm::<f16>::sqrtf,
    vb_truncf16 = Libm::<f16>::truncf,
);
u!(f128 u128:
    vb_ceilf128 = Libm::<f128>::ceil,
    vb_fabsf128 = Libm::<f128>::fabs,
    vb_floorf128 = Libm::<f128>::floor,
    vb_rintf128 = Libm::<f128>::rint,
    vb_roundf128 = Libm::<f128>::round,
    vb_roundevenf128 = Libm::<f128>::roundeven,
    vb_sqrtf128 = Libm::<f128>::sqrt,
    vb_truncf128 = Libm::<f128>::trunc,
);
bi!(f32 u32:
    vb_atan2f = Libm::<f32>::atan2,
    vb_copysignf = Libm::<f32>::copysign,
    vb_fdimf = Libm::<f32>::fdim,
    vb_fmaxf = Libm::<f32>::fmax,
    vb_fmaximumf = Libm::<f64>::fmaximumf,
    vb_fmaximum_numf = Libm::<f64>::fmaximum_numf,
    vb_fminf = Libm::<f32>::fmin,
    vb_fminimumf = Libm::<f64>::fminimumf,
    vb_fminimum_numf = Libm::<f64>::fminimum_numf,
    vb_fmodf = Libm::<f32>::fmod,
    vb_hypotf = Libm::<f32>::hypot,
    vb_nextafterf = Libm::<f32>::nextafter,
    vb_powf = Libm::<f32>::pow,
    vb_remainderf = Libm::<f32>::remainder,
);
bi!(f64 u64:
    vb_atan2 = Libm::<f64>::atan2,
    vb_copysign = Libm::<f64>::copysign,
    vb_fdim = Libm::<f64>::fdim,
    vb_fmax = Libm::<f64>::fmax,
    vb_fmaximum = Libm::<f64>::fmaximum,
    vb_fmaximum_num = Libm::<f64>::fmaximum_num,
    vb_fmin = Libm::<f64>::fmin,
    vb_fminimum = Libm::<f64>::fminimum,
    vb_fminimum_num = Libm::<f64>::fminimum_num,
    vb_fmod = Libm::<f64>::fmod,
    vb_hypot = Libm::<f64>::hypot,
    vb_nextafter = Libm::<f64>::nextafter,
    vb_pow = Libm::<f64>::pow,
    vb_remainder = Libm::<f64>::remainder,
);
bi!(f16 u16:
    vb_copysignf16 = Libm::<f16>::copysign,
    vb_fdimf16 = Libm::<f16>::fdim,
    vb_fmaxf16 = Libm::<f16>::fmax,
    vb_fmaximumf16 = Libm::<f16>::fmaximumf16,
    vb_fmaximum_numf16 = Libm::<f16>::fmaximum_num,
    vb_fminf16 = Libm::<f16>::fmin,
    vb_fminimumf16 = Libm::<f16>::fminimum,
    vb_fminimum_numf16 = Libm::<f16>::fminimum_num,
    vb_fmodf16 = Libm::<f16>::fmod,
);
bi!(f128 u128:
    vb_copysignf128 = Libm::<f128>::copysign,
    vb_fdimf128 = Libm::<f128>::fdim,
    vb_fmaxf128 = Libm::<f128>::fmax,
    vb_fmaximumf128 = Libm::<f128>::fmaximum,
    vb_fmaximum_numf128 = Libm::<f128>::fmaximum_num,
    vb_fminf128 = Libm::<f128>::fmin,
    vb_fminimumf128 = Libm::<f128>::fminimum,
    vb_fminimum_numf128 = Libm::<f128>::fminimum_num,
    vb_fmodf128 = Libm::<f128>::fmod,
);
ter!(f32 u32:
    vb_fmaf = Libm::<f32>::fma,
);
ter!(f64 u64:
    vb_fma = Libm::<f64>::fma,
);
ter!(f128 u128:
    vb_fmaf128 = Libm::<f128>::fma,
);
utt!(f32 u32:
    vb_modff = Libm::<f32>::modf,
    vb_sincosf = Libm::<f32>::sincos,
);
utt!(f64 u64:
    vb_modf = Libm::<f64>::modf,
    vb_sincos = Libm::<f64>::sincos,
);
uti!(f32 u32:
    vb_frexpf = Libm::<f32>::frexp,
    vb_lgammaf_r = Libm::<f32>::lgamma_r,
);
uti!(f64 u64:
    vb_frexp = Libm::<f64>::frexp,
    vb_lgamma_r = Libm::<f64>::lgamma_r,
);
ui!(f32 u32:
    vb_ilogbf = Libm::<f32>::ilogb,
);
ui!(f64 u64:
    vb_ilogb = Libm::<f64>::ilogb,
);
ti!(f16 u16:
    vb_ldexpf16 = Libm::<f16>::ldexp,
    vb_scalbnf16 = Libm::<f16>::scalbn,
);
ti!(f32 u32:
    vb_ldexpf = Libm::<f32>::ldexp,
    vb_scalbnf = Libm::<f32>::scalbn,
);
ti!(f64 u64:
    vb_ldexp = Libm::<f64>::ldexp,
    vb_scalbn = Libm::<f64>::scalbn,
);
ti!(f128 u128:
    vb_ldexpf128 = Libm::<f128>::ldexp,
    vb_scalbnf128 = Libm::<f128>::scalbn,
);
it!(f32 u32:
    vb_jnf = Libm::<f32>::jn,
    vb_ynf = Libm::<f32>::yn,
);
it!(f64 u64:
    vb_jn = Libm::<f64>::jn,
    vb_yn = Libm::<f64>::yn,
);
tti!(f32 u32:
    vb_remquof = Libm::<f32>::remquo,
);
tti!(f64 u64:
    vb_remquo = Libm::<f64>::remquo,
);
