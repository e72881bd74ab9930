u!(f128 u128:
    vb_ceilf128 = libm::ceilf128, vb_fabsf128 = libm::fabsf128, vb_floorf128 = libm::floorf128,
    vb_rintf128 = libm::rintf128, vb_roundf128 = libm::roundf128, vb_roundevenf128 = libm::roundevenf128,
    vb_sqrtf128 = libm::sqrtf128, vb_truncf128 = libm::truncf128,
);
bi!(f128 u128:
    vb_copysignf128 = libm::copysignf128, vb_fdimf128 = libm::fdimf128, vb_fmaxf128 = libm::fmaxf128,
    vb_fmaximumf128 = libm::fmaximumf128, vb_fmaximum_numf128 = libm::fmaximum_numf128, vb_fminf128 = libm::fminf128,
    vb_fminimumf128 = libm::fminimumf128, vb_fminimum_numf128 = libm::fminimum_numf128, vb_fmodf128 = libm::fmodf128,
);
ter!(f128 u128: vb_fmaf128 = libm::fmaf128);
ti!(f128 u128: vb_ldexpf128 = libm::ldexpf128, vb_scalbnf128 = libm::scalbnf128);
