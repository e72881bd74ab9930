u!(f16 u16:
    vb_ceilf16 = libm::ceilf16, vb_fabsf16 = libm::fabsf16, vb_floorf16 = libm::floorf16,
    vb_rintf16 = libm::rintf16, vb_roundf16 = libm::roundf16, vb_roundevenf16 = libm::roundevenf16,
    vb_sqrtf16 = libm::sqrtf16, vb_truncf16 = libm::truncf16,
);
bi!(f16 u16:
    vb_copysignf16 = libm::copysignf16, vb_fdimf16 = libm::fdimf16, vb_fmaxf16 = libm::fmaxf16,
    vb_fmaximumf16 = libm::fmaximumf16, vb_fmaximum_numf16 = libm::fmaximum_numf16, vb_fminf16 = libm::fminf16,
    vb_fminimumf16 = libm::fminimumf16, vb_fminimum_numf16 = libm::fminimum_numf16, vb_fmodf16 = libm::fmodf16,
);
ti!(f16 u16: vb_ldexpf16 = libm::ldexpf16, vb_scalbnf16 = libm::scalbnf16);
