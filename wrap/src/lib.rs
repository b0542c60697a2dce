// Generated by gen_wrap.py: exported entry points for the static analyses.
#![no_std]
#![cfg_attr(feature = "x", feature(f16, f128))]
#![allow(improper_ctypes_definitions)]

#[no_mangle] pub fn vw_acosf(a0: f32) -> f32 { libm::acosf(a0) }
#[no_mangle] pub fn vw_acoshf(a0: f32) -> f32 { libm::acoshf(a0) }
#[no_mangle] pub fn vw_asinf(a0: f32) -> f32 { libm::asinf(a0) }
#[no_mangle] pub fn vw_asinhf(a0: f32) -> f32 { libm::asinhf(a0) }
#[no_mangle] pub fn vw_atanf(a0: f32) -> f32 { libm::atanf(a0) }
#[no_mangle] pub fn vw_atanhf(a0: f32) -> f32 { libm::atanhf(a0) }
#[no_mangle] pub fn vw_cbrtf(a0: f32) -> f32 { libm::cbrtf(a0) }
#[no_mangle] pub fn vw_ceilf(a0: f32) -> f32 { libm::ceilf(a0) }
#[no_mangle] pub fn vw_cosf(a0: f32) -> f32 { libm::cosf(a0) }
#[no_mangle] pub fn vw_coshf(a0: f32) -> f32 { libm::coshf(a0) }
#[no_mangle] pub fn vw_erfcf(a0: f32) -> f32 { libm::erfcf(a0) }
#[no_mangle] pub fn vw_erff(a0: f32) -> f32 { libm::erff(a0) }
#[no_mangle] pub fn vw_exp10f(a0: f32) -> f32 { libm::exp10f(a0) }
#[no_mangle] pub fn vw_exp2f(a0: f32) -> f32 { libm::exp2f(a0) }
#[no_mangle] pub fn vw_expf(a0: f32) -> f32 { libm::expf(a0) }
#[no_mangle] pub fn vw_expm1f(a0: f32) -> f32 { libm::expm1f(a0) }
#[no_mangle] pub fn vw_fabsf(a0: f32) -> f32 { libm::fabsf(a0) }
#[no_mangle] pub fn vw_floorf(a0: f32) -> f32 { libm::floorf(a0) }
#[no_mangle] pub fn vw_j0f(a0: f32) -> f32 { libm::j0f(a0) }
#[no_mangle] pub fn vw_j1f(a0: f32) -> f32 { libm::j1f(a0) }
#[no_mangle] pub fn vw_lgammaf(a0: f32) -> f32 { libm::lgammaf(a0) }
#[no_mangle] pub fn vw_log10f(a0: f32) -> f32 { libm::log10f(a0) }
#[no_mangle] pub fn vw_log1pf(a0: f32) -> f32 { libm::log1pf(a0) }
#[no_mangle] pub fn vw_log2f(a0: f32) -> f32 { libm::log2f(a0) }
#[no_mangle] pub fn vw_logf(a0: f32) -> f32 { libm::logf(a0) }
#[no_mangle] pub fn vw_rintf(a0: f32) -> f32 { libm::rintf(a0) }
#[no_mangle] pub fn vw_roundevenf(a0: f32) -> f32 { libm::roundevenf(a0) }
#[no_mangle] pub fn vw_roundf(a0: f32) -> f32 { libm::roundf(a0) }
#[no_mangle] pub fn vw_sinf(a0: f32) -> f32 { libm::sinf(a0) }
#[no_mangle] pub fn vw_sinhf(a0: f32) -> f32 { libm::sinhf(a0) }
#[no_mangle] pub fn vw_sqrtf(a0: f32) -> f32 { libm::sqrtf(a0) }
#[no_mangle] pub fn vw_tanf(a0: f32) -> f32 { libm::tanf(a0) }
#[no_mangle] pub fn vw_tanhf(a0: f32) -> f32 { libm::tanhf(a0) }
#[no_mangle] pub fn vw_tgammaf(a0: f32) -> f32 { libm::tgammaf(a0) }
#[no_mangle] pub fn vw_truncf(a0: f32) -> f32 { libm::truncf(a0) }
#[no_mangle] pub fn vw_y0f(a0: f32) -> f32 { libm::y0f(a0) }
#[no_mangle] pub fn vw_y1f(a0: f32) -> f32 { libm::y1f(a0) }
#[no_mangle] pub fn vw_acos(a0: f64) -> f64 { libm::acos(a0) }
#[no_mangle] pub fn vw_acosh(a0: f64) -> f64 { libm::acosh(a0) }
#[no_mangle] pub fn vw_asin(a0: f64) -> f64 { libm::asin(a0) }
#[no_mangle] pub fn vw_asinh(a0: f64) -> f64 { libm::asinh(a0) }
#[no_mangle] pub fn vw_atan(a0: f64) -> f64 { libm::atan(a0) }
#[no_mangle] pub fn vw_atanh(a0: f64) -> f64 { libm::atanh(a0) }
#[no_mangle] pub fn vw_cbrt(a0: f64) -> f64 { libm::cbrt(a0) }
#[no_mangle] pub fn vw_ceil(a0: f64) -> f64 { libm::ceil(a0) }
#[no_mangle] pub fn vw_cos(a0: f64) -> f64 { libm::cos(a0) }
#[no_mangle] pub fn vw_cosh(a0: f64) -> f64 { libm::cosh(a0) }
#[no_mangle] pub fn vw_erfc(a0: f64) -> f64 { libm::erfc(a0) }
#[no_mangle] pub fn vw_erf(a0: f64) -> f64 { libm::erf(a0) }
#[no_mangle] pub fn vw_exp10(a0: f64) -> f64 { libm::exp10(a0) }
#[no_mangle] pub fn vw_exp2(a0: f64) -> f64 { libm::exp2(a0) }
#[no_mangle] pub fn vw_exp(a0: f64) -> f64 { libm::exp(a0) }
#[no_mangle] pub fn vw_expm1(a0: f64) -> f64 { libm::expm1(a0) }
#[no_mangle] pub fn vw_fabs(a0: f64) -> f64 { libm::fabs(a0) }
#[no_mangle] pub fn vw_floor(a0: f64) -> f64 { libm::floor(a0) }
#[no_mangle] pub fn vw_j0(a0: f64) -> f64 { libm::j0(a0) }
#[no_mangle] pub fn vw_j1(a0: f64) -> f64 { libm::j1(a0) }
#[no_mangle] pub fn vw_lgamma(a0: f64) -> f64 { libm::lgamma(a0) }
#[no_mangle] pub fn vw_log10(a0: f64) -> f64 { libm::log10(a0) }
#[no_mangle] pub fn vw_log1p(a0: f64) -> f64 { libm::log1p(a0) }
#[no_mangle] pub fn vw_log2(a0: f64) -> f64 { libm::log2(a0) }
#[no_mangle] pub fn vw_log(a0: f64) -> f64 { libm::log(a0) }
#[no_mangle] pub fn vw_rint(a0: f64) -> f64 { libm::rint(a0) }
#[no_mangle] pub fn vw_roundeven(a0: f64) -> f64 { libm::roundeven(a0) }
#[no_mangle] pub fn vw_round(a0: f64) -> f64 { libm::round(a0) }
#[no_mangle] pub fn vw_sin(a0: f64) -> f64 { libm::sin(a0) }
#[no_mangle] pub fn vw_sinh(a0: f64) -> f64 { libm::sinh(a0) }
#[no_mangle] pub fn vw_sqrt(a0: f64) -> f64 { libm::sqrt(a0) }
#[no_mangle] pub fn vw_tan(a0: f64) -> f64 { libm::tan(a0) }
#[no_mangle] pub fn vw_tanh(a0: f64) -> f64 { libm::tanh(a0) }
#[no_mangle] pub fn vw_tgamma(a0: f64) -> f64 { libm::tgamma(a0) }
#[no_mangle] pub fn vw_trunc(a0: f64) -> f64 { libm::trunc(a0) }
#[no_mangle] pub fn vw_y0(a0: f64) -> f64 { libm::y0(a0) }
#[no_mangle] pub fn vw_y1(a0: f64) -> f64 { libm::y1(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_ceilf16(a0: f16) -> f16 { libm::ceilf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fabsf16(a0: f16) -> f16 { libm::fabsf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_floorf16(a0: f16) -> f16 { libm::floorf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_rintf16(a0: f16) -> f16 { libm::rintf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_roundevenf16(a0: f16) -> f16 { libm::roundevenf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_roundf16(a0: f16) -> f16 { libm::roundf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_sqrtf16(a0: f16) -> f16 { libm::sqrtf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_truncf16(a0: f16) -> f16 { libm::truncf16(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_ceilf128(a0: f128) -> f128 { libm::ceilf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fabsf128(a0: f128) -> f128 { libm::fabsf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_floorf128(a0: f128) -> f128 { libm::floorf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_rintf128(a0: f128) -> f128 { libm::rintf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_roundevenf128(a0: f128) -> f128 { libm::roundevenf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_roundf128(a0: f128) -> f128 { libm::roundf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_sqrtf128(a0: f128) -> f128 { libm::sqrtf128(a0) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_truncf128(a0: f128) -> f128 { libm::truncf128(a0) }
#[no_mangle] pub fn vw_atan2f(a0: f32, a1: f32) -> f32 { libm::atan2f(a0, a1) }
#[no_mangle] pub fn vw_copysignf(a0: f32, a1: f32) -> f32 { libm::copysignf(a0, a1) }
#[no_mangle] pub fn vw_fdimf(a0: f32, a1: f32) -> f32 { libm::fdimf(a0, a1) }
#[no_mangle] pub fn vw_fmaxf(a0: f32, a1: f32) -> f32 { libm::fmaxf(a0, a1) }
#[no_mangle] pub fn vw_fmaximum_numf(a0: f32, a1: f32) -> f32 { libm::fmaximum_numf(a0, a1) }
#[no_mangle] pub fn vw_fmaximumf(a0: f32, a1: f32) -> f32 { libm::fmaximumf(a0, a1) }
#[no_mangle] pub fn vw_fminf(a0: f32, a1: f32) -> f32 { libm::fminf(a0, a1) }
#[no_mangle] pub fn vw_fminimum_numf(a0: f32, a1: f32) -> f32 { libm::fminimum_numf(a0, a1) }
#[no_mangle] pub fn vw_fminimumf(a0: f32, a1: f32) -> f32 { libm::fminimumf(a0, a1) }
#[no_mangle] pub fn vw_fmodf(a0: f32, a1: f32) -> f32 { libm::fmodf(a0, a1) }
#[no_mangle] pub fn vw_hypotf(a0: f32, a1: f32) -> f32 { libm::hypotf(a0, a1) }
#[no_mangle] pub fn vw_nextafterf(a0: f32, a1: f32) -> f32 { libm::nextafterf(a0, a1) }
#[no_mangle] pub fn vw_powf(a0: f32, a1: f32) -> f32 { libm::powf(a0, a1) }
#[no_mangle] pub fn vw_remainderf(a0: f32, a1: f32) -> f32 { libm::remainderf(a0, a1) }
#[no_mangle] pub fn vw_atan2(a0: f64, a1: f64) -> f64 { libm::atan2(a0, a1) }
#[no_mangle] pub fn vw_copysign(a0: f64, a1: f64) -> f64 { libm::copysign(a0, a1) }
#[no_mangle] pub fn vw_fdim(a0: f64, a1: f64) -> f64 { libm::fdim(a0, a1) }
#[no_mangle] pub fn vw_fmax(a0: f64, a1: f64) -> f64 { libm::fmax(a0, a1) }
#[no_mangle] pub fn vw_fmaximum_num(a0: f64, a1: f64) -> f64 { libm::fmaximum_num(a0, a1) }
#[no_mangle] pub fn vw_fmaximum(a0: f64, a1: f64) -> f64 { libm::fmaximum(a0, a1) }
#[no_mangle] pub fn vw_fmin(a0: f64, a1: f64) -> f64 { libm::fmin(a0, a1) }
#[no_mangle] pub fn vw_fminimum_num(a0: f64, a1: f64) -> f64 { libm::fminimum_num(a0, a1) }
#[no_mangle] pub fn vw_fminimum(a0: f64, a1: f64) -> f64 { libm::fminimum(a0, a1) }
#[no_mangle] pub fn vw_fmod(a0: f64, a1: f64) -> f64 { libm::fmod(a0, a1) }
#[no_mangle] pub fn vw_hypot(a0: f64, a1: f64) -> f64 { libm::hypot(a0, a1) }
#[no_mangle] pub fn vw_nextafter(a0: f64, a1: f64) -> f64 { libm::nextafter(a0, a1) }
#[no_mangle] pub fn vw_pow(a0: f64, a1: f64) -> f64 { libm::pow(a0, a1) }
#[no_mangle] pub fn vw_remainder(a0: f64, a1: f64) -> f64 { libm::remainder(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_copysignf16(a0: f16, a1: f16) -> f16 { libm::copysignf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fdimf16(a0: f16, a1: f16) -> f16 { libm::fdimf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaxf16(a0: f16, a1: f16) -> f16 { libm::fmaxf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaximum_numf16(a0: f16, a1: f16) -> f16 { libm::fmaximum_numf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaximumf16(a0: f16, a1: f16) -> f16 { libm::fmaximumf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminf16(a0: f16, a1: f16) -> f16 { libm::fminf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminimum_numf16(a0: f16, a1: f16) -> f16 { libm::fminimum_numf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminimumf16(a0: f16, a1: f16) -> f16 { libm::fminimumf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmodf16(a0: f16, a1: f16) -> f16 { libm::fmodf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_copysignf128(a0: f128, a1: f128) -> f128 { libm::copysignf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fdimf128(a0: f128, a1: f128) -> f128 { libm::fdimf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaxf128(a0: f128, a1: f128) -> f128 { libm::fmaxf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaximum_numf128(a0: f128, a1: f128) -> f128 { libm::fmaximum_numf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaximumf128(a0: f128, a1: f128) -> f128 { libm::fmaximumf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminf128(a0: f128, a1: f128) -> f128 { libm::fminf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminimum_numf128(a0: f128, a1: f128) -> f128 { libm::fminimum_numf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fminimumf128(a0: f128, a1: f128) -> f128 { libm::fminimumf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmodf128(a0: f128, a1: f128) -> f128 { libm::fmodf128(a0, a1) }
#[no_mangle] pub fn vw_fmaf(a0: f32, a1: f32, a2: f32) -> f32 { libm::fmaf(a0, a1, a2) }
#[no_mangle] pub fn vw_fma(a0: f64, a1: f64, a2: f64) -> f64 { libm::fma(a0, a1, a2) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_fmaf128(a0: f128, a1: f128, a2: f128) -> f128 { libm::fmaf128(a0, a1, a2) }
#[no_mangle] pub fn vw_ilogbf(a0: f32) -> i32 { libm::ilogbf(a0) }
#[no_mangle] pub fn vw_ilogb(a0: f64) -> i32 { libm::ilogb(a0) }
#[no_mangle] pub fn vw_jnf(a0: i32, a1: f32) -> f32 { libm::jnf(a0, a1) }
#[no_mangle] pub fn vw_ynf(a0: i32, a1: f32) -> f32 { libm::ynf(a0, a1) }
#[no_mangle] pub fn vw_jn(a0: i32, a1: f64) -> f64 { libm::jn(a0, a1) }
#[no_mangle] pub fn vw_yn(a0: i32, a1: f64) -> f64 { libm::yn(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_ldexpf16(a0: f16, a1: i32) -> f16 { libm::ldexpf16(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_scalbnf16(a0: f16, a1: i32) -> f16 { libm::scalbnf16(a0, a1) }
#[no_mangle] pub fn vw_ldexpf(a0: f32, a1: i32) -> f32 { libm::ldexpf(a0, a1) }
#[no_mangle] pub fn vw_scalbnf(a0: f32, a1: i32) -> f32 { libm::scalbnf(a0, a1) }
#[no_mangle] pub fn vw_ldexp(a0: f64, a1: i32) -> f64 { libm::ldexp(a0, a1) }
#[no_mangle] pub fn vw_scalbn(a0: f64, a1: i32) -> f64 { libm::scalbn(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_ldexpf128(a0: f128, a1: i32) -> f128 { libm::ldexpf128(a0, a1) }
#[cfg(feature = "x")] #[no_mangle] pub fn vw_scalbnf128(a0: f128, a1: i32) -> f128 { libm::scalbnf128(a0, a1) }
#[no_mangle] pub fn vw_modff(a0: f32) -> (f32, f32) { libm::modff(a0) }
#[no_mangle] pub fn vw_modf(a0: f64) -> (f64, f64) { libm::modf(a0) }
#[no_mangle] pub fn vw_frexpf(a0: f32) -> (f32, i32) { libm::frexpf(a0) }
#[no_mangle] pub fn vw_lgammaf_r(a0: f32) -> (f32, i32) { libm::lgammaf_r(a0) }
#[no_mangle] pub fn vw_frexp(a0: f64) -> (f64, i32) { libm::frexp(a0) }
#[no_mangle] pub fn vw_lgamma_r(a0: f64) -> (f64, i32) { libm::lgamma_r(a0) }
#[no_mangle] pub fn vw_remquof(a0: f32, a1: f32) -> (f32, i32) { libm::remquof(a0, a1) }
#[no_mangle] pub fn vw_remquo(a0: f64, a1: f64) -> (f64, i32) { libm::remquo(a0, a1) }
#[no_mangle] pub fn vw_sincosf(a0: f32) -> (f32, f32) { libm::sincosf(a0) }
#[no_mangle] pub fn vw_sincos(a0: f64) -> (f64, f64) { libm::sincos(a0) }

#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_acos__acosf(a0: f32) -> f32 { libm::Libm::<f32>::acos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_acosh__acoshf(a0: f32) -> f32 { libm::Libm::<f32>::acosh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_asin__asinf(a0: f32) -> f32 { libm::Libm::<f32>::asin(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_asinh__asinhf(a0: f32) -> f32 { libm::Libm::<f32>::asinh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_atan__atanf(a0: f32) -> f32 { libm::Libm::<f32>::atan(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_atan2__atan2f(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::atan2(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_atanh__atanhf(a0: f32) -> f32 { libm::Libm::<f32>::atanh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_cbrt__cbrtf(a0: f32) -> f32 { libm::Libm::<f32>::cbrt(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_ceil__ceilf(a0: f32) -> f32 { libm::Libm::<f32>::ceil(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_copysign__copysignf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::copysign(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_cos__cosf(a0: f32) -> f32 { libm::Libm::<f32>::cos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_cosh__coshf(a0: f32) -> f32 { libm::Libm::<f32>::cosh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_erf__erff(a0: f32) -> f32 { libm::Libm::<f32>::erf(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_erfc__erfcf(a0: f32) -> f32 { libm::Libm::<f32>::erfc(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_exp__expf(a0: f32) -> f32 { libm::Libm::<f32>::exp(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_exp10__exp10f(a0: f32) -> f32 { libm::Libm::<f32>::exp10(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_exp2__exp2f(a0: f32) -> f32 { libm::Libm::<f32>::exp2(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_expm1__expm1f(a0: f32) -> f32 { libm::Libm::<f32>::expm1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fabs__fabsf(a0: f32) -> f32 { libm::Libm::<f32>::fabs(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fdim__fdimf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fdim(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_floor__floorf(a0: f32) -> f32 { libm::Libm::<f32>::floor(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fma__fmaf(a0: f32, a1: f32, a2: f32) -> f32 { libm::Libm::<f32>::fma(a0, a1, a2) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fmax__fmaxf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fmax(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fmaximum__fmaximumf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fmaximum(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fmaximum_num__fmaximum_numf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fmaximum_num(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fmin__fminf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fmin(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fminimum__fminimumf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fminimum(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fminimum_num__fminimum_numf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fminimum_num(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_fmod__fmodf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::fmod(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_frexp__frexpf(a0: f32) -> (f32, i32) { libm::Libm::<f32>::frexp(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_hypot__hypotf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::hypot(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_ilogb__ilogbf(a0: f32) -> i32 { libm::Libm::<f32>::ilogb(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_j0__j0f(a0: f32) -> f32 { libm::Libm::<f32>::j0(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_j1__j1f(a0: f32) -> f32 { libm::Libm::<f32>::j1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_jn__jnf(a0: i32, a1: f32) -> f32 { libm::Libm::<f32>::jn(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_ldexp__ldexpf(a0: f32, a1: i32) -> f32 { libm::Libm::<f32>::ldexp(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_lgamma__lgammaf(a0: f32) -> f32 { libm::Libm::<f32>::lgamma(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_lgamma_r__lgammaf_r(a0: f32) -> (f32, i32) { libm::Libm::<f32>::lgamma_r(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_log__logf(a0: f32) -> f32 { libm::Libm::<f32>::log(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_log10__log10f(a0: f32) -> f32 { libm::Libm::<f32>::log10(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_log1p__log1pf(a0: f32) -> f32 { libm::Libm::<f32>::log1p(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_log2__log2f(a0: f32) -> f32 { libm::Libm::<f32>::log2(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_modf__modff(a0: f32) -> (f32, f32) { libm::Libm::<f32>::modf(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_nextafter__nextafterf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::nextafter(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_pow__powf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::pow(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_remainder__remainderf(a0: f32, a1: f32) -> f32 { libm::Libm::<f32>::remainder(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_remquo__remquof(a0: f32, a1: f32) -> (f32, i32) { libm::Libm::<f32>::remquo(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_rint__rintf(a0: f32) -> f32 { libm::Libm::<f32>::rint(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_round__roundf(a0: f32) -> f32 { libm::Libm::<f32>::round(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_roundeven__roundevenf(a0: f32) -> f32 { libm::Libm::<f32>::roundeven(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_scalbn__scalbnf(a0: f32, a1: i32) -> f32 { libm::Libm::<f32>::scalbn(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_sin__sinf(a0: f32) -> f32 { libm::Libm::<f32>::sin(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_sincos__sincosf(a0: f32) -> (f32, f32) { libm::Libm::<f32>::sincos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_sinh__sinhf(a0: f32) -> f32 { libm::Libm::<f32>::sinh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_sqrt__sqrtf(a0: f32) -> f32 { libm::Libm::<f32>::sqrt(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_tan__tanf(a0: f32) -> f32 { libm::Libm::<f32>::tan(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_tanh__tanhf(a0: f32) -> f32 { libm::Libm::<f32>::tanh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_tgamma__tgammaf(a0: f32) -> f32 { libm::Libm::<f32>::tgamma(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_trunc__truncf(a0: f32) -> f32 { libm::Libm::<f32>::trunc(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_y0__y0f(a0: f32) -> f32 { libm::Libm::<f32>::y0(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_y1__y1f(a0: f32) -> f32 { libm::Libm::<f32>::y1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f32_yn__ynf(a0: i32, a1: f32) -> f32 { libm::Libm::<f32>::yn(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_acos__acos(a0: f64) -> f64 { libm::Libm::<f64>::acos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_acosh__acosh(a0: f64) -> f64 { libm::Libm::<f64>::acosh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_asin__asin(a0: f64) -> f64 { libm::Libm::<f64>::asin(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_asinh__asinh(a0: f64) -> f64 { libm::Libm::<f64>::asinh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_atan__atan(a0: f64) -> f64 { libm::Libm::<f64>::atan(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_atan2__atan2(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::atan2(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_atanh__atanh(a0: f64) -> f64 { libm::Libm::<f64>::atanh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_cbrt__cbrt(a0: f64) -> f64 { libm::Libm::<f64>::cbrt(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_ceil__ceil(a0: f64) -> f64 { libm::Libm::<f64>::ceil(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_copysign__copysign(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::copysign(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_cos__cos(a0: f64) -> f64 { libm::Libm::<f64>::cos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_cosh__cosh(a0: f64) -> f64 { libm::Libm::<f64>::cosh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_erf__erf(a0: f64) -> f64 { libm::Libm::<f64>::erf(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_erfc__erfc(a0: f64) -> f64 { libm::Libm::<f64>::erfc(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_exp__exp(a0: f64) -> f64 { libm::Libm::<f64>::exp(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_exp10__exp10(a0: f64) -> f64 { libm::Libm::<f64>::exp10(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_exp2__exp2(a0: f64) -> f64 { libm::Libm::<f64>::exp2(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_expm1__expm1(a0: f64) -> f64 { libm::Libm::<f64>::expm1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fabs__fabs(a0: f64) -> f64 { libm::Libm::<f64>::fabs(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fdim__fdim(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fdim(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_floor__floor(a0: f64) -> f64 { libm::Libm::<f64>::floor(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fma__fma(a0: f64, a1: f64, a2: f64) -> f64 { libm::Libm::<f64>::fma(a0, a1, a2) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmax__fmax(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fmax(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmaximum__fmaximum(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fmaximum(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmaximum_num__fmaximum_num(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fmaximum_num(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmaximum_numf__fmaximum_numf(a0: f32, a1: f32) -> f32 { libm::Libm::<f64>::fmaximum_numf(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmaximumf__fmaximumf(a0: f32, a1: f32) -> f32 { libm::Libm::<f64>::fmaximumf(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmin__fmin(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fmin(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fminimum__fminimum(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fminimum(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fminimum_num__fminimum_num(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fminimum_num(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fminimum_numf__fminimum_numf(a0: f32, a1: f32) -> f32 { libm::Libm::<f64>::fminimum_numf(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fminimumf__fminimumf(a0: f32, a1: f32) -> f32 { libm::Libm::<f64>::fminimumf(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_fmod__fmod(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::fmod(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_frexp__frexp(a0: f64) -> (f64, i32) { libm::Libm::<f64>::frexp(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_hypot__hypot(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::hypot(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_ilogb__ilogb(a0: f64) -> i32 { libm::Libm::<f64>::ilogb(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_j0__j0(a0: f64) -> f64 { libm::Libm::<f64>::j0(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_j1__j1(a0: f64) -> f64 { libm::Libm::<f64>::j1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_jn__jn(a0: i32, a1: f64) -> f64 { libm::Libm::<f64>::jn(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_ldexp__ldexp(a0: f64, a1: i32) -> f64 { libm::Libm::<f64>::ldexp(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_lgamma__lgamma(a0: f64) -> f64 { libm::Libm::<f64>::lgamma(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_lgamma_r__lgamma_r(a0: f64) -> (f64, i32) { libm::Libm::<f64>::lgamma_r(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_log__log(a0: f64) -> f64 { libm::Libm::<f64>::log(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_log10__log10(a0: f64) -> f64 { libm::Libm::<f64>::log10(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_log1p__log1p(a0: f64) -> f64 { libm::Libm::<f64>::log1p(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_log2__log2(a0: f64) -> f64 { libm::Libm::<f64>::log2(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_modf__modf(a0: f64) -> (f64, f64) { libm::Libm::<f64>::modf(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_nextafter__nextafter(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::nextafter(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_pow__pow(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::pow(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_remainder__remainder(a0: f64, a1: f64) -> f64 { libm::Libm::<f64>::remainder(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_remquo__remquo(a0: f64, a1: f64) -> (f64, i32) { libm::Libm::<f64>::remquo(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_rint__rint(a0: f64) -> f64 { libm::Libm::<f64>::rint(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_round__round(a0: f64) -> f64 { libm::Libm::<f64>::round(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_roundevem__roundeven(a0: f64) -> f64 { libm::Libm::<f64>::roundevem(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_roundeven__roundeven(a0: f64) -> f64 { libm::Libm::<f64>::roundeven(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_scalbn__scalbn(a0: f64, a1: i32) -> f64 { libm::Libm::<f64>::scalbn(a0, a1) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_sin__sin(a0: f64) -> f64 { libm::Libm::<f64>::sin(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_sincos__sincos(a0: f64) -> (f64, f64) { libm::Libm::<f64>::sincos(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_sinh__sinh(a0: f64) -> f64 { libm::Libm::<f64>::sinh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_sqrt__sqrt(a0: f64) -> f64 { libm::Libm::<f64>::sqrt(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_tan__tan(a0: f64) -> f64 { libm::Libm::<f64>::tan(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_tanh__tanh(a0: f64) -> f64 { libm::Libm::<f64>::tanh(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_tgamma__tgamma(a0: f64) -> f64 { libm::Libm::<f64>::tgamma(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_trunc__trunc(a0: f64) -> f64 { libm::Libm::<f64>::trunc(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_y0__y0(a0: f64) -> f64 { libm::Libm::<f64>::y0(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_y1__y1(a0: f64) -> f64 { libm::Libm::<f64>::y1(a0) }
#[cfg(all(feature = "methods"))] #[no_mangle] pub fn vl_f64_yn__yn(a0: i32, a1: f64) -> f64 { libm::Libm::<f64>::yn(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_ceil__ceilf16(a0: f16) -> f16 { libm::Libm::<f16>::ceil(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_copysign__copysignf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::copysign(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fabs__fabsf16(a0: f16) -> f16 { libm::Libm::<f16>::fabs(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fdim__fdimf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fdim(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_floor__floorf16(a0: f16) -> f16 { libm::Libm::<f16>::floor(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmax__fmaxf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmax(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmaximum__fmaximumf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmaximum(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmaximum_num__fmaximum_numf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmaximum_num(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmaximumf16__fmaximumf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmaximumf16(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmin__fminf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmin(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fminimum__fminimumf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fminimum(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fminimum_num__fminimum_numf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fminimum_num(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_fmod__fmodf16(a0: f16, a1: f16) -> f16 { libm::Libm::<f16>::fmod(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_ldexp__ldexpf16(a0: f16, a1: i32) -> f16 { libm::Libm::<f16>::ldexp(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_rint__rintf16(a0: f16) -> f16 { libm::Libm::<f16>::rint(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_round__roundf16(a0: f16) -> f16 { libm::Libm::<f16>::round(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_roundeven__roundevenf16(a0: f16) -> f16 { libm::Libm::<f16>::roundeven(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_scalbn__scalbnf16(a0: f16, a1: i32) -> f16 { libm::Libm::<f16>::scalbn(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_sqrt__sqrtf16(a0: f16) -> f16 { libm::Libm::<f16>::sqrt(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_sqrtf__sqrtf16(a0: f16) -> f16 { libm::Libm::<f16>::sqrtf(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_trunc__truncf16(a0: f16) -> f16 { libm::Libm::<f16>::trunc(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f16_truncf__truncf16(a0: f16) -> f16 { libm::Libm::<f16>::truncf(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_ceil__ceilf128(a0: f128) -> f128 { libm::Libm::<f128>::ceil(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_copysign__copysignf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::copysign(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fabs__fabsf128(a0: f128) -> f128 { libm::Libm::<f128>::fabs(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fdim__fdimf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fdim(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_floor__floorf128(a0: f128) -> f128 { libm::Libm::<f128>::floor(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fma__fmaf128(a0: f128, a1: f128, a2: f128) -> f128 { libm::Libm::<f128>::fma(a0, a1, a2) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fmax__fmaxf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fmax(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fmaximum__fmaximumf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fmaximum(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fmaximum_num__fmaximum_numf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fmaximum_num(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fmin__fminf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fmin(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fminimum__fminimumf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fminimum(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fminimum_num__fminimum_numf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fminimum_num(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_fmod__fmodf128(a0: f128, a1: f128) -> f128 { libm::Libm::<f128>::fmod(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_ldexp__ldexpf128(a0: f128, a1: i32) -> f128 { libm::Libm::<f128>::ldexp(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_rint__rintf128(a0: f128) -> f128 { libm::Libm::<f128>::rint(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_round__roundf128(a0: f128) -> f128 { libm::Libm::<f128>::round(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_roundeven__roundevenf128(a0: f128) -> f128 { libm::Libm::<f128>::roundeven(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_scalbn__scalbnf128(a0: f128, a1: i32) -> f128 { libm::Libm::<f128>::scalbn(a0, a1) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_sqrt__sqrtf128(a0: f128) -> f128 { libm::Libm::<f128>::sqrt(a0) }
#[cfg(all(feature = "methods", feature = "x"))] #[no_mangle] pub fn vl_f128_trunc__truncf128(a0: f128) -> f128 { libm::Libm::<f128>::trunc(a0) }
