#pragma once
#include "core.h"
struct Fn1;
std::vector<const char *> configs();
void acc32(const std::string &op, const Fn1 &f, bool slow_tail = false);
void acc64(const std::string &op, const Fn1 &f, int k1 = 9, int k2 = 16);
void dense64(const std::string &op, const Fn1 &f, int k1, int k2, std::function<void(const Dom<u64> &, const char *)> chk);
Dom<u64> alpha_dom64();
const Dom<u64> &delta_dom64();
void group(std::initializer_list<const char *> bases, bool f32, bool f64, int k1 = 9, int k2 = 16);
void c_sqrt(); void c_fma(); void c_round(); void c_rem(); void c_minmax(); void c_sign(); void c_fdim(); void c_scale(); void c_next();
void c_cbrt_hypot(); void c_trig32(); void c_trig64(); void c_itrig(); void c_exp(); void c_log(); void c_pow(); void c_hyp(); void c_erf(); void c_gamma(); void c_bessel();
void c_special(); void c_identity(); void c_total(); void c_pure(); void c_config();
typedef std::function<void(size_t, const void *, const void *, const void *)> Sink;
template <class B> u64 hard_exact(const std::string &base, int lvl, const Sink &sink);
u64 hard_acc64(const std::string &base, int lvl, const Sink &sink);
