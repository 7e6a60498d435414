#pragma once
#include "rt/cpp/track.h"
#include <exception>
namespace lab {
struct Node; struct Pack; struct Pair; enum class Hue : std::int16_t; struct Cmp; struct Holder;
struct R; struct Txt; struct Bomb;

void cpp_frame0(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
rust::String cpp_frame1(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
rust::Box<Txt> cpp_frame2(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
std::unique_ptr<std::string> cpp_frame3(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
std::uint64_t cpp_frame4(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
Pack cpp_frame5(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
rust::Vec<rust::String> cpp_frame6(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
rust::Str cpp_frame7(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
std::shared_ptr<Obj> cpp_frame8(std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u);
std::unique_ptr<Obj> new_obj(std::uint64_t id);
std::shared_ptr<Obj> share_obj(std::unique_ptr<Obj> u);

class ErrLab {
public:
  int op(std::uint32_t op, std::size_t i, std::size_t j, rust::Str msg);
  std::unique_ptr<std::string> what(std::size_t i) const;
private:
  std::vector<rust::Error> errs;
  std::vector<std::exception_ptr> ptrs;
};
std::unique_ptr<ErrLab> new_errlab();
void cpp_throw(std::uint32_t kind, rust::Slice<const std::uint8_t> msg);
std::unique_ptr<std::string> cpp_see(rust::Str msg, std::uint32_t kind);

void set_flag(std::uint64_t *p);
void panic_call(std::uint32_t shape, std::uint32_t mode, std::uint32_t depth);
void enter_then_leave(std::uint32_t shape, std::uint32_t mode, std::uint32_t depth);

void call_fn0(rust::Fn<void(std::uint32_t)> f, std::uint32_t mode);
void call_fn1(rust::Fn<rust::String(std::uint32_t)> f, std::uint32_t mode);
void call_fn2(rust::Fn<Pack(std::uint32_t)> f, std::uint32_t mode);
void call_fn3(rust::Fn<void(std::uint32_t, rust::Box<Bomb>)> f, std::uint32_t mode);

class FnLab {
public:
  std::size_t len(std::uint32_t sig) const;
  void op(std::uint32_t sig, std::uint32_t op, std::size_t i, std::size_t j);
#define LAB_FN(name, R_, ...) \
  void put_##name(rust::Fn<R_(__VA_ARGS__)> f) { name.push_back(f); } \
  std::vector<rust::Fn<R_(__VA_ARGS__)>> name;
  LAB_FN(u, std::uint64_t, std::uint64_t)
  LAB_FN(s, rust::String, rust::Str)
  LAB_FN(b, rust::Box<R>, rust::Box<R>)
  LAB_FN(p, Pack, Pack)
  LAB_FN(o, std::unique_ptr<Obj>, std::unique_ptr<Obj>)
  LAB_FN(m, void, std::uint64_t &, std::int8_t, double, bool)
  LAB_FN(v, rust::Vec<rust::String>, rust::Vec<rust::String>, rust::Slice<const std::uint8_t>)
  LAB_FN(t, Tr, Tr)
  LAB_FN(w, void, rust::String)
  LAB_FN(z, std::uint8_t)
  LAB_FN(l, std::uint64_t, const FnLab &, std::uint64_t)
  LAB_FN(r, const Obj &, const Obj &)
  LAB_FN(h, std::shared_ptr<Obj>, std::shared_ptr<Obj>)
  LAB_FN(i, std::ptrdiff_t, Obj &, rust::String &, rust::Vec<std::uint8_t> &, rust::Slice<std::uint16_t>)
  LAB_FN(n, float, bool, std::int8_t, std::uint16_t, float, std::int64_t, std::size_t, rust::Str, std::uint8_t, double, std::int32_t, rust::Slice<const std::uint32_t>)
  LAB_FN(x, std::unique_ptr<std::string>, const std::string &, std::unique_ptr<std::vector<std::uint64_t>>)
  LAB_FN(e, Hue, Hue, const std::uint64_t &, Pair)
  LAB_FN(k, rust::Vec<Pack>, rust::Vec<Pack>, Pack, std::uint8_t)
  LAB_FN(y, rust::Str, const Pack &, std::uint8_t)
  LAB_FN(q, rust::String &, Pack &)
  LAB_FN(g, Pair, Pair, rust::String, Pair)
  void put_res(rust::Fn<std::uint64_t(std::uint64_t)> f, bool fail);
  void put_two(rust::Fn<std::uint64_t(std::uint64_t)> f, rust::Fn<std::uint64_t(std::uint64_t)> g) { u.push_back(f); u.push_back(g); }
  std::uint64_t call_u(std::size_t i, std::uint64_t x) const { return u[i](x); }
  rust::String call_s(std::size_t i, rust::Str x) const { return s[i](x); }
  rust::Box<R> call_b(std::size_t i, rust::Box<R> x) const { return b[i](std::move(x)); }
  Pack call_p(std::size_t i, Pack x) const;
  std::unique_ptr<Obj> call_o(std::size_t i, std::unique_ptr<Obj> x) const { return o[i](std::move(x)); }
  void call_m(std::size_t i, std::uint64_t &a, std::int8_t b, double c, bool d) const { m[i](a, b, c, d); }
  rust::Vec<rust::String> call_v(std::size_t i, rust::Vec<rust::String> x, rust::Slice<const std::uint8_t> y) const { return v[i](std::move(x), y); }
  Tr call_t(std::size_t i, Tr x) const { return t[i](std::move(x)); }
  void call_w(std::size_t i, rust::String x) const { w[i](std::move(x)); }
  std::uint8_t call_z(std::size_t i) const { return z[i](); }
  std::uint64_t call_l(std::size_t i, std::uint64_t x) const { return l[i](*this, x); }
  std::shared_ptr<Obj> call_h(std::size_t j, std::shared_ptr<Obj> a) const { return h[j](std::move(a)); }
  std::ptrdiff_t call_i(std::size_t j, Obj &a, rust::String &b, rust::Vec<std::uint8_t> &c, rust::Slice<std::uint16_t> d) const { return i[j](a, b, c, d); }
  float call_n(std::size_t j, bool a, std::int8_t b, std::uint16_t c, float d, std::int64_t e, std::size_t f, rust::Str g, std::uint8_t h, double k, std::int32_t l, rust::Slice<const std::uint32_t> m) const { return n[j](a, b, c, d, e, f, g, h, k, l, m); }
  std::unique_ptr<std::string> call_x(std::size_t j, const std::string &a, std::unique_ptr<std::vector<std::uint64_t>> b) const { return x[j](a, std::move(b)); }
  Hue call_e(std::size_t j, Hue a, const std::uint64_t &b, Pair c) const;
  rust::Vec<Pack> call_k(std::size_t j, rust::Vec<Pack> a, Pack b, std::uint8_t c) const;
  rust::Str call_y(std::size_t j, const Pack &a, std::uint8_t b) const { return y[j](a, b); }
  rust::String &call_q(std::size_t j, Pack &a) const { return q[j](a); }
  Pair call_g(std::size_t j, Pair a, rust::String b, Pair c) const;
  bool call_r(std::size_t i, const Obj &x) const { return &r[i](x) == &x; }
};
std::unique_ptr<FnLab> new_fnlab();
inline std::unique_ptr<std::string> new_text(rust::Slice<const std::uint8_t> s) { return std::make_unique<std::string>(reinterpret_cast<const char *>(s.data()), s.size()); }
inline std::unique_ptr<std::vector<std::uint64_t>> new_u64s() { return std::make_unique<std::vector<std::uint64_t>>(); }
std::uint64_t apply(rust::Fn<std::uint64_t(std::uint64_t)> f, rust::Fn<std::uint64_t(std::uint64_t)> g, std::uint64_t x, std::uint32_t order);
} // namespace lab
