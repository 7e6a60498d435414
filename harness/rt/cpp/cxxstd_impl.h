#include "rt/src/cxxstd_ffi.rs.h"
namespace lab {
template <typename T> struct Pay {
  static T make(std::uint64_t v) { return static_cast<T>(v); }
  static std::uint64_t get(const T &t) { return static_cast<std::uint64_t>(t); }
};
template <> struct Pay<std::string> {
  static std::string make(std::uint64_t v) { return std::to_string(v) + (v % 2 ? "" : " and a tail which does not fit inline"); }
  static std::uint64_t get(const std::string &s) { return std::stoull(s); }
};
template <> struct Pay<P3> {
  static P3 make(std::uint64_t v) { return P3{std::uint8_t(v), std::uint8_t(v >> 8), std::uint8_t(v >> 16)}; }
  static std::uint64_t get(const P3 &p) { return p.a | p.b << 8 | std::uint64_t(p.c) << 16; }
};
template <> struct Pay<P72> {
  static P72 make(std::uint64_t v) { return P72{v, {{v, v, v, v, v, v, v}}, std::uint8_t(v)}; }
  static std::uint64_t get(const P72 &p) { return p.b[6] == p.a && p.c == std::uint8_t(p.a) ? p.a : ~0ull; }
};
template <> struct Pay<VS> {
  static VS make(std::uint64_t v) { return VS{v, rust::String(std::to_string(v)), rust::Vec<std::uint16_t>{std::uint16_t(v), 2}}; }
  static std::uint64_t get(const VS &p) { return std::string(p.name) == std::to_string(p.a) && p.v.size() == 2 && p.v[0] == std::uint16_t(p.a) ? p.a : ~0ull; }
};
template <> struct Pay<En> {
  static En make(std::uint64_t v) { return static_cast<En>(v & 3); }
  static std::uint64_t get(const En &e) { return static_cast<std::uint64_t>(e); }
};
template <> struct Pay<Tr> {
  static Tr make(std::uint64_t v) { return Tr(v); }
  static std::uint64_t get(const Tr &t) { return tr_value(t); }
};
template <typename T> struct PayObj {
  static T make(std::uint64_t v) { return T(v); }
  static std::uint64_t get(const T &t) { return t.get(); }
};
template <> struct Pay<It> : PayObj<It> {};
template <> struct Pay<Odd> : PayObj<Odd> {};
template <> struct Pay<Big> : PayObj<Big> {};
template <typename T, int N> void CLab<T, N>::op(std::uint32_t op, std::vector<T> &v, std::size_t n, std::uint64_t val) {
  switch (op) {
  case 0: v.push_back(Pay<T>::make(val)); break;
  case 1: v.pop_back(); break;
  case 2: if constexpr (std::is_move_assignable<T>::value) v.insert(v.begin() + n, Pay<T>::make(val)); break;
  case 3: if constexpr (std::is_move_assignable<T>::value) v.erase(v.begin() + n); break;
  case 4: v.reserve(n); break;
  case 5: v.clear(); break;
  case 6: v.shrink_to_fit(); break;
  case 7: v.swap(mine); break;
  case 8: { std::vector<T> w; w.swap(v); v = std::move(w); } break;
  }
}
template <typename T, int N> rust::Vec<std::uint64_t> CLab<T, N>::ids(const std::vector<T> &v) const {
  rust::Vec<std::uint64_t> out;
  for (const T &t : v) out.push_back(Pay<T>::get(t));
  return out;
}
} // namespace lab
