#include "rt/src/ptrs_ffi.rs.h"
namespace lab {
// value <-> payload: (v << 8 | bumps)
template <typename T> struct Pay {
  static T *make(std::uint64_t v) { return new T(static_cast<T>(v)); }
  static std::uint64_t get(const T &t) { return static_cast<std::uint64_t>(t); }
};
template <> struct Pay<Obj> {
  static Obj *make(std::uint64_t v) { return new Obj(v); }
  static std::uint64_t get(const Obj &o) { return o.id() << 8 | o.hits(); }
  static void bump(Obj &o) { o.hit(); }
};
template <> struct Pay<PS> {
  static PS fill(std::uint64_t v) { return PS{v << 8, rust::String(std::to_string(v) + " payload of a certain length"), 7}; }
  static PS *make(std::uint64_t v) { return new PS(fill(v)); }
  static std::uint64_t get(const PS &p) { return std::string(p.b) == std::to_string(p.a >> 8) + " payload of a certain length" && p.pad == 7 ? p.a : ~0ull; }
  static void bump(PS &p) { p.a++; }
};
template <> struct Pay<std::string> {
  static std::string *make(std::uint64_t v) { return new std::string(std::to_string(v << 8)); }
  static std::uint64_t get(const std::string &s) { return std::stoull(s); }
  static void bump(std::string &s) { s = std::to_string(std::stoull(s) + 1); }
};
template <> struct Pay<std::vector<std::uint64_t>> {
  static std::vector<std::uint64_t> *make(std::uint64_t v) { return new std::vector<std::uint64_t>(3, v << 8); }
  static std::uint64_t get(const std::vector<std::uint64_t> &x) { return x.at(2); }
  static void bump(std::vector<std::uint64_t> &x) { x.at(2)++; x.push_back(1); }
};
template <> struct Pay<std::vector<PS>> {
  static std::vector<PS> *make(std::uint64_t v) { auto *x = new std::vector<PS>(); x->push_back(Pay<PS>::fill(v)); x->push_back(Pay<PS>::fill(v)); return x; }
  static std::uint64_t get(const std::vector<PS> &x) { return Pay<PS>::get(x.at(0)); }
  static void bump(std::vector<PS> &x) { Pay<PS>::bump(x.at(0)); x.push_back(Pay<PS>::fill(1)); }
};
template <> struct Pay<std::vector<std::string>> {
  static std::vector<std::string> *make(std::uint64_t v) { return new std::vector<std::string>{std::to_string(v << 8), "another string which is heap-allocated"}; }
  static std::uint64_t get(const std::vector<std::string> &x) { return std::stoull(x.at(0)); }
  static void bump(std::vector<std::string> &x) { Pay<std::string>::bump(x.at(0)); x.push_back("x"); }
};
template <typename T> std::unique_ptr<T> ULab<T>::make(std::uint64_t v) { return std::unique_ptr<T>(Pay<T>::make(v)); }
template <typename T> T *ULab<T>::raw(std::uint64_t v) { return Pay<T>::make(v); }
template <typename T> std::uint64_t ULab<T>::id(std::size_t i) const { return slots[i] ? Pay<T>::get(*slots[i]) : 0; }
template <typename T> std::uint64_t ULab<T>::id_of(const T &v) const { return Pay<T>::get(v); }
template <typename T> void ULab<T>::bump_of(T &v) { Pay<T>::bump(v); }
template <typename T> void ULab<T>::meddle(std::unique_ptr<T> &p, std::uint32_t kind, std::uint64_t v) {
  switch (kind) {
  case 0: p.reset(); break;
  case 1: p.reset(Pay<T>::make(v)); break;
  case 2: delete p.release(); break;
  case 3: { std::unique_ptr<T> t = std::move(p); p = std::move(t); } break;
  case 4: std::swap(p, slots[0]); break;
  case 5: p = URust<T>::round(std::move(p)); break;
  }
}
template <typename T> std::unique_ptr<T> ULab<T>::pass(std::unique_ptr<T> p, std::uint32_t kind) {
  if (kind == 1) throw std::runtime_error("rejected");
  if (kind == 2) { slots[1] = std::move(p); return std::move(slots[1]); }
  return p;
}
template <typename T, int N> std::shared_ptr<T> SLab<T, N>::make(std::uint64_t v) { if constexpr (std::is_same_v<T, std::string>) return std::make_shared<std::string>(std::to_string(v << 8)); else return std::shared_ptr<T>(Pay<T>::make(v)); }

template <typename T, int N> std::uint64_t SLab<T, N>::val(const T &v) const { return Pay<T>::get(v); }
template <typename T, int N> void SLab<T, N>::op(std::uint32_t op, std::size_t i, std::size_t j) {
  switch (op) {
  case 0: slots[i].reset(); break;
  case 1: weak[i].reset(); break;
  case 2: if (i != j) slots[i] = slots[j]; break;
  case 3: if (i != j) weak[i] = weak[j]; break;
  case 4: weak[i] = slots[j]; break;
  case 5: slots[i] = weak[j].lock(); break;
  case 6: std::swap(slots[i], slots[j]); break;
  case 7: weak[i].swap(weak[j]); break;
  case 8: { auto t = SRust<T, N>::round(slots[j]); slots[i] = t; } break;
  case 9: weak[i] = SRust<T, N>::down(slots[j]); break;
  case 10: slots[i] = SRust<T, N>::up(weak[j]); break;
  case 11: { auto t = SRust<T, N>::up(std::move(weak[j])); weak[j].reset(); slots[i] = std::move(t); } break;
  }
}
} // namespace lab
