#pragma once
// C++ counterpart of the lab crate.
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
void lab_a(std::uint32_t tag, std::uint64_t v);
void lab_b(std::uint32_t tag, std::uint64_t v);
std::uint64_t lab_enter(std::uint32_t k);
std::uint64_t lab_next();
void lab_live(std::int64_t d);
void lab_alloc(std::int64_t d);
std::int64_t lab_depth(std::int64_t d);
void lab_keep(void *p, void (*f)(void *));
}

namespace lab {
using u64 = std::uint64_t;

inline u64 mix(u64 h, u64 v) {
  u64 x = (h ^ (v * 0x9E3779B97F4A7C15ull)) * 0xD6E8FEB86659FD93ull;
  return x ^ (x >> 29);
}
inline bool fails(u64 s) { return mix(s, 77) % 3 == 0; }
inline std::size_t len(u64 seed) {
  auto d = lab_depth(0);
  u64 max = d <= 0 ? 4 : d == 1 ? 3 : d == 2 ? 2 : 0;
  return std::size_t(mix(seed, 5) % (max + 1));
}
inline bool null(u64 seed) { return lab_depth(0) > 2 || mix(seed, 6) % 4 == 0; }
struct Depth {
  Depth() { lab_depth(1); }
  ~Depth() { lab_depth(-1); }
};
// Counts the instances of the class containing it.
struct Live {
  u64 *p;
  explicit Live(u64 v) : p(new u64(v)) { lab_live(1); }
  Live(const Live &o) : p(new u64(*o.p)) { lab_live(1); }
  Live &operator=(const Live &o) {
    *p = *o.p;
    return *this;
  }
  ~Live() {
    *p = 0xDEAD;
    lab_live(-1);
    delete p;
  }
  u64 get() const { return *p; }
};
inline u64 digbytes(const void *p, std::size_t n) {
  u64 h = n;
  for (std::size_t i = 0; i < n; ++i)
    h = mix(h, static_cast<const unsigned char *>(p)[i]);
  return h;
}
inline u64 addr(const volatile void *p) { return reinterpret_cast<std::uintptr_t>(p); }
inline std::string text(u64 seed) {
  static const char *const P[] = {"a", "Z", "0", " ", "\n", "\x7f", "\xc3\xbc", "\xc3\x9f", "\xe8\xaa\x9e", "\xf0\x9f\xa6\x80"};
  u64 n = mix(seed, 1) % 4;
  n = n == 0 ? 0 : n == 1 ? mix(seed, 2) % 5 : mix(seed, 2) % 40;
  std::string s;
  for (u64 i = 0; i < n; ++i)
    s += P[mix(seed, 10 + i) % 10];
  return s;
}
struct Error : std::exception {
  std::string s;
  explicit Error(u64 seed) : s(text(mix(seed, 91))) {}
  const char *what() const noexcept override { return s.c_str(); }
  u64 dig() const { return digbytes(s.data(), s.size()); }
};
inline u64 digerr(const ::rust::Error &e) { return digbytes(e.what(), std::strlen(e.what())); }

template <typename T, typename = void> struct M;

template <typename T> T &keep(T *p) {
  lab_keep(p, [](void *q) { delete static_cast<T *>(q); });
  return *p;
}
// Overridden for types which C++ cannot create.
template <typename T, typename = void> struct St {
  static T &stored(u64 seed) { return keep(new T(M<T>::mk(seed))); }
};
template <typename T> T &stored(u64 seed) { return St<typename std::remove_const<T>::type>::stored(seed); }
// Replaces the value of an object.
template <typename T, typename = void> struct Se {
  static void set(T &t, u64 seed) {
    T n(M<T>::mk(seed));
    t.~T();
    new (&t) T(std::move(n));
  }
};
template <typename T> void set(T &t, u64 seed) { Se<T>::set(t, seed); }
template <typename T> void set_slice(::rust::Slice<T> s, u64 seed) {
  u64 i = 0;
  for (T &e : s)
    set(e, mix(seed, i++));
}

template <typename T> struct M<T, typename std::enable_if<std::is_integral<T>::value>::type> {
  static T mk(u64 seed) {
    if (std::is_same<T, bool>::value)
      return T(mix(seed, 2) & 1);
    switch (mix(seed, 1) % 6) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return 0;
    default: return T(mix(seed, 2));
    }
  }
  static u64 dig(const T &t) {
    if (std::is_same<T, bool>::value)
      return mix(3, *reinterpret_cast<const unsigned char *>(&t));
    return mix(3, u64(std::int64_t(t)));
  }
};
template <> struct M<float> {
  static float mk(u64 seed) {
    switch (mix(seed, 1) % 8) {
    case 0: return std::numeric_limits<float>::quiet_NaN();
    case 1: return -0.0f;
    case 2: return std::numeric_limits<float>::infinity();
    case 3: return std::numeric_limits<float>::denorm_min();
    default: return float(std::int64_t(mix(seed, 2))) / 3.0f;
    }
  }
  static u64 dig(const float &t) {
    std::uint32_t b;
    std::memcpy(&b, &t, sizeof b);
    return mix(3, b);
  }
};
template <> struct M<double> {
  static double mk(u64 seed) {
    switch (mix(seed, 1) % 8) {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return -0.0;
    case 2: return -std::numeric_limits<double>::infinity();
    case 3: return std::numeric_limits<double>::denorm_min();
    default: return double(std::int64_t(mix(seed, 2))) / 3.0;
    }
  }
  static u64 dig(const double &t) {
    u64 b;
    std::memcpy(&b, &t, sizeof b);
    return mix(3, b);
  }
};
template <typename T> struct M<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  using U = typename std::underlying_type<T>::type;
  static T mk(u64 seed) { return static_cast<T>(M<U>::mk(seed)); }
  static u64 dig(const T &t) { return M<U>::dig(static_cast<U>(t)); }
};
template <> struct M<::rust::String> {
  static ::rust::String mk(u64 seed) { return text(seed); }
  static u64 dig(const ::rust::String &t) { return digbytes(t.data(), t.size()); }
};
template <> struct M<std::string> {
  static std::string mk(u64 seed) {
    std::string s = text(seed);
    if (mix(seed, 9) % 4 == 0)
      s += std::string("\0\xff\x80", 3);
    return s;
  }
  static u64 dig(const std::string &t) { return digbytes(t.data(), t.size()); }
};
template <> struct M<::rust::Str> {
  static ::rust::Str mk(u64 seed) { return ::rust::Str(stored<std::string>(0)=text(seed)); }
  static u64 dig(const ::rust::Str &t) { return mix(t.empty() ? 0 : addr(t.data()), digbytes(t.data(), t.size())); }
};
template <typename T> struct M<::rust::Box<T>> {
  static ::rust::Box<T> mk(u64 seed) { return ::rust::Box<T>(M<T>::mk(mix(seed, 7))); }
  static u64 dig(const ::rust::Box<T> &t) { return mix(addr(&*t), M<T>::dig(*t)); }
};
template <typename C> u64 dig_range(const C &c) {
  u64 h = mix(c.size(), c.empty() ? 0 : addr(&*c.begin()));
  for (const auto &e : c)
    h = mix(h, M<typename std::remove_cv<typename std::remove_reference<decltype(e)>::type>::type>::dig(e));
  return h;
}
template <typename T> struct M<::rust::Vec<T>> {
  static ::rust::Vec<T> mk(u64 seed) {
    ::rust::Vec<T> v;
    v.reserve(mix(seed, 4) % 4);
    std::size_t n = len(seed);
    for (std::size_t i = 0; i < n; ++i)
      v.push_back(M<T>::mk(mix(seed, 40 + i)));
    return v;
  }
  static u64 dig(const ::rust::Vec<T> &t) { return dig_range(t); }
};
template <typename T> struct M<std::unique_ptr<T>> {
  static std::unique_ptr<T> mk(u64 seed) { return null(seed) ? nullptr : std::unique_ptr<T>(new T(M<T>::mk(mix(seed, 7)))); }
  static u64 dig(const std::unique_ptr<T> &t) { return t ? mix(addr(t.get()), M<T>::dig(*t)) : 9; }
};
template <typename T> struct M<std::shared_ptr<T>> {
  static std::shared_ptr<T> mk(u64 seed) { return null(seed) ? nullptr : std::shared_ptr<T>(new T(M<T>::mk(mix(seed, 7)))); }
  static u64 dig(const std::shared_ptr<T> &t) { return t ? mix(addr(t.get()), M<T>::dig(*t)) : 9; }
};
template <typename T> struct M<std::weak_ptr<T>> {
  static std::weak_ptr<T> mk(u64 seed) {
    switch (mix(seed, 8) % 4) {
    case 0: return {};
    case 1: return M<std::shared_ptr<T>>::mk(seed);
    default: return stored<std::shared_ptr<T>>(seed);
    }
  }
  static u64 dig(const std::weak_ptr<T> &t) { return M<std::shared_ptr<T>>::dig(t.lock()); }
};
template <typename T> struct M<std::vector<T>> {
  static std::vector<T> mk(u64 seed) {
    std::vector<T> v;
    std::size_t n = len(seed);
    for (std::size_t i = 0; i < n; ++i)
      v.push_back(M<T>::mk(mix(seed, 40 + i)));
    return v;
  }
  static u64 dig(const std::vector<T> &t) { return dig_range(t); }
};
template <typename T, std::size_t N> struct M<std::array<T, N>> {
  template <std::size_t... I> static std::array<T, N> go(u64 seed, std::index_sequence<I...>) { return {{M<T>::mk(mix(seed, 40 + I))...}}; }
  static std::array<T, N> mk(u64 seed) { return go(seed, std::make_index_sequence<N>()); }
  static u64 dig(const std::array<T, N> &t) {
    u64 h = N;
    for (const T &e : t)
      h = mix(h, M<T>::dig(e));
    return h;
  }
};
// Memory of n elements, kept until the end of the drive.
template <typename T> struct Buf {
  T *p;
  std::size_t n;
  Buf(u64 seed) : p(static_cast<T *>(::operator new(sizeof(T) * 5, std::align_val_t(alignof(T))))), n(len(seed)) {
    for (std::size_t i = 0; i < n; ++i)
      new (p + i) T(M<T>::mk(mix(seed, 40 + i)));
  }
  Buf(const Buf &) = delete;
  ~Buf() {
    for (std::size_t i = 0; i < n; ++i)
      p[i].~T();
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
};
template <typename T, typename = void> struct Sl {
  static ::rust::Slice<T> mk(u64 seed) {
    using U = typename std::remove_const<T>::type;
    Buf<U> &b = keep(new Buf<U>(seed));
    if (b.n == 0 && mix(seed, 11) % 2 == 0)
      return ::rust::Slice<T>();
    return ::rust::Slice<T>(b.p, b.n);
  }
};
template <typename T> struct M<::rust::Slice<T>> {
  static ::rust::Slice<T> mk(u64 seed) { return Sl<T>::mk(seed); }
  static u64 dig(const ::rust::Slice<T> &t) { return dig_range(t); }
};
template <typename T> struct M<T &> {
  static T &mk(u64 seed) { return stored<T>(seed); }
  static u64 dig(T &t) { return mix(addr(&t), M<typename std::remove_const<T>::type>::dig(t)); }
};
template <typename T> struct M<T *> {
  static T *mk(u64 seed) { return reinterpret_cast<T *>(std::uintptr_t(mix(seed, 3) & (mix(seed, 4) % 3 == 0 ? 0 : ~u64(15)))); }
  static u64 dig(T *const &t) { return addr(t); }
};
} // namespace lab
