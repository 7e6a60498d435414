#pragma once
#include "rt/cpp/vecs.h"
#include "rt/src/vecs_ffi.rs.h"
#include <algorithm>
#include <array>
#include <ranges>
#include <iterator>
#include <string>

namespace lab {
template <typename T> struct RustSide;

template <typename T> struct El {
  static T mk(std::uint64_t v) { return static_cast<T>(v); }
  static std::uint64_t id(const T &t) { return static_cast<std::uint64_t>(t); }
};
template <> struct El<float> {
  static float mk(std::uint64_t v) { return static_cast<float>(v & 0xffffff) + 0.5f; }
  static std::uint64_t id(const float &t) { return static_cast<std::uint64_t>(t); }
};
template <> struct El<double> {
  static double mk(std::uint64_t v) { return static_cast<double>(v & 0xffffffffffff) + 0.5; }
  static std::uint64_t id(const double &t) { return static_cast<std::uint64_t>(t); }
};
template <> struct El<bool> {
  static bool mk(std::uint64_t v) { return v & 1; }
  static std::uint64_t id(const bool &t) { return t; }
};
template <> struct El<rust::String> {
  static rust::String mk(std::uint64_t v) { return rust::String("s" + std::to_string(v)); }
  static std::uint64_t id(const rust::String &t) { return t.size() < 2 ? ~0ull : std::stoull(std::string(t).substr(1)); }
};
template <> struct El<Pod> {
  static Pod mk(std::uint64_t v) { return Pod{std::uint8_t(v), std::uint32_t(v), std::uint16_t(v >> 32)}; }
  static std::uint64_t id(const Pod &p) { return p.a == std::uint8_t(p.b) ? (std::uint64_t(p.c) << 32 | p.b) : ~0ull; }
};
template <> struct El<Elem> {
  static Elem mk(std::uint64_t v) {
    Elem e{v, rust::String("name " + std::to_string(v)), {}};
    for (std::uint64_t k = 0; k < v % 4; ++k) e.more.push_back(std::uint16_t(v + k));
    return e;
  }
  static std::uint64_t id(const Elem &e) {
    if (std::string(e.name) != "name " + std::to_string(e.id)) return ~0ull;
    if (e.more.size() != e.id % 4) return ~1ull;
    for (std::uint64_t k = 0; k < e.more.size(); ++k)
      if (e.more[k] != std::uint16_t(e.id + k)) return ~2ull;
    return e.id;
  }
};
template <> struct El<Th> {
  static Th mk(std::uint64_t v) { return Th{v, Thrower(v)}; }
  static std::uint64_t id(const Th &t) { return t.t.owned && *t.t.owned == t.id ? t.id : ~0ull; }
};

// Runs a program of iterator steps over a span view and compares every read
// with a plain pointer walk over `expect`.
template <typename Range, typename Id>
std::string walk(const Range &r, const std::vector<std::uint64_t> &expect, rust::Slice<const std::uint8_t> prog, Id id) {
  auto b = r.begin();
  auto e = r.end();
  using It = decltype(b);
  std::ptrdiff_t n = static_cast<std::ptrdiff_t>(expect.size());
  if (e - b != n) return "end() - begin() is " + std::to_string(e - b) + " for " + std::to_string(n) + " elements";
  It it = b, it2 = e;
  std::ptrdiff_t p = 0, p2 = n;
  for (std::size_t k = 0; k + 1 < prog.size(); k += 2) {
    std::uint8_t c = prog[k] % 16, a = prog[k + 1];
    std::ptrdiff_t room = n - p;
    switch (c) {
    case 0: if (p < n) { ++it; ++p; } break;
    case 1: if (p < n) { auto old = it++; if (!(old == b + p)) return "post-increment returned the wrong position"; ++p; } break;
    case 2: if (p > 0) { --it; --p; } break;
    case 3: if (p > 0) { auto old = it--; if (!(old == b + p)) return "post-decrement returned the wrong position"; --p; } break;
    case 4: { std::ptrdiff_t d = room ? a % (room + 1) : 0; it += d; p += d; } break;
    case 5: { std::ptrdiff_t d = a % (p + 1); it -= d; p -= d; } break;
    case 6: { std::ptrdiff_t d = room ? a % (room + 1) : 0; it = it + d; p += d; } break;
    case 7: { std::ptrdiff_t d = a % (p + 1); it = it - d; p -= d; } break;
    case 8: { std::ptrdiff_t d = room ? a % (room + 1) : 0; it = d + it; p += d; } break;
    case 9: std::swap(it, it2); std::swap(p, p2); break;
    case 10: { std::ptrdiff_t d = a % (p + 1); it += -d; p -= d; } break;
    case 11: it2 = it; p2 = p; break;
    default: break;
    }
    if (it - b != p || b - it != -p || e - it != n - p) return "iterator difference wrong at position " + std::to_string(p);
    if (it2 - it != p2 - p) return "iterator difference between two positions wrong";
    if ((it == it2) != (p == p2) || (it != it2) != (p != p2) || (it < it2) != (p < p2) || (it <= it2) != (p <= p2) ||
        (it > it2) != (p > p2) || (it >= it2) != (p >= p2))
      return "iterator comparison wrong";
    if (p < n) {
      if (id(*it) != expect[p]) return "dereference at " + std::to_string(p) + " gave another element";
      if (id(*it.operator->()) != expect[p]) return "operator-> at " + std::to_string(p) + " gave another element";
      std::ptrdiff_t q = a % n;
      if (id(it[q - p]) != expect[q]) return "iterator index gave another element";
      if (id(b[q]) != expect[q]) return "begin()[q] gave another element";
    }
  }
  std::ptrdiff_t q = 0;
  for (auto &x : r) {
    if (q >= n || id(x) != expect[q]) return "range-for visits another element at " + std::to_string(q);
    ++q;
  }
  if (q != n) return "range-for visits too few elements";
  return "";
}

template <typename S, typename Id>
std::string span_checks(const S &s, const std::vector<std::uint64_t> &expect, Id id) {
  if (s.size() != expect.size()) return "size() is " + std::to_string(s.size());
  if (s.empty() != expect.empty()) return "empty() wrong";
  for (std::size_t k = 0; k < expect.size(); ++k) {
    if (id(s[k]) != expect[k]) return "operator[] wrong at " + std::to_string(k);
    if (id(s.at(k)) != expect[k]) return "at() wrong at " + std::to_string(k);
    if (&s.at(k) != &s[k]) return "at() and operator[] differ at " + std::to_string(k);
  }
  if (!expect.empty()) {
    if (&s.front() != &s[0] || &s.back() != &s[expect.size() - 1]) return "front()/back() wrong";
    if (static_cast<const void *>(&s[0]) != static_cast<const void *>(s.data())) return "data() is not the first element";
  }
  for (std::size_t k : {expect.size(), expect.size() + 1, ~std::size_t(0), std::size_t(1) << 63}) {
    if (guard([&] { (void)s.at(k); }) != OUT_OF_RANGE) return "at(" + std::to_string(k) + ") did not throw out_of_range";
  }
  return "";
}

template <typename T> void VLab<T>::put(std::size_t i, rust::Vec<T> v) { slots[i] = std::make_unique<rust::Vec<T>>(std::move(v)); }
template <typename T> rust::Vec<T> VLab<T>::take(std::size_t i) { return std::move(*slots[i]); }
template <typename T> rust::Slice<const T> VLab<T>::slice(std::size_t i, std::size_t from, std::size_t to) const {
  const rust::Vec<T> &v = *slots[i];
  switch ((from + to) % 4) {
  case 0: return rust::Slice<const T>(v.data() + from, to - from);
  case 1: return RustSide<T>::sub(rust::Slice<const T>(v), from, to);
  case 2: { rust::Slice<const T> s(v.data() + from, to - from), t; t = s; return t; }
  default: if (from == to) return rust::Slice<const T>(); return rust::Slice<const T>(&v[from], to - from);
  }
}
template <typename T> rust::Slice<T> VLab<T>::slice_mut(std::size_t i, std::size_t from, std::size_t to) {
  rust::Vec<T> &v = *slots[i];
  if (from == 0 && to == v.size()) return rust::Slice<T>(v);
  if (from == to) return rust::Slice<T>(nullptr, 0);
  rust::Slice<T> s(v.data() + from, to - from);
  rust::Slice<T> t;
  t = std::move(s);
  return t;
}
template <typename T> void VLab<T>::scribble(rust::Slice<T> s, std::uint64_t base) {
  if (base % 3 == 0) { RustSide<T>::scribble(s, base); return; }
  std::size_t k = 0;
  if (base % 3 == 1) { for (T &t : s) t = El<T>::mk(base + k++); return; }
  for (; k < s.size(); ++k) s[k] = El<T>::mk(base + k);
}

template <typename T> rust::Vec<std::uint64_t> VLab<T>::ids(std::size_t i) const {
  const rust::Vec<T> &v = *slots[i];
  rust::Vec<std::uint64_t> out;
  out.reserve(v.size());
  for (std::size_t k = 0; k < v.size(); ++k) out.push_back(El<T>::id(v[k]));
  return out;
}

template <typename T> rust::String VLab<T>::probe(rust::Slice<const T> s, rust::Slice<const std::uint8_t> prog) const {
  auto r = RustSide<T>::ids(s);
  std::vector<std::uint64_t> expect(r.begin(), r.end());
  std::string m = span_checks(s, expect, El<T>::id);
  if (!m.empty()) return m;
  if (s.length() != s.size()) return "length() != size()";
  static_assert(std::ranges::contiguous_range<rust::Slice<const T>>);
  static_assert(std::random_access_iterator<typename rust::Slice<T>::iterator>);
  m = walk(s, expect, prog, El<T>::id);
  if (!m.empty()) return m;
  // swap and copies
  rust::Slice<const T> a(s), b;
  if (!b.empty() || b.begin() != b.end()) return "default Slice not empty";
  a.swap(b);
  if (!a.empty() || b.size() != s.size() || b.data() != s.data()) return "swap() lost the view";
  return "";
}

template <typename T> rust::String VLab<T>::observe(std::size_t i) const {
  const rust::Vec<T> &v = *slots[i];
  auto r = RustSide<T>::ids(rust::Slice<const T>(v.data(), v.size()));
  std::vector<std::uint64_t> expect(r.begin(), r.end());
  std::string m = span_checks(v, expect, El<T>::id);
  if (!m.empty()) return m;
  if (v.capacity() < v.size()) return "capacity() < size()";
  rust::Vec<T> &mv = const_cast<rust::Vec<T> &>(v);
  m = span_checks(mv, expect, El<T>::id);
  if (!m.empty()) return "mutable: " + m;
  std::uint8_t prog[] = {0, 1, 4, 7, 5, 2, 1, 1, 9, 0, 7, 1, 3, 3, 10, 2, 8, 5};
  rust::Slice<const std::uint8_t> p(prog, sizeof prog);
  m = walk(v, expect, p, El<T>::id);
  if (!m.empty()) return "const iteration: " + m;
  m = walk(mv, expect, p, El<T>::id);
  if (!m.empty()) return "mutable iteration: " + m;
  if (v.cbegin() != v.begin() || v.cend() != v.end()) return "cbegin()/cend() differ";
  return "";
}

#define NEED(c) do { if (!(c)) { bad = BAD; return; } } while (0)
template <typename T> int VLab<T>::op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n, std::uint64_t val) {
  using V = rust::Vec<T>;
  auto mk = El<T>::mk;
  int bad = OK;
  constexpr bool copyable = true;
  int rc = guard([&] {
    switch (op) {
    case 0: slots[i].reset(new V()); NEED(slots[i]->empty() && slots[i]->size() == 0); break;
    case 1: { auto v = new V{mk(val), mk(val + 1), mk(val + 2)}; slots[i].reset(v); } break;
    case 2: { auto v = new V(static_cast<const V &>(*slots[j])); slots[i].reset(v); } break;
    case 3: { auto v = new V(std::move(*slots[j])); slots[i].reset(v); } break;
    case 4: { V &r = (*slots[i] = static_cast<const V &>(*slots[j])); NEED(&r == slots[i].get()); } break;
    case 5: { V &r = (*slots[i] = std::move(*slots[j])); NEED(&r == slots[i].get()); } break;
    case 6: slots[i]->swap(*slots[j]); break;
    case 7: { using std::swap; swap(*slots[i], *slots[j]); } break;
    case 8: { const T t = mk(val); slots[i]->push_back(t); } break;
    case 9: slots[i]->push_back(mk(val)); break;
    case 10: slots[i]->emplace_back(mk(val)); break;
    case 11: slots[i]->reserve(n); NEED(slots[i]->capacity() >= n && slots[i]->capacity() >= slots[i]->size()); break;
    case 12: slots[i]->truncate(n); break;
    case 13: slots[i]->clear(); NEED(slots[i]->empty()); break;
    case 14: (*slots[i])[n] = mk(val); break;
    case 15: slots[i]->at(n) = mk(val); break;
    case 16: slots[i]->front() = mk(val); slots[i]->back() = mk(val + 1); break;
    case 17: std::sort(slots[i]->begin(), slots[i]->end(), [](const T &a, const T &b) { return El<T>::id(a) < El<T>::id(b); }); break;
    case 18: std::reverse(slots[i]->begin(), slots[i]->end()); break;
    case 19: slots[i]->push_back((*slots[i])[n]); break;
    case 20: { V &v = *slots[i]; v.push_back(std::move(v[n])); v[n] = mk(val); } break;
    case 21: slots[i].reset(); break;
    case 22: { std::vector<T> src; for (std::uint64_t k = 0; k < n; ++k) src.push_back(mk(val + k)); std::copy(src.begin(), src.end(), std::back_inserter(*slots[i])); } break;
    case 23: RustSide<T>::push(*slots[i], val); break;
    case 24: { V t = RustSide<T>::id(*slots[j]); *slots[i] = std::move(t); } break;
    case 25: slots[i]->emplace_back((*slots[i])[n]); break;
    case 26: { V t = RustSide<T>::id(std::move(*slots[i])); *slots[i] = t; } break;
    case 27: std::rotate(slots[i]->begin(), slots[i]->begin() + n, slots[i]->end()); break;
    default: bad = BAD;
    }
  });
  return rc != OK ? rc : bad;
}
} // namespace lab
