#include "rt/cpp/strings.h"
#include "rt/src/strings.rs.h"
#include <sstream>
#include <string_view>
namespace lab {

// An exact-size heap copy, so that reads past the end are caught.
template <typename C> struct Exact {
  C *p;
  std::size_t n;
  Exact(const C *s, std::size_t len, bool nul) : p(static_cast<C *>(std::malloc((len + nul) * sizeof(C) + !(len + nul)))), n(len) {
    if (len) std::memcpy(p, s, len * sizeof(C));
    if (nul) p[len] = C();
  }
  ~Exact() { std::free(p); }
};

int make8(std::uint32_t kind, rust::Slice<const std::uint8_t> data, rust::String &out) {
  auto c = reinterpret_cast<const char *>(data.data());
  bool nul = kind == 1 || kind == 3 || kind == 6 || kind == 9;
  Exact<char> e(c, data.size(), nul);
  return guard([&] {
    switch (kind) {
    case 0: out = rust::String(std::string(e.p, e.n)); break;
    case 1: out = rust::String(static_cast<const char *>(e.p)); break;
    case 2: out = rust::String(static_cast<const char *>(e.p), e.n); break;
    case 3: out = rust::String(reinterpret_cast<const char8_t *>(e.p)); break;
    case 4: out = rust::String(reinterpret_cast<const char8_t *>(e.p), e.n); break;
    case 5: out = rust::String::lossy(std::string(e.p, e.n)); break;
    case 6: out = rust::String::lossy(static_cast<const char *>(e.p)); break;
    case 7: out = rust::String::lossy(static_cast<const char *>(e.p), e.n); break;
    case 8: { std::string s(e.p, e.n); rust::Str v(s); out = rust::String(static_cast<std::string>(v)); } break;
    case 9: { rust::Str v(static_cast<const char *>(e.p)); auto b = rust_str_to_vec(v); out = rust::String(reinterpret_cast<const char *>(b.data()), b.size()); } break;
    case 10: { rust::Str v(static_cast<const char *>(e.p), e.n); auto b = rust_str_to_vec(v); out = rust::String(reinterpret_cast<const char *>(b.data()), b.size()); } break;
    case 11: out = rust::String(static_cast<const char *>(nullptr), 0); break;
    case 12: out = rust::String::lossy(static_cast<const char *>(nullptr), 0); break;
    case 13: { rust::Str v(static_cast<const char *>(nullptr), 0); auto b = rust_str_to_vec(v); out = rust::String(reinterpret_cast<const char *>(b.data()), b.size()); } break;
    }
  });
}

int make16(std::uint32_t kind, rust::Slice<const std::uint16_t> data, rust::String &out) {
  auto c = reinterpret_cast<const char16_t *>(data.data());
  Exact<char16_t> e(c, data.size(), kind == 0 || kind == 2);
  const char16_t *p = e.p;
  return guard([&] {
    switch (kind) {
    case 0: out = rust::String(p); break;
    case 1: out = rust::String(p, e.n); break;
    case 2: out = rust::String::lossy(p); break;
    case 3: out = rust::String::lossy(p, e.n); break;
    case 4: out = rust::String(static_cast<const char16_t *>(nullptr), 0); break;
    case 5: out = rust::String::lossy(static_cast<const char16_t *>(nullptr), 0); break;
    }
  });
}

std::unique_ptr<StrLab> new_str_lab() { return std::make_unique<StrLab>(); }

void StrLab::put(std::size_t i, rust::String s) { slots[i] = std::make_unique<rust::String>(std::move(s)); }
rust::String StrLab::take(std::size_t i) { return std::move(*slots[i]); }

#define REQUIRE(c) do { if (!(c)) return BAD; } while (0)

int StrLab::op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n, rust::Str text) {
  int bad = OK;
  int rc = guard([&] {
    switch (op) {
    case 0: slots[i].reset(new rust::String(std::string(text))); break;
    case 1: slots[i].reset(new rust::String(std::string(text).c_str())); break;
    case 2: {
      slots[i].reset(new rust::String());
      if (!slots[i]->empty()) bad = BAD;
      *slots[i] = rust::String(text.data(), text.size());
    } break;
    case 3: { auto c = new rust::String(*slots[j]); slots[i].reset(c); } break;
    case 4: { auto c = new rust::String(std::move(*slots[j])); slots[i].reset(c); } break;
    case 5: { rust::String &r = (*slots[i] = static_cast<const rust::String &>(*slots[j])); if (&r != slots[i].get()) bad = BAD; } break;
    case 6: { rust::String &r = (*slots[i] = std::move(*slots[j])); if (&r != slots[i].get()) bad = BAD; } break;
    case 7: slots[i]->swap(*slots[j]); break;
    case 8: { using std::swap; swap(*slots[i], *slots[j]); } break;
    case 9: {
      slots[i]->reserve(n);
      if (slots[i]->capacity() < n) bad = BAD;
      if (slots[i]->capacity() < slots[i]->size()) bad = BAD;
    } break;
    case 10: {
      std::string before(*slots[i]);
      const char *c = slots[i]->c_str();
      if (c[before.size()] != '\0') bad = BAD;
      if (std::memcmp(c, before.data(), before.size()) != 0) bad = BAD;
      if (slots[i]->size() != before.size()) bad = BAD;
      if (slots[i]->capacity() < slots[i]->size()) bad = BAD;
      if (std::string(*slots[i]) != before) bad = BAD;
    } break;
    case 11: slots[i].reset(); break;
    case 12: for (char &c : *slots[i]) { if (c >= 'a' && c <= 'z') c -= 32; } break;
    case 13: { rust::String tmp(std::move(*slots[i])); (void)tmp; } break;
    case 16: rust_append(*slots[i], text); break;
    case 17: *slots[i] = rust::String(text.data(), text.size()); break;
    case 20: *slots[i] = rust_string_identity(*slots[j]); break;
    default: bad = BAD;
    }
  });
  return rc != OK ? rc : bad;
}

rust::Vec<std::uint8_t> StrLab::contents(std::size_t i) {
  const rust::String &s = *slots[i];
  rust::Vec<std::uint8_t> v;
  for (std::size_t k = 0; k < s.size(); ++k) v.push_back(static_cast<std::uint8_t>(s.data()[k]));
  return v;
}

template <typename S> static std::string view_checks(const S &s) {
  std::string raw(s.data(), s.size());
  if (s.size() != s.length()) return "size() != length()";
  if (s.empty() != (s.size() == 0)) return "empty() wrong";
  if (std::string(s.begin(), s.end()) != raw) return "begin()..end() differs from data()";
  if (std::string(s.cbegin(), s.cend()) != raw) return "cbegin()..cend() differs from data()";
  if (static_cast<std::string>(s) != raw) return "conversion to std::string differs";
  std::ostringstream os;
  os << s;
  if (os.str() != raw) return "operator<< wrote something else";
  return "";
}

rust::String StrLab::observe(std::size_t i) const {
  const rust::String &s = *slots[i];
  std::string r = view_checks(s);
  if (!r.empty()) return r;
  if (s.capacity() < s.size()) return "capacity() < size()";
  rust::Str v(s);
  r = view_checks(v);
  if (!r.empty()) return "Str: " + r;
  if (v.size() != s.size() || v.data() != s.data()) return "Str(String) does not view the string";
  auto b = rust_string_ref_to_vec(s);
  if (std::string(reinterpret_cast<const char *>(b.data()), b.size()) != std::string(s)) return "Rust sees other contents";
  rust::Str w = rust_str_identity(v);
  if (w.data() != v.data() || w.size() != v.size()) return "Str changed on its way through Rust";
  // Mutable iterators denote the same memory.
  auto &m = const_cast<rust::String &>(s);
  if (m.begin() != s.data() || m.end() != s.data() + s.size()) return "mutable begin()/end() differ";
  return "";
}

template <typename S> static std::uint32_t cmp(const S &a, const S &b) {
  return std::uint32_t(a == b) | std::uint32_t(a != b) << 1 | std::uint32_t(a < b) << 2 | std::uint32_t(a <= b) << 3 |
         std::uint32_t(a > b) << 4 | std::uint32_t(a >= b) << 5;
}

std::uint32_t StrLab::compare(std::size_t i, std::size_t j) const { return cmp(*slots[i], *slots[j]); }

int StrLab::str_op(std::uint32_t op, std::size_t i, std::size_t j, rust::Str text) {
  auto hold = [&](std::size_t n) {
    auto p = std::unique_ptr<char[]>(new char[n + (n == 0)]);
    if (n) std::memcpy(p.get(), text.data(), n);
    keep.push_back(std::move(p));
    return keep.back().get();
  };
  int bad = OK;
  int rc = guard([&] {
    switch (op) {
    case 0: {
      char *p = hold(text.size());
      std::string s(text);
      rust::Str v(s);
      if (v.data() != s.data()) bad = BAD;
      strs[i] = rust::Str(p, text.size());
    } break;
    case 1: case 3: { char *p = hold(text.size()); strs[i] = rust::Str(p, text.size()); } break;
    case 2: {
      char *p = hold(text.size());
      rust::String s(p, text.size());
      rust::Str v(s);
      if (!(v == rust::Str(p, text.size()))) bad = BAD;
      strs[i] = rust::Str(p, text.size());
    } break;
    case 4: { rust::Str c(strs[j]); strs[i] = c; } break;
    case 5: strs[i] = strs[j]; break;
    case 6: if (i % 2) strs[i].swap(strs[j]); else { using std::swap; swap(strs[i], strs[j]); } break;
    case 7: strs[i] = rust::Str(); break;
    default: bad = BAD;
    }
  });
  return rc != OK ? rc : bad;
}

rust::Vec<std::uint8_t> StrLab::str_contents(std::size_t i) const { return rust_str_to_vec(strs[i]); }
rust::String StrLab::str_observe(std::size_t i) const {
  std::string r = view_checks(strs[i]);
  if (!r.empty()) return r;
  std::string_view sv(strs[i]);
  if (sv.data() != strs[i].data() || sv.size() != strs[i].size()) return "string_view conversion differs";
  return "";
}
std::uint32_t StrLab::str_compare(std::size_t i, std::size_t j) const { return cmp(strs[i], strs[j]); }
} // namespace lab
