#include "rt/cpp/cxxstd_impl.h"
namespace lab {
static std::int64_t live = 0;
std::int64_t live_items() { return live; }
It::It(std::uint64_t v) : block(new std::uint64_t(v)), extra("some text which needs an allocation of its own") { ++live; }
It::It(const It &o) : block(new std::uint64_t(*o.block)), extra(o.extra) { ++live; }
It::It(It &&o) noexcept : block(o.block), extra(std::move(o.extra)) { o.block = new std::uint64_t(~0ull); ++live; }
It &It::operator=(const It &o) { *block = *o.block; return *this; }
It::~It() { delete block; --live; }
std::unique_ptr<std::string> str_make(rust::Slice<const std::uint8_t> b) { return std::make_unique<std::string>(reinterpret_cast<const char *>(b.data()), b.size()); }
rust::Vec<std::uint8_t> str_bytes(const std::string &s) { rust::Vec<std::uint8_t> v; for (char c : s) v.push_back(static_cast<std::uint8_t>(c)); return v; }
std::size_t str_cap(const std::string &s) { return s.capacity(); }
std::size_t str_addr(const std::string &s) { return reinterpret_cast<std::size_t>(s.data()); }
bool str_eq(const std::string &a, const std::string &b) { return a == b; }
void str_op(std::string &s, std::uint32_t op, std::size_t n, rust::Slice<const std::uint8_t> b) {
  std::string t(reinterpret_cast<const char *>(b.data()), b.size());
  switch (op) {
  case 0: s += t; break;
  case 1: s = t; break;
  case 2: s.resize(n, 'r'); break;
  case 3: s.erase(n); break;
  case 4: s.insert(n, t); break;
  case 5: s.shrink_to_fit(); break;
  case 6: s = std::string(n, '\0'); break;
  }
}
std::unique_ptr<SOwner> new_owner() { return std::make_unique<SOwner>(); }
} // namespace lab
