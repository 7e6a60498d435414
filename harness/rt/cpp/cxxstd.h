#pragma once
#include "rt/cpp/track.h"
#include <string>
namespace lab {
struct P3;
struct P72;
struct VS;
enum class En : std::uint16_t;
// Opaque element types of different sizes, movable, each with identity.
class It {
public:
  explicit It(std::uint64_t v);
  It(const It &);
  It(It &&) noexcept;
  It &operator=(const It &);
  ~It();
  std::uint64_t get() const { return *block; }
  void set(std::uint64_t v) { *block = v; }
private:
  std::uint64_t *block;
  std::string extra;
};
class Odd {
public:
  explicit Odd(std::uint64_t v) { set(v); }
  std::uint64_t get() const { return b[0] | b[1] << 8 | std::uint64_t(b[2]) << 16; }
  void set(std::uint64_t v) { for (int k = 0; k < 3; ++k) b[k] = std::uint8_t(v >> (8 * k)); }
private:
  std::uint8_t b[3];
};
class Big {
public:
  explicit Big(std::uint64_t v) { set(v); }
  std::uint64_t get() const { return w[0] == w[24] ? w[12] : ~0ull; }
  void set(std::uint64_t v) { w[0] = w[12] = w[24] = v; }
private:
  alignas(32) std::uint64_t w[25];
};
std::int64_t live_items();
std::unique_ptr<std::string> str_make(rust::Slice<const std::uint8_t> b);
rust::Vec<std::uint8_t> str_bytes(const std::string &s);
std::size_t str_cap(const std::string &s);
std::size_t str_addr(const std::string &s);
void str_op(std::string &s, std::uint32_t op, std::size_t n, rust::Slice<const std::uint8_t> b);
bool str_eq(const std::string &a, const std::string &b);
class SOwner {
public:
  const std::string &view() const { return s; }
  std::string &edit() { return s; }
private:
  std::string s;
};
std::unique_ptr<SOwner> new_owner();
template <typename T, int N = 0> class CLab {
public:
  std::unique_ptr<std::vector<T>> make() { return std::make_unique<std::vector<T>>(); }
  std::vector<T> &own() { return mine; }
  const std::vector<T> &view() const { return mine; }
  void op(std::uint32_t op, std::vector<T> &v, std::size_t n, std::uint64_t val);
  rust::Vec<std::uint64_t> ids(const std::vector<T> &v) const;
  std::size_t addr(const std::vector<T> &v, std::size_t pos) const { return reinterpret_cast<std::size_t>(v.data() + pos); }
  std::size_t cap(const std::vector<T> &v) const { return v.capacity(); }
  std::unique_ptr<std::vector<T>> take_by_value(std::unique_ptr<std::vector<T>> v) { std::vector<T> w = std::move(*v); return std::make_unique<std::vector<T>>(std::move(w)); }
private:
  std::vector<T> mine;
};
} // namespace lab
#include "rt/cpp/cxxstd_gen.h"
