#pragma once
#include "rt/cpp/lab.h"
namespace lab {
struct Pod;
struct Elem;
struct Th;
struct Opq;

// A by-value extern type whose copy constructor can be told to throw. It owns
// a heap block, so duplicated or skipped destruction is detected.
void arm_throw(std::int64_t n);
struct Thrower {
  std::uint64_t *owned;
  using IsRelocatable = std::true_type;
  Thrower(std::uint64_t v);
  Thrower(const Thrower &);
  Thrower(Thrower &&) noexcept;
  Thrower &operator=(const Thrower &) = delete;
  Thrower &operator=(Thrower &&) noexcept;
  ~Thrower();
};

template <typename T> class VLab {
public:
  int op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n, std::uint64_t val);
  rust::Vec<std::uint64_t> ids(std::size_t i) const;
  rust::String observe(std::size_t i) const;
  const rust::Vec<T> &get(std::size_t i) const { return *slots[i]; }
  rust::Vec<T> &vec_mut(std::size_t i) { return *slots[i]; }
  void put(std::size_t i, rust::Vec<T> v);
  rust::Vec<T> take(std::size_t i);
  rust::Slice<const T> slice(std::size_t i, std::size_t from, std::size_t to) const;
  rust::Slice<T> slice_mut(std::size_t i, std::size_t from, std::size_t to);
  rust::String probe(rust::Slice<const T> s, rust::Slice<const std::uint8_t> prog) const;
  void scribble(rust::Slice<T> s, std::uint64_t base);

private:
  std::unique_ptr<rust::Vec<T>> slots[3];
};

class OLab {
public:
  int op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n);
  void put(std::size_t i, rust::Vec<Opq> v);
  rust::Vec<Opq> take(std::size_t i);
  const rust::Vec<Opq> &get(std::size_t i) const { return *slots[i]; }
  rust::Vec<Opq> &vec_mut(std::size_t i) { return *slots[i]; }
  rust::Vec<std::uint64_t> ids(std::size_t i) const;
  rust::String observe(std::size_t i) const;
  rust::String probe(rust::Slice<const Opq> s, rust::Slice<const std::uint8_t> prog) const;
  rust::Slice<const Opq> slice(std::size_t i) const;
  void bump(rust::Slice<Opq> s);
private:
  std::unique_ptr<rust::Vec<Opq>> slots[3];
};
std::unique_ptr<OLab> new_opq();
} // namespace lab
#include "rt/cpp/vecs_gen.h"
