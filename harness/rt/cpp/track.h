#pragma once
#include "rt/cpp/lab.h"
#include <set>
namespace lab {
// A relocatable C++ type owning a heap block, whose copy constructor can be
// armed to throw. Passed by value between the languages.
class Tr {
public:
  using IsRelocatable = std::true_type;
  explicit Tr(std::uint64_t v);
  Tr(const Tr &);
  Tr(Tr &&) noexcept;
  Tr &operator=(Tr &&) noexcept;
  Tr &operator=(const Tr &) = delete;
  ~Tr();
  std::uint64_t *owned;
};
void arm_copy(std::int64_t n);
std::uint64_t tr_value(const Tr &t);

// An opaque C++ type with identity: every live object's id is in a set.
class Obj {
public:
  explicit Obj(std::uint64_t id);
  Obj(const Obj &) = delete;
  ~Obj();
  std::uint64_t id() const;
  std::uint64_t hits() const;
  void hit();
private:
  std::uint64_t *block;
  Obj *self;
};
// Hash of the ids of the live objects, and their number.
std::uint64_t live_objs();
} // namespace lab
