#pragma once
#include "rt/cpp/track.h"
namespace lab {
struct R;
struct Z;
struct Al;
struct S;
struct Hold;
template <typename T> class BLab {
public:
  ~BLab();
  int op(std::uint32_t op, std::size_t i, std::size_t j, std::uint64_t val);
  void put(rust::Box<T> b);
  rust::Box<T> take(std::size_t i);
  const T &peek(std::size_t i) const;
  T &poke(std::size_t i);
  const rust::Box<T> &peek_box(std::size_t i) const;
  rust::Box<T> &poke_box(std::size_t i);
  std::uint64_t id(std::size_t i) const;
private:
  std::vector<rust::Box<T>> boxes;
  std::vector<T *> raws;
};
Hold hold_round(Hold h, bool bump);
} // namespace lab
#include "rt/cpp/boxes_gen.h"
