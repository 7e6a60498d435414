#pragma once
#include "rt/cpp/lab.h"
#include <deque>
namespace lab {
int make8(std::uint32_t kind, rust::Slice<const std::uint8_t> data, rust::String &out);
int make16(std::uint32_t kind, rust::Slice<const std::uint16_t> data, rust::String &out);

class StrLab {
public:
  int op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n, rust::Str text);
  bool has(std::size_t i) const { return bool(slots[i]); }
  rust::Vec<std::uint8_t> contents(std::size_t i);
  rust::String observe(std::size_t i) const;
  std::uint32_t compare(std::size_t i, std::size_t j) const;
  rust::String &slot(std::size_t i) { return *slots[i]; }
  const rust::String &cslot(std::size_t i) const { return *slots[i]; }
  rust::Str as_str(std::size_t i) const { return *slots[i]; }
  void put(std::size_t i, rust::String s);
  rust::String take(std::size_t i);

  int str_op(std::uint32_t op, std::size_t i, std::size_t j, rust::Str text);
  rust::Vec<std::uint8_t> str_contents(std::size_t i) const;
  rust::String str_observe(std::size_t i) const;
  std::uint32_t str_compare(std::size_t i, std::size_t j) const;
  rust::Str str_get(std::size_t i) const { return strs[i]; }

private:
  std::unique_ptr<rust::String> slots[4];
  rust::Str strs[4];
  std::deque<std::unique_ptr<char[]>> keep;
};
std::unique_ptr<StrLab> new_str_lab();
} // namespace lab
