// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::int16_t> {
  static void push(rust::Vec<std::int16_t> &v, std::uint64_t x) { rust_push_i16(v, x); }
  static rust::Vec<std::int16_t> id(rust::Vec<std::int16_t> v) { return rust_vec_id_i16(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::int16_t> s) { return rust_slice_ids_i16(s); }
  static rust::Slice<const std::int16_t> sub(rust::Slice<const std::int16_t> s, std::size_t a, std::size_t b) { return rust_subslice_i16(s, a, b); }
  static void scribble(rust::Slice<std::int16_t> s, std::uint64_t base) { rust_scribble_i16(s, base); }
};
template class VLab<std::int16_t>;
std::unique_ptr<VLab_i16> new_i16() { return std::make_unique<VLab_i16>(); }
template <> struct RustSide<rust::String> {
  static void push(rust::Vec<rust::String> &v, std::uint64_t x) { rust_push_st(v, x); }
  static rust::Vec<rust::String> id(rust::Vec<rust::String> v) { return rust_vec_id_st(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const rust::String> s) { return rust_slice_ids_st(s); }
  static rust::Slice<const rust::String> sub(rust::Slice<const rust::String> s, std::size_t a, std::size_t b) { return rust_subslice_st(s, a, b); }
  static void scribble(rust::Slice<rust::String> s, std::uint64_t base) { rust_scribble_st(s, base); }
};
template class VLab<rust::String>;
std::unique_ptr<VLab_st> new_st() { return std::make_unique<VLab_st>(); }
} // namespace lab
