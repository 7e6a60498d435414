// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::int8_t> {
  static void push(rust::Vec<std::int8_t> &v, std::uint64_t x) { rust_push_i8(v, x); }
  static rust::Vec<std::int8_t> id(rust::Vec<std::int8_t> v) { return rust_vec_id_i8(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::int8_t> s) { return rust_slice_ids_i8(s); }
  static rust::Slice<const std::int8_t> sub(rust::Slice<const std::int8_t> s, std::size_t a, std::size_t b) { return rust_subslice_i8(s, a, b); }
  static void scribble(rust::Slice<std::int8_t> s, std::uint64_t base) { rust_scribble_i8(s, base); }
};
template class VLab<std::int8_t>;
std::unique_ptr<VLab_i8> new_i8() { return std::make_unique<VLab_i8>(); }
template <> struct RustSide<bool> {
  static void push(rust::Vec<bool> &v, std::uint64_t x) { rust_push_bo(v, x); }
  static rust::Vec<bool> id(rust::Vec<bool> v) { return rust_vec_id_bo(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const bool> s) { return rust_slice_ids_bo(s); }
  static rust::Slice<const bool> sub(rust::Slice<const bool> s, std::size_t a, std::size_t b) { return rust_subslice_bo(s, a, b); }
  static void scribble(rust::Slice<bool> s, std::uint64_t base) { rust_scribble_bo(s, base); }
};
template class VLab<bool>;
std::unique_ptr<VLab_bo> new_bo() { return std::make_unique<VLab_bo>(); }
} // namespace lab
