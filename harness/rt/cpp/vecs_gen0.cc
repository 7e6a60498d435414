// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::uint8_t> {
  static void push(rust::Vec<std::uint8_t> &v, std::uint64_t x) { rust_push_u8(v, x); }
  static rust::Vec<std::uint8_t> id(rust::Vec<std::uint8_t> v) { return rust_vec_id_u8(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::uint8_t> s) { return rust_slice_ids_u8(s); }
  static rust::Slice<const std::uint8_t> sub(rust::Slice<const std::uint8_t> s, std::size_t a, std::size_t b) { return rust_subslice_u8(s, a, b); }
  static void scribble(rust::Slice<std::uint8_t> s, std::uint64_t base) { rust_scribble_u8(s, base); }
};
template class VLab<std::uint8_t>;
std::unique_ptr<VLab_u8> new_u8() { return std::make_unique<VLab_u8>(); }
template <> struct RustSide<std::int32_t> {
  static void push(rust::Vec<std::int32_t> &v, std::uint64_t x) { rust_push_i32(v, x); }
  static rust::Vec<std::int32_t> id(rust::Vec<std::int32_t> v) { return rust_vec_id_i32(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::int32_t> s) { return rust_slice_ids_i32(s); }
  static rust::Slice<const std::int32_t> sub(rust::Slice<const std::int32_t> s, std::size_t a, std::size_t b) { return rust_subslice_i32(s, a, b); }
  static void scribble(rust::Slice<std::int32_t> s, std::uint64_t base) { rust_scribble_i32(s, base); }
};
template class VLab<std::int32_t>;
std::unique_ptr<VLab_i32> new_i32() { return std::make_unique<VLab_i32>(); }
template <> struct RustSide<Pod> {
  static void push(rust::Vec<Pod> &v, std::uint64_t x) { rust_push_pod(v, x); }
  static rust::Vec<Pod> id(rust::Vec<Pod> v) { return rust_vec_id_pod(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const Pod> s) { return rust_slice_ids_pod(s); }
  static rust::Slice<const Pod> sub(rust::Slice<const Pod> s, std::size_t a, std::size_t b) { return rust_subslice_pod(s, a, b); }
  static void scribble(rust::Slice<Pod> s, std::uint64_t base) { rust_scribble_pod(s, base); }
};
template class VLab<Pod>;
std::unique_ptr<VLab_pod> new_pod() { return std::make_unique<VLab_pod>(); }
} // namespace lab
