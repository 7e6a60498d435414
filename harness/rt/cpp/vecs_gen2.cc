// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::uint32_t> {
  static void push(rust::Vec<std::uint32_t> &v, std::uint64_t x) { rust_push_u32(v, x); }
  static rust::Vec<std::uint32_t> id(rust::Vec<std::uint32_t> v) { return rust_vec_id_u32(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::uint32_t> s) { return rust_slice_ids_u32(s); }
  static rust::Slice<const std::uint32_t> sub(rust::Slice<const std::uint32_t> s, std::size_t a, std::size_t b) { return rust_subslice_u32(s, a, b); }
  static void scribble(rust::Slice<std::uint32_t> s, std::uint64_t base) { rust_scribble_u32(s, base); }
};
template class VLab<std::uint32_t>;
std::unique_ptr<VLab_u32> new_u32() { return std::make_unique<VLab_u32>(); }
template <> struct RustSide<float> {
  static void push(rust::Vec<float> &v, std::uint64_t x) { rust_push_f32(v, x); }
  static rust::Vec<float> id(rust::Vec<float> v) { return rust_vec_id_f32(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const float> s) { return rust_slice_ids_f32(s); }
  static rust::Slice<const float> sub(rust::Slice<const float> s, std::size_t a, std::size_t b) { return rust_subslice_f32(s, a, b); }
  static void scribble(rust::Slice<float> s, std::uint64_t base) { rust_scribble_f32(s, base); }
};
template class VLab<float>;
std::unique_ptr<VLab_f32> new_f32() { return std::make_unique<VLab_f32>(); }
template <> struct RustSide<Th> {
  static void push(rust::Vec<Th> &v, std::uint64_t x) { rust_push_th(v, x); }
  static rust::Vec<Th> id(rust::Vec<Th> v) { return rust_vec_id_th(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const Th> s) { return rust_slice_ids_th(s); }
  static rust::Slice<const Th> sub(rust::Slice<const Th> s, std::size_t a, std::size_t b) { return rust_subslice_th(s, a, b); }
  static void scribble(rust::Slice<Th> s, std::uint64_t base) { rust_scribble_th(s, base); }
};
template class VLab<Th>;
std::unique_ptr<VLab_th> new_th() { return std::make_unique<VLab_th>(); }
} // namespace lab
