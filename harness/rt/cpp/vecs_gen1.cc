// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::uint16_t> {
  static void push(rust::Vec<std::uint16_t> &v, std::uint64_t x) { rust_push_u16(v, x); }
  static rust::Vec<std::uint16_t> id(rust::Vec<std::uint16_t> v) { return rust_vec_id_u16(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::uint16_t> s) { return rust_slice_ids_u16(s); }
  static rust::Slice<const std::uint16_t> sub(rust::Slice<const std::uint16_t> s, std::size_t a, std::size_t b) { return rust_subslice_u16(s, a, b); }
  static void scribble(rust::Slice<std::uint16_t> s, std::uint64_t base) { rust_scribble_u16(s, base); }
};
template class VLab<std::uint16_t>;
std::unique_ptr<VLab_u16> new_u16() { return std::make_unique<VLab_u16>(); }
template <> struct RustSide<std::int64_t> {
  static void push(rust::Vec<std::int64_t> &v, std::uint64_t x) { rust_push_i64(v, x); }
  static rust::Vec<std::int64_t> id(rust::Vec<std::int64_t> v) { return rust_vec_id_i64(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::int64_t> s) { return rust_slice_ids_i64(s); }
  static rust::Slice<const std::int64_t> sub(rust::Slice<const std::int64_t> s, std::size_t a, std::size_t b) { return rust_subslice_i64(s, a, b); }
  static void scribble(rust::Slice<std::int64_t> s, std::uint64_t base) { rust_scribble_i64(s, base); }
};
template class VLab<std::int64_t>;
std::unique_ptr<VLab_i64> new_i64() { return std::make_unique<VLab_i64>(); }
std::unique_ptr<VLab_iz> new_iz() { return std::make_unique<VLab_iz>(); }
template <> struct RustSide<Elem> {
  static void push(rust::Vec<Elem> &v, std::uint64_t x) { rust_push_el(v, x); }
  static rust::Vec<Elem> id(rust::Vec<Elem> v) { return rust_vec_id_el(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const Elem> s) { return rust_slice_ids_el(s); }
  static rust::Slice<const Elem> sub(rust::Slice<const Elem> s, std::size_t a, std::size_t b) { return rust_subslice_el(s, a, b); }
  static void scribble(rust::Slice<Elem> s, std::uint64_t base) { rust_scribble_el(s, base); }
};
template class VLab<Elem>;
std::unique_ptr<VLab_el> new_el() { return std::make_unique<VLab_el>(); }
} // namespace lab
