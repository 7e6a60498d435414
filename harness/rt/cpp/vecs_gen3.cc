// Generated by dev/mkvec.py.
#include "rt/cpp/vecs_impl.h"
namespace lab {
template <> struct RustSide<std::uint64_t> {
  static void push(rust::Vec<std::uint64_t> &v, std::uint64_t x) { rust_push_u64(v, x); }
  static rust::Vec<std::uint64_t> id(rust::Vec<std::uint64_t> v) { return rust_vec_id_u64(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const std::uint64_t> s) { return rust_slice_ids_u64(s); }
  static rust::Slice<const std::uint64_t> sub(rust::Slice<const std::uint64_t> s, std::size_t a, std::size_t b) { return rust_subslice_u64(s, a, b); }
  static void scribble(rust::Slice<std::uint64_t> s, std::uint64_t base) { rust_scribble_u64(s, base); }
};
template class VLab<std::uint64_t>;
std::unique_ptr<VLab_u64> new_u64() { return std::make_unique<VLab_u64>(); }
std::unique_ptr<VLab_us> new_us() { return std::make_unique<VLab_us>(); }
template <> struct RustSide<double> {
  static void push(rust::Vec<double> &v, std::uint64_t x) { rust_push_f64(v, x); }
  static rust::Vec<double> id(rust::Vec<double> v) { return rust_vec_id_f64(std::move(v)); }
  static rust::Vec<std::uint64_t> ids(rust::Slice<const double> s) { return rust_slice_ids_f64(s); }
  static rust::Slice<const double> sub(rust::Slice<const double> s, std::size_t a, std::size_t b) { return rust_subslice_f64(s, a, b); }
  static void scribble(rust::Slice<double> s, std::uint64_t base) { rust_scribble_f64(s, base); }
};
template class VLab<double>;
std::unique_ptr<VLab_f64> new_f64() { return std::make_unique<VLab_f64>(); }
} // namespace lab
