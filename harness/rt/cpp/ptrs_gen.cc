// Generated by dev/mkptr.py.
#include "rt/cpp/ptrs_impl.h"
namespace lab {
template <> std::unique_ptr<Obj> URust<Obj>::round(std::unique_ptr<Obj> p) { return rust_uround_obj(std::move(p)); }
template class ULab<Obj>;
std::unique_ptr<ULab_obj> new_ulab_obj() { return std::make_unique<ULab_obj>(); }
template <> std::unique_ptr<PS> URust<PS>::round(std::unique_ptr<PS> p) { return rust_uround_ps(std::move(p)); }
template class ULab<PS>;
std::unique_ptr<ULab_ps> new_ulab_ps() { return std::make_unique<ULab_ps>(); }
template <> std::unique_ptr<std::string> URust<std::string>::round(std::unique_ptr<std::string> p) { return rust_uround_str(std::move(p)); }
template class ULab<std::string>;
std::unique_ptr<ULab_str> new_ulab_str() { return std::make_unique<ULab_str>(); }
template <> std::unique_ptr<std::vector<std::uint64_t>> URust<std::vector<std::uint64_t>>::round(std::unique_ptr<std::vector<std::uint64_t>> p) { return rust_uround_vu(std::move(p)); }
template class ULab<std::vector<std::uint64_t>>;
std::unique_ptr<ULab_vu> new_ulab_vu() { return std::make_unique<ULab_vu>(); }
template <> std::unique_ptr<std::vector<PS>> URust<std::vector<PS>>::round(std::unique_ptr<std::vector<PS>> p) { return rust_uround_vp(std::move(p)); }
template class ULab<std::vector<PS>>;
std::unique_ptr<ULab_vp> new_ulab_vp() { return std::make_unique<ULab_vp>(); }
template <> std::unique_ptr<std::vector<std::string>> URust<std::vector<std::string>>::round(std::unique_ptr<std::vector<std::string>> p) { return rust_uround_vs(std::move(p)); }
template class ULab<std::vector<std::string>>;
std::unique_ptr<ULab_vs> new_ulab_vs() { return std::make_unique<ULab_vs>(); }
template <> std::shared_ptr<Obj> SRust<Obj>::round(std::shared_ptr<Obj> p) { return rust_sround_obj(std::move(p)); }
template <> std::weak_ptr<Obj> SRust<Obj>::down(const std::shared_ptr<Obj> &p) { return rust_down_obj(p); }
template <> std::shared_ptr<Obj> SRust<Obj>::up(std::weak_ptr<Obj> p) { return rust_up_obj(std::move(p)); }
template class SLab<Obj>;
std::unique_ptr<SLab_obj> new_slab_obj() { return std::make_unique<SLab_obj>(); }
template <> std::shared_ptr<PS> SRust<PS>::round(std::shared_ptr<PS> p) { return rust_sround_ps(std::move(p)); }
template <> std::weak_ptr<PS> SRust<PS>::down(const std::shared_ptr<PS> &p) { return rust_down_ps(p); }
template <> std::shared_ptr<PS> SRust<PS>::up(std::weak_ptr<PS> p) { return rust_up_ps(std::move(p)); }
template class SLab<PS>;
std::unique_ptr<SLab_ps> new_slab_ps() { return std::make_unique<SLab_ps>(); }
template <> std::shared_ptr<std::string> SRust<std::string>::round(std::shared_ptr<std::string> p) { return rust_sround_str(std::move(p)); }
template <> std::weak_ptr<std::string> SRust<std::string>::down(const std::shared_ptr<std::string> &p) { return rust_down_str(p); }
template <> std::shared_ptr<std::string> SRust<std::string>::up(std::weak_ptr<std::string> p) { return rust_up_str(std::move(p)); }
template class SLab<std::string>;
std::unique_ptr<SLab_str> new_slab_str() { return std::make_unique<SLab_str>(); }
template <> std::shared_ptr<bool> SRust<bool>::round(std::shared_ptr<bool> p) { return rust_sround_bool(std::move(p)); }
template <> std::weak_ptr<bool> SRust<bool>::down(const std::shared_ptr<bool> &p) { return rust_down_bool(p); }
template <> std::shared_ptr<bool> SRust<bool>::up(std::weak_ptr<bool> p) { return rust_up_bool(std::move(p)); }
template class SLab<bool>;
std::unique_ptr<SLab_bool> new_slab_bool() { return std::make_unique<SLab_bool>(); }
template <> std::shared_ptr<std::uint8_t> SRust<std::uint8_t>::round(std::shared_ptr<std::uint8_t> p) { return rust_sround_u8(std::move(p)); }
template <> std::weak_ptr<std::uint8_t> SRust<std::uint8_t>::down(const std::shared_ptr<std::uint8_t> &p) { return rust_down_u8(p); }
template <> std::shared_ptr<std::uint8_t> SRust<std::uint8_t>::up(std::weak_ptr<std::uint8_t> p) { return rust_up_u8(std::move(p)); }
template class SLab<std::uint8_t>;
std::unique_ptr<SLab_u8> new_slab_u8() { return std::make_unique<SLab_u8>(); }
template <> std::shared_ptr<std::uint16_t> SRust<std::uint16_t>::round(std::shared_ptr<std::uint16_t> p) { return rust_sround_u16(std::move(p)); }
template <> std::weak_ptr<std::uint16_t> SRust<std::uint16_t>::down(const std::shared_ptr<std::uint16_t> &p) { return rust_down_u16(p); }
template <> std::shared_ptr<std::uint16_t> SRust<std::uint16_t>::up(std::weak_ptr<std::uint16_t> p) { return rust_up_u16(std::move(p)); }
template class SLab<std::uint16_t>;
std::unique_ptr<SLab_u16> new_slab_u16() { return std::make_unique<SLab_u16>(); }
template <> std::shared_ptr<std::uint32_t> SRust<std::uint32_t>::round(std::shared_ptr<std::uint32_t> p) { return rust_sround_u32(std::move(p)); }
template <> std::weak_ptr<std::uint32_t> SRust<std::uint32_t>::down(const std::shared_ptr<std::uint32_t> &p) { return rust_down_u32(p); }
template <> std::shared_ptr<std::uint32_t> SRust<std::uint32_t>::up(std::weak_ptr<std::uint32_t> p) { return rust_up_u32(std::move(p)); }
template class SLab<std::uint32_t>;
std::unique_ptr<SLab_u32> new_slab_u32() { return std::make_unique<SLab_u32>(); }
template <> std::shared_ptr<std::uint64_t> SRust<std::uint64_t>::round(std::shared_ptr<std::uint64_t> p) { return rust_sround_u64(std::move(p)); }
template <> std::weak_ptr<std::uint64_t> SRust<std::uint64_t>::down(const std::shared_ptr<std::uint64_t> &p) { return rust_down_u64(p); }
template <> std::shared_ptr<std::uint64_t> SRust<std::uint64_t>::up(std::weak_ptr<std::uint64_t> p) { return rust_up_u64(std::move(p)); }
template class SLab<std::uint64_t>;
std::unique_ptr<SLab_u64> new_slab_u64() { return std::make_unique<SLab_u64>(); }
template <> std::shared_ptr<std::size_t> SRust<std::size_t, 1>::round(std::shared_ptr<std::size_t> p) { return rust_sround_usize(std::move(p)); }
template <> std::weak_ptr<std::size_t> SRust<std::size_t, 1>::down(const std::shared_ptr<std::size_t> &p) { return rust_down_usize(p); }
template <> std::shared_ptr<std::size_t> SRust<std::size_t, 1>::up(std::weak_ptr<std::size_t> p) { return rust_up_usize(std::move(p)); }
template class SLab<std::size_t, 1>;
std::unique_ptr<SLab_usize> new_slab_usize() { return std::make_unique<SLab_usize>(); }
template <> std::shared_ptr<std::int8_t> SRust<std::int8_t>::round(std::shared_ptr<std::int8_t> p) { return rust_sround_i8(std::move(p)); }
template <> std::weak_ptr<std::int8_t> SRust<std::int8_t>::down(const std::shared_ptr<std::int8_t> &p) { return rust_down_i8(p); }
template <> std::shared_ptr<std::int8_t> SRust<std::int8_t>::up(std::weak_ptr<std::int8_t> p) { return rust_up_i8(std::move(p)); }
template class SLab<std::int8_t>;
std::unique_ptr<SLab_i8> new_slab_i8() { return std::make_unique<SLab_i8>(); }
template <> std::shared_ptr<std::int16_t> SRust<std::int16_t>::round(std::shared_ptr<std::int16_t> p) { return rust_sround_i16(std::move(p)); }
template <> std::weak_ptr<std::int16_t> SRust<std::int16_t>::down(const std::shared_ptr<std::int16_t> &p) { return rust_down_i16(p); }
template <> std::shared_ptr<std::int16_t> SRust<std::int16_t>::up(std::weak_ptr<std::int16_t> p) { return rust_up_i16(std::move(p)); }
template class SLab<std::int16_t>;
std::unique_ptr<SLab_i16> new_slab_i16() { return std::make_unique<SLab_i16>(); }
template <> std::shared_ptr<std::int32_t> SRust<std::int32_t>::round(std::shared_ptr<std::int32_t> p) { return rust_sround_i32(std::move(p)); }
template <> std::weak_ptr<std::int32_t> SRust<std::int32_t>::down(const std::shared_ptr<std::int32_t> &p) { return rust_down_i32(p); }
template <> std::shared_ptr<std::int32_t> SRust<std::int32_t>::up(std::weak_ptr<std::int32_t> p) { return rust_up_i32(std::move(p)); }
template class SLab<std::int32_t>;
std::unique_ptr<SLab_i32> new_slab_i32() { return std::make_unique<SLab_i32>(); }
template <> std::shared_ptr<std::int64_t> SRust<std::int64_t>::round(std::shared_ptr<std::int64_t> p) { return rust_sround_i64(std::move(p)); }
template <> std::weak_ptr<std::int64_t> SRust<std::int64_t>::down(const std::shared_ptr<std::int64_t> &p) { return rust_down_i64(p); }
template <> std::shared_ptr<std::int64_t> SRust<std::int64_t>::up(std::weak_ptr<std::int64_t> p) { return rust_up_i64(std::move(p)); }
template class SLab<std::int64_t>;
std::unique_ptr<SLab_i64> new_slab_i64() { return std::make_unique<SLab_i64>(); }
template <> std::shared_ptr<rust::isize> SRust<rust::isize, 1>::round(std::shared_ptr<rust::isize> p) { return rust_sround_isize(std::move(p)); }
template <> std::weak_ptr<rust::isize> SRust<rust::isize, 1>::down(const std::shared_ptr<rust::isize> &p) { return rust_down_isize(p); }
template <> std::shared_ptr<rust::isize> SRust<rust::isize, 1>::up(std::weak_ptr<rust::isize> p) { return rust_up_isize(std::move(p)); }
template class SLab<rust::isize, 1>;
std::unique_ptr<SLab_isize> new_slab_isize() { return std::make_unique<SLab_isize>(); }
template <> std::shared_ptr<float> SRust<float>::round(std::shared_ptr<float> p) { return rust_sround_f32(std::move(p)); }
template <> std::weak_ptr<float> SRust<float>::down(const std::shared_ptr<float> &p) { return rust_down_f32(p); }
template <> std::shared_ptr<float> SRust<float>::up(std::weak_ptr<float> p) { return rust_up_f32(std::move(p)); }
template class SLab<float>;
std::unique_ptr<SLab_f32> new_slab_f32() { return std::make_unique<SLab_f32>(); }
template <> std::shared_ptr<double> SRust<double>::round(std::shared_ptr<double> p) { return rust_sround_f64(std::move(p)); }
template <> std::weak_ptr<double> SRust<double>::down(const std::shared_ptr<double> &p) { return rust_down_f64(p); }
template <> std::shared_ptr<double> SRust<double>::up(std::weak_ptr<double> p) { return rust_up_f64(std::move(p)); }
template class SLab<double>;
std::unique_ptr<SLab_f64> new_slab_f64() { return std::make_unique<SLab_f64>(); }
}
