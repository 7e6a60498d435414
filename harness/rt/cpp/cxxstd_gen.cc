// Generated by dev/mkcv.py.
#include "rt/cpp/cxxstd_impl.h"
namespace lab {
template class CLab<std::uint8_t>;
std::unique_ptr<CLab_u8> new_clab_u8() { return std::make_unique<CLab_u8>(); }
template class CLab<std::uint16_t>;
std::unique_ptr<CLab_u16> new_clab_u16() { return std::make_unique<CLab_u16>(); }
template class CLab<std::uint32_t>;
std::unique_ptr<CLab_u32> new_clab_u32() { return std::make_unique<CLab_u32>(); }
template class CLab<std::uint64_t>;
std::unique_ptr<CLab_u64> new_clab_u64() { return std::make_unique<CLab_u64>(); }
template class CLab<std::size_t, 1>;
std::unique_ptr<CLab_usize> new_clab_usize() { return std::make_unique<CLab_usize>(); }
template class CLab<std::int8_t>;
std::unique_ptr<CLab_i8> new_clab_i8() { return std::make_unique<CLab_i8>(); }
template class CLab<std::int16_t>;
std::unique_ptr<CLab_i16> new_clab_i16() { return std::make_unique<CLab_i16>(); }
template class CLab<std::int32_t>;
std::unique_ptr<CLab_i32> new_clab_i32() { return std::make_unique<CLab_i32>(); }
template class CLab<std::int64_t>;
std::unique_ptr<CLab_i64> new_clab_i64() { return std::make_unique<CLab_i64>(); }
template class CLab<rust::isize, 1>;
std::unique_ptr<CLab_isize> new_clab_isize() { return std::make_unique<CLab_isize>(); }
template class CLab<float>;
std::unique_ptr<CLab_f32> new_clab_f32() { return std::make_unique<CLab_f32>(); }
template class CLab<double>;
std::unique_ptr<CLab_f64> new_clab_f64() { return std::make_unique<CLab_f64>(); }
template class CLab<std::string>;
std::unique_ptr<CLab_str> new_clab_str() { return std::make_unique<CLab_str>(); }
template class CLab<P3>;
std::unique_ptr<CLab_p3> new_clab_p3() { return std::make_unique<CLab_p3>(); }
template class CLab<P72>;
std::unique_ptr<CLab_p72> new_clab_p72() { return std::make_unique<CLab_p72>(); }
template class CLab<VS>;
std::unique_ptr<CLab_vs> new_clab_vs() { return std::make_unique<CLab_vs>(); }
template class CLab<En>;
std::unique_ptr<CLab_en> new_clab_en() { return std::make_unique<CLab_en>(); }
template class CLab<Tr>;
std::unique_ptr<CLab_tr> new_clab_tr() { return std::make_unique<CLab_tr>(); }
template class CLab<It>;
std::unique_ptr<CLab_it> new_clab_it() { return std::make_unique<CLab_it>(); }
template class CLab<Odd>;
std::unique_ptr<CLab_odd> new_clab_odd() { return std::make_unique<CLab_odd>(); }
template class CLab<Big>;
std::unique_ptr<CLab_big> new_clab_big() { return std::make_unique<CLab_big>(); }
}
