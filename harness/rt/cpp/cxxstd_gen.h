// Generated by dev/mkcv.py.
#pragma once
namespace lab {
class CLab_u8 : public CLab<std::uint8_t> {};
std::unique_ptr<CLab_u8> new_clab_u8();
class CLab_u16 : public CLab<std::uint16_t> {};
std::unique_ptr<CLab_u16> new_clab_u16();
class CLab_u32 : public CLab<std::uint32_t> {};
std::unique_ptr<CLab_u32> new_clab_u32();
class CLab_u64 : public CLab<std::uint64_t> {};
std::unique_ptr<CLab_u64> new_clab_u64();
class CLab_usize : public CLab<std::size_t, 1> {};
std::unique_ptr<CLab_usize> new_clab_usize();
class CLab_i8 : public CLab<std::int8_t> {};
std::unique_ptr<CLab_i8> new_clab_i8();
class CLab_i16 : public CLab<std::int16_t> {};
std::unique_ptr<CLab_i16> new_clab_i16();
class CLab_i32 : public CLab<std::int32_t> {};
std::unique_ptr<CLab_i32> new_clab_i32();
class CLab_i64 : public CLab<std::int64_t> {};
std::unique_ptr<CLab_i64> new_clab_i64();
class CLab_isize : public CLab<rust::isize, 1> {};
std::unique_ptr<CLab_isize> new_clab_isize();
class CLab_f32 : public CLab<float> {};
std::unique_ptr<CLab_f32> new_clab_f32();
class CLab_f64 : public CLab<double> {};
std::unique_ptr<CLab_f64> new_clab_f64();
class CLab_str : public CLab<std::string> {};
std::unique_ptr<CLab_str> new_clab_str();
class CLab_p3 : public CLab<P3> {};
std::unique_ptr<CLab_p3> new_clab_p3();
class CLab_p72 : public CLab<P72> {};
std::unique_ptr<CLab_p72> new_clab_p72();
class CLab_vs : public CLab<VS> {};
std::unique_ptr<CLab_vs> new_clab_vs();
class CLab_en : public CLab<En> {};
std::unique_ptr<CLab_en> new_clab_en();
class CLab_tr : public CLab<Tr> {};
std::unique_ptr<CLab_tr> new_clab_tr();
class CLab_it : public CLab<It> {};
std::unique_ptr<CLab_it> new_clab_it();
class CLab_odd : public CLab<Odd> {};
std::unique_ptr<CLab_odd> new_clab_odd();
class CLab_big : public CLab<Big> {};
std::unique_ptr<CLab_big> new_clab_big();
}
