// Generated by dev/mkptr.py.
#pragma once
namespace lab {
class ULab_obj : public ULab<Obj> {};
std::unique_ptr<ULab_obj> new_ulab_obj();
class ULab_ps : public ULab<PS> {};
std::unique_ptr<ULab_ps> new_ulab_ps();
class ULab_str : public ULab<std::string> {};
std::unique_ptr<ULab_str> new_ulab_str();
class ULab_vu : public ULab<std::vector<std::uint64_t>> {};
std::unique_ptr<ULab_vu> new_ulab_vu();
class ULab_vp : public ULab<std::vector<PS>> {};
std::unique_ptr<ULab_vp> new_ulab_vp();
class ULab_vs : public ULab<std::vector<std::string>> {};
std::unique_ptr<ULab_vs> new_ulab_vs();
class SLab_obj : public SLab<Obj> {};
std::unique_ptr<SLab_obj> new_slab_obj();
class SLab_ps : public SLab<PS> {};
std::unique_ptr<SLab_ps> new_slab_ps();
class SLab_str : public SLab<std::string> {};
std::unique_ptr<SLab_str> new_slab_str();
class SLab_bool : public SLab<bool> {};
std::unique_ptr<SLab_bool> new_slab_bool();
class SLab_u8 : public SLab<std::uint8_t> {};
std::unique_ptr<SLab_u8> new_slab_u8();
class SLab_u16 : public SLab<std::uint16_t> {};
std::unique_ptr<SLab_u16> new_slab_u16();
class SLab_u32 : public SLab<std::uint32_t> {};
std::unique_ptr<SLab_u32> new_slab_u32();
class SLab_u64 : public SLab<std::uint64_t> {};
std::unique_ptr<SLab_u64> new_slab_u64();
class SLab_usize : public SLab<std::size_t, 1> {};
std::unique_ptr<SLab_usize> new_slab_usize();
class SLab_i8 : public SLab<std::int8_t> {};
std::unique_ptr<SLab_i8> new_slab_i8();
class SLab_i16 : public SLab<std::int16_t> {};
std::unique_ptr<SLab_i16> new_slab_i16();
class SLab_i32 : public SLab<std::int32_t> {};
std::unique_ptr<SLab_i32> new_slab_i32();
class SLab_i64 : public SLab<std::int64_t> {};
std::unique_ptr<SLab_i64> new_slab_i64();
class SLab_isize : public SLab<rust::isize, 1> {};
std::unique_ptr<SLab_isize> new_slab_isize();
class SLab_f32 : public SLab<float> {};
std::unique_ptr<SLab_f32> new_slab_f32();
class SLab_f64 : public SLab<double> {};
std::unique_ptr<SLab_f64> new_slab_f64();
}
