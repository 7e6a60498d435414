// Generated by dev/mkvec.py.
#pragma once
namespace lab {
class VLab_u8 : public VLab<std::uint8_t> {};
std::unique_ptr<VLab_u8> new_u8();
class VLab_u16 : public VLab<std::uint16_t> {};
std::unique_ptr<VLab_u16> new_u16();
class VLab_u32 : public VLab<std::uint32_t> {};
std::unique_ptr<VLab_u32> new_u32();
class VLab_u64 : public VLab<std::uint64_t> {};
std::unique_ptr<VLab_u64> new_u64();
class VLab_us : public VLab<std::size_t> {};
std::unique_ptr<VLab_us> new_us();
class VLab_i8 : public VLab<std::int8_t> {};
std::unique_ptr<VLab_i8> new_i8();
class VLab_i16 : public VLab<std::int16_t> {};
std::unique_ptr<VLab_i16> new_i16();
class VLab_i32 : public VLab<std::int32_t> {};
std::unique_ptr<VLab_i32> new_i32();
class VLab_i64 : public VLab<std::int64_t> {};
std::unique_ptr<VLab_i64> new_i64();
class VLab_iz : public VLab<rust::isize> {};
std::unique_ptr<VLab_iz> new_iz();
class VLab_f32 : public VLab<float> {};
std::unique_ptr<VLab_f32> new_f32();
class VLab_f64 : public VLab<double> {};
std::unique_ptr<VLab_f64> new_f64();
class VLab_bo : public VLab<bool> {};
std::unique_ptr<VLab_bo> new_bo();
class VLab_st : public VLab<rust::String> {};
std::unique_ptr<VLab_st> new_st();
class VLab_pod : public VLab<Pod> {};
std::unique_ptr<VLab_pod> new_pod();
class VLab_el : public VLab<Elem> {};
std::unique_ptr<VLab_el> new_el();
class VLab_th : public VLab<Th> {};
std::unique_ptr<VLab_th> new_th();
} // namespace lab
