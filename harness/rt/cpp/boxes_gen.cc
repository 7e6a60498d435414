// Generated by dev/mkbox.py.
#include "rt/cpp/boxes_impl.h"
namespace lab {
template <> struct BoxRust<R> {
  static rust::Box<R> round(rust::Box<R> b) { return rust_round_R(std::move(b)); }
  static rust::Box<R> fail(rust::Box<R> b) { return rust_fail_R(std::move(b)); }
  static void replace(rust::Box<R> &b, std::uint64_t v) { rust_replace_R(b, v); }
  static std::uint64_t read(const rust::Box<R> &b) { return rust_read_R(b); }
};
template class BLab<R>;
std::unique_ptr<BLabR> new_blab_R() { return std::make_unique<BLabR>(); }
template <> struct BoxRust<Z> {
  static rust::Box<Z> round(rust::Box<Z> b) { return rust_round_Z(std::move(b)); }
  static rust::Box<Z> fail(rust::Box<Z> b) { return rust_fail_Z(std::move(b)); }
  static void replace(rust::Box<Z> &b, std::uint64_t v) { rust_replace_Z(b, v); }
  static std::uint64_t read(const rust::Box<Z> &b) { return rust_read_Z(b); }
};
template class BLab<Z>;
std::unique_ptr<BLabZ> new_blab_Z() { return std::make_unique<BLabZ>(); }
template <> struct BoxRust<Al> {
  static rust::Box<Al> round(rust::Box<Al> b) { return rust_round_Al(std::move(b)); }
  static rust::Box<Al> fail(rust::Box<Al> b) { return rust_fail_Al(std::move(b)); }
  static void replace(rust::Box<Al> &b, std::uint64_t v) { rust_replace_Al(b, v); }
  static std::uint64_t read(const rust::Box<Al> &b) { return rust_read_Al(b); }
};
template class BLab<Al>;
std::unique_ptr<BLabAl> new_blab_Al() { return std::make_unique<BLabAl>(); }
template <> struct BoxRust<S> {
  static rust::Box<S> round(rust::Box<S> b) { return rust_round_S(std::move(b)); }
  static rust::Box<S> fail(rust::Box<S> b) { return rust_fail_S(std::move(b)); }
  static void replace(rust::Box<S> &b, std::uint64_t v) { rust_replace_S(b, v); }
  static std::uint64_t read(const rust::Box<S> &b) { return rust_read_S(b); }
};
template class BLab<S>;
std::unique_ptr<BLabS> new_blab_S() { return std::make_unique<BLabS>(); }
}
